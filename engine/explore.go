package main

import (
	"fmt"
	"go/types"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

func stackTrace() string { return string(debug.Stack()) }

// Dec is one decision on a path.
type Dec struct {
	taken   bool // side of the branch
	forced  bool // the other side is infeasible: nothing to add to the path condition
	conc    bool // a concretisation: taken means term==val
	val     uint64
	noSplit bool // the other side was not (and must not be) scheduled
}

type workItem struct {
	prefix []Dec
	model  map[int]uint64
}

type pathEnd struct {
	kind string
	msg  string
}

// Run is one exploration of a harness.
type Run struct {
	e        *Engine
	harness  *Fn
	params   map[string]int
	shared   *SolverShared
	mu       sync.Mutex
	cond     *sync.Cond
	queue    []*workItem
	active   int
	deadline time.Time
	maxPaths int
	cmdInit  bool // run the init functions of the command package
	maxSteps int
	stop     bool
	maxViol  int

	paths       int64
	steps       int64
	asserts     map[string]int64 // assertion label -> times checked
	covers      map[string]int64
	ends        map[string]int64
	reduced     map[string]int64 // reasons for a reduced bound
	viols       []*Violation
	violKeys    map[string]int
	samples     []*Sample
	unexplored  int64
	decisions   int64
	maxDecs     int
	maxTrail    int
	forkSites   map[string]int64
	nGoroutines int
}

type Violation struct {
	Harness string            `json:"harness"`
	Label   string            `json:"label"`
	Kind    string            `json:"kind"` // assert, panic, deadlock
	Msg     string            `json:"msg"`
	Where   string            `json:"where"`
	Inputs  map[string]uint64 `json:"inputs"`
	Order   []string          `json:"order"`
	Replay  string            `json:"replay_result,omitempty"`
	Sched   []int             `json:"sched,omitempty"`
	Obs     []string          `json:"obs,omitempty"`
	// Panicked: a simulated process panicked, which natively ends everything unless its first goroutine did
	Panicked bool `json:"panicked,omitempty"`
}

type Sample struct {
	Inputs map[string]uint64
	Order  []string
	Obs    []string
	Ends   string
}

type Worker struct {
	run     *Run
	e       *Engine
	solver  *Solver
	globals []*any
	inited  map[int]int // pkg id -> 1 in progress, 2 done (shared packages)
}

type obsRec struct {
	label string
	val   any
	t     types.Type
}

type Path struct {
	capture  bool
	panicked bool // a simulated process has
	stdout   any  // what fmt.Print* wrote, when capture is on
	w        *Worker
	e        *Engine
	run      *Run
	ctx      *Ctx
	item     *workItem
	pos      int
	trail    []Dec
	pc       []*Term
	pcByVar  map[int][]int // var -> indexes into pc
	model    Model
	memo     map[int]uint64
	dom      map[int]*domain
	steps    int
	maxSteps int

	globals []*any
	inited  map[int]int

	gs        []*G
	cur       *G
	runq      []*G
	forceNext *G
	procs     []*Proc
	procMain  map[int]*G
	delays    int
	hostWG    sync.WaitGroup
	doneCh    chan struct{}
	ended     bool
	end       *pathEnd
	mutexes   map[*any]*mutexState
	wgs       map[*any]*wgState
	conds     map[*any]*condState
	syncMaps  map[*any]*Map

	nameCount  map[string]int
	obs        []obsRec
	covered    map[string]bool
	mapOrdN    int
	mapOrdV    int
	hashes     []hashRec
	ser        []any
	opaque     map[string]any
	schedTrace []string
	symDone    bool
	viol       bool
	initDepth  int
}

type hashRec struct {
	in  []any
	out string
}

// domain of an 8-bit (or smaller choice) variable under the unary constraints seen so far
type domain struct {
	bits  [4]uint64
	multi bool // also occurs in a constraint with other variables
}

func (d *domain) has(v uint64) bool { return d.bits[v>>6]>>(v&63)&1 != 0 }

func newPath(w *Worker, it *workItem) *Path {
	p := &Path{w: w, e: w.e, run: w.run, ctx: newCtx(), item: it, pcByVar: map[int][]int{}, model: Model{}, dom: map[int]*domain{},
		inited: map[int]int{}, procMain: map[int]*G{}, doneCh: make(chan struct{}, 1), mutexes: map[*any]*mutexState{}, wgs: map[*any]*wgState{},
		conds: map[*any]*condState{}, syncMaps: map[*any]*Map{}, nameCount: map[string]int{}, covered: map[string]bool{}, opaque: map[string]any{}, maxSteps: w.run.maxSteps, mapOrdV: -1}
	for k, v := range it.model {
		p.model[k] = v
	}
	p.memo = map[int]uint64{}
	p.procs = []*Proc{{id: 0}}
	return p
}

func (p *Path) where() string {
	if p.cur == nil || p.cur.top == nil {
		return "?"
	}
	var sb strings.Builder
	n := 0
	for f := p.cur.top; f != nil && n < 4; f = f.caller {
		if n > 0 {
			sb.WriteString(" < ")
		}
		sb.WriteString(f.fn.name)
		if f.pos != 0 {
			ps := p.e.prog.Fset.Position(f.pos)
			fmt.Fprintf(&sb, "(%s:%d)", ps.Filename[strings.LastIndexByte(ps.Filename, '/')+1:], ps.Line)
		}
		n++
	}
	return sb.String()
}

func (p *Path) panicString(g *goPanic) string {
	return p.showIface(g.val) + " at " + g.where
}

func (p *Path) showIface(v any) string {
	iv, ok := v.(Iface)
	if !ok {
		return fmt.Sprint(v)
	}
	if iv.t == nil {
		return "nil"
	}
	switch x := iv.v.(type) {
	case string:
		return x
	case *SStr:
		return p.evalStr(x)
	}
	defer func() { recover() }()
	if s, ok := p.tryErrorString(iv); ok {
		return s
	}
	return iv.t.String()
}

func (p *Path) evalTerm(t *Term) uint64 { return t.eval(p.model, p.memo) }

func (p *Path) evalStr(v any) string {
	switch v := v.(type) {
	case string:
		return v
	case *SStr:
		b := make([]byte, len(v.b))
		for i, x := range v.b {
			switch x := x.(type) {
			case uint64:
				b[i] = byte(x)
			case *Term:
				b[i] = byte(p.evalTerm(x))
			}
		}
		return string(b)
	}
	return fmt.Sprint(v)
}

// ---- variables ----

func (p *Path) newVar(name string, w int, lo, hi uint64, set *[4]uint64) *Term {
	n := p.nameCount[name]
	p.nameCount[name] = n + 1
	nm := name
	if n > 0 {
		nm = fmt.Sprintf("%s#%d", name, n)
	}
	v := p.ctx.Var(nm, w)
	def := lo
	if set != nil {
		for i := 0; i < 256; i++ {
			if set[i>>6]>>(uint(i)&63)&1 != 0 {
				def = uint64(i)
				break
			}
		}
	}
	if _, ok := p.model[v.vidx]; !ok {
		p.model[v.vidx] = def
	}
	if w == 8 {
		d := &domain{}
		if set != nil {
			d.bits = *set
		} else {
			for i := lo; i <= hi; i++ {
				d.bits[i>>6] |= 1 << (i & 63)
			}
		}
		p.dom[v.vidx] = d
	}
	return v
}

// ---- constraints ----

func (p *Path) addPC(c *Term) {
	if c == p.ctx.tTrue {
		return
	}
	if c.op == OAnd {
		p.addPC(c.a)
		p.addPC(c.b)
		return
	}
	i := len(p.pc)
	p.pc = append(p.pc, c)
	for _, v := range c.vars {
		p.pcByVar[v] = append(p.pcByVar[v], i)
	}
	if len(c.vars) == 1 {
		if d := p.dom[c.vars[0]]; d != nil {
			p.restrict(d, c)
		}
	} else {
		for _, v := range c.vars {
			if d := p.dom[v]; d != nil {
				d.multi = true
			}
		}
	}
}

func (p *Path) restrict(d *domain, c *Term) {
	vi := c.vars[0]
	m := Model{}
	for x := uint64(0); x < 256; x++ {
		if d.has(x) {
			m[vi] = x
			if c.eval(m, map[int]uint64{}) == 0 {
				d.bits[x>>6] &^= 1 << (x & 63)
			}
		}
	}
}

// domSplit evaluates a unary condition over its variable's whole domain.
func (p *Path) domSplit(c *Term) (canT, canF, known bool) {
	if len(c.vars) != 1 {
		return true, true, false
	}
	d := p.dom[c.vars[0]]
	if d == nil {
		return true, true, false
	}
	m := Model{}
	vi := c.vars[0]
	for x := uint64(0); x < 256; x++ {
		if d.has(x) {
			m[vi] = x
			if c.eval(m, map[int]uint64{}) != 0 {
				canT = true
			} else {
				canF = true
			}
			if canT && canF {
				break
			}
		}
	}
	return canT, canF, true
}

// slice collects the constraints connected to c through shared variables.
func (p *Path) slice(c *Term) []*Term {
	seenV := map[int]bool{}
	seenC := map[int]bool{}
	var work []int
	for _, v := range c.vars {
		seenV[v] = true
		work = append(work, v)
	}
	var idx []int
	for len(work) > 0 {
		v := work[len(work)-1]
		work = work[:len(work)-1]
		for _, ci := range p.pcByVar[v] {
			if seenC[ci] {
				continue
			}
			seenC[ci] = true
			idx = append(idx, ci)
			for _, u := range p.pc[ci].vars {
				if !seenV[u] {
					seenV[u] = true
					work = append(work, u)
				}
			}
		}
	}
	sort.Ints(idx)
	out := make([]*Term, 0, len(idx)+len(seenV)+1)
	// domains of the 8-bit variables (as declared)
	var vs []int
	for v := range seenV {
		vs = append(vs, v)
	}
	sort.Ints(vs)
	for _, v := range vs {
		if dc := p.domTerm(v); dc != nil {
			out = append(out, dc)
		}
	}
	for _, i := range idx {
		out = append(out, p.pc[i])
	}
	return append(out, c)
}

// domTerm states the current domain of a byte variable as a constraint.
func (p *Path) domTerm(v int) *Term {
	d := p.dom[v]
	if d == nil {
		return nil
	}
	x := p.ctx.vars[v]
	r := p.ctx.tFals
	for i := 0; i < 256; {
		if !d.has(uint64(i)) {
			i++
			continue
		}
		j := i
		for j+1 < 256 && d.has(uint64(j+1)) {
			j++
		}
		var t *Term
		if i == j {
			t = p.ctx.Eq(x, p.ctx.Const(uint64(i), 8))
		} else {
			t = p.ctx.tTrue
			if i > 0 {
				t = p.ctx.And(t, p.ctx.Cmp(OUle, p.ctx.Const(uint64(i), 8), x))
			}
			if j < 255 {
				t = p.ctx.And(t, p.ctx.Cmp(OUle, x, p.ctx.Const(uint64(j), 8)))
			}
		}
		r = p.ctx.Or(r, t)
		i = j + 1
	}
	return r
}

func (p *Path) sat(c *Term) (Sat, map[int]uint64) {
	if c == p.ctx.tFals {
		return Unsat, nil
	}
	return p.w.solver.check(p.slice(c))
}

func (p *Path) push(d Dec, upd map[int]uint64) {
	r := p.run
	pre := make([]Dec, len(p.trail)+1)
	copy(pre, p.trail)
	pre[len(p.trail)] = d
	m := make(map[int]uint64, len(p.model)+len(upd))
	for k, v := range p.model {
		m[k] = v
	}
	for k, v := range upd {
		m[k] = v
	}
	r.mu.Lock()
	r.queue = append(r.queue, &workItem{prefix: pre, model: m})
	r.mu.Unlock()
	r.cond.Signal()
}

func (p *Path) note(reason string) {
	p.run.mu.Lock()
	p.run.reduced[reason]++
	p.run.mu.Unlock()
}

// branch decides a symbolic condition, scheduling the other side when it is feasible.
func (p *Path) branch(c *Term) bool {
	if c.op == OConst {
		return c.c != 0
	}
	if p.initDepth > 0 {
		panic(unsupported("symbolic branch during package initialisation"))
	}
	if p.pos < len(p.item.prefix) {
		d := p.item.prefix[p.pos]
		p.pos++
		p.trail = append(p.trail, d)
		if !d.forced {
			if d.taken {
				p.addPC(c)
			} else {
				p.addPC(p.ctx.Not(c))
			}
		}
		return d.taken
	}
	s := p.evalTerm(c) != 0
	other := c
	if s {
		other = p.ctx.Not(c)
	}
	var feas bool
	var upd map[int]uint64
	canT, canF, known := p.domSplit(c)
	if known && s && !canF || known && !s && !canT {
		feas = false
	} else {
		r, m := p.sat(other)
		switch r {
		case SatYes:
			feas, upd = true, m
		case Unknown:
			p.note("solver answered unknown for a branch: that side was not explored")
		}
		if r == Unsat {
			feas = false
		}
		if r == Unknown {
			// keep this side's literal: its negation may be feasible
			p.pushDecision(Dec{taken: s}, c, s)
			return s
		}
	}
	if !feas {
		p.trail = append(p.trail, Dec{taken: s, forced: true})
		p.pos++
		return s
	}
	p.countFork()
	p.push(Dec{taken: !s}, upd)
	p.pushDecision(Dec{taken: s}, c, s)
	return s
}

func (p *Path) pushDecision(d Dec, c *Term, s bool) {
	p.trail = append(p.trail, d)
	p.pos++
	if s {
		p.addPC(c)
	} else {
		p.addPC(p.ctx.Not(c))
	}
}

func (p *Path) countFork() {
	if p.run.forkSites == nil {
		return
	}
	k := "?"
	if p.cur != nil && p.cur.top != nil {
		k = p.cur.top.fn.name
	}
	p.run.mu.Lock()
	p.run.forkSites[k]++
	p.run.mu.Unlock()
}

func (p *Path) cond(v any) bool {
	if b, ok := v.(bool); ok {
		return b
	}
	return p.branch(v.(*Term))
}

// concInt makes an integer concrete, exploring every feasible value.
func (p *Path) concInt(v any, w int) uint64 {
	t, ok := v.(*Term)
	if !ok {
		return v.(uint64)
	}
	for {
		var val uint64
		if p.pos < len(p.item.prefix) {
			d := p.item.prefix[p.pos]
			if !d.conc {
				// forced equalities are recorded through branch
				panic(&pathEnd{kind: "internal", msg: "replay divergence in concretisation"})
			}
			p.pos++
			p.trail = append(p.trail, d)
			eq := p.ctx.Eq(t, p.ctx.Const(d.val, t.w))
			if d.taken {
				if !d.forced {
					p.addPC(eq)
				}
				return d.val
			}
			p.addPC(p.ctx.Not(eq))
			continue
		}
		val = p.evalTerm(t)
		eq := p.ctx.Eq(t, p.ctx.Const(val, t.w))
		ne := p.ctx.Not(eq)
		if ne == p.ctx.tFals {
			p.trail = append(p.trail, Dec{taken: true, forced: true, conc: true, val: val})
			p.pos++
			return val
		}
		_, canF, known := p.domSplit(eq)
		var r Sat
		var m map[int]uint64
		if known && !canF {
			r = Unsat
		} else {
			r, m = p.sat(ne)
		}
		d := Dec{taken: true, conc: true, val: val}
		switch r {
		case SatYes:
			p.countFork()
			p.push(Dec{taken: false, conc: true, val: val}, m)
		case Unknown:
			p.note("solver answered unknown for a concretisation: other values were not explored")
		case Unsat:
			d.forced = true
		}
		p.trail = append(p.trail, d)
		p.pos++
		if !d.forced {
			p.addPC(eq)
		}
		return val
	}
}

// choose is a symbolic choice among n alternatives.
func (p *Path) choose(name string, n int) int {
	if n <= 1 {
		return 0
	}
	if p.initDepth > 0 {
		return 0
	}
	v := p.newVar(name, 8, 0, uint64(n-1), nil)
	return int(p.concInt(v, 8))
}

func (p *Path) assume(v any) {
	if b, ok := v.(bool); ok {
		if !b {
			panic(&pathEnd{kind: "assume"})
		}
		return
	}
	c := v.(*Term)
	if p.pos < len(p.item.prefix) {
		d := p.item.prefix[p.pos]
		p.pos++
		p.trail = append(p.trail, d)
		p.addPC(c)
		return
	}
	if p.evalTerm(c) == 0 {
		r, m := p.sat(c)
		switch r {
		case Unsat:
			panic(&pathEnd{kind: "assume"})
		case Unknown:
			p.note("solver answered unknown for an assumption: path dropped")
			panic(&pathEnd{kind: "assume"})
		}
		for k, x := range m {
			p.model[k] = x
		}
		p.memo = map[int]uint64{}
	}
	p.trail = append(p.trail, Dec{taken: true})
	p.pos++
	p.addPC(c)
}

func (p *Path) assert(v any, label string) {
	p.run.mu.Lock()
	p.run.asserts[label]++
	p.run.mu.Unlock()
	if b, ok := v.(bool); ok {
		if !b {
			p.violation("assert", label, "assertion fails", p.model)
			panic(&pathEnd{kind: "violated"})
		}
		return
	}
	c := v.(*Term)
	if p.pos < len(p.item.prefix) {
		// checked on the path this one was forked from
		d := p.item.prefix[p.pos]
		p.pos++
		p.trail = append(p.trail, d)
		if !d.forced {
			p.addPC(c)
		}
		return
	}
	neg := p.ctx.Not(c)
	r, m := p.sat(neg)
	switch r {
	case SatYes:
		mm := Model{}
		for k, x := range p.model {
			mm[k] = x
		}
		for k, x := range m {
			mm[k] = x
		}
		p.violation("assert", label, "assertion fails", mm)
		// go on where it holds
		if p.evalTerm(c) == 0 {
			r2, m2 := p.sat(c)
			if r2 != SatYes {
				panic(&pathEnd{kind: "violated"})
			}
			for k, x := range m2 {
				p.model[k] = x
			}
			p.memo = map[int]uint64{}
		}
		p.trail = append(p.trail, Dec{taken: true})
		p.pos++
		p.addPC(c)
		return
	case Unknown:
		p.note("solver answered unknown for assertion " + label)
	}
	p.trail = append(p.trail, Dec{taken: true, forced: true})
	p.pos++
}

func (p *Path) inputs(m Model) (map[string]uint64, []string) {
	in := map[string]uint64{}
	var order []string
	for _, v := range p.ctx.vars {
		in[v.name] = m[v.vidx] & maskWB(v.w)
		order = append(order, v.name)
	}
	return in, order
}

func (p *Path) violation(kind, label, msg string, m Model) {
	in, order := p.inputs(m)
	p.viol = true
	r := p.run
	r.mu.Lock()
	defer r.mu.Unlock()
	key := kind + "|" + label
	if kind == "panic" {
		key += "|" + msg
	}
	r.violKeys[key]++
	if r.violKeys[key] > r.maxViol {
		return
	}
	r.viols = append(r.viols, &Violation{Harness: r.harness.ssa.Name(), Label: label, Kind: kind, Msg: msg, Inputs: in, Order: order, Obs: p.schedTrace, Panicked: p.panicked})
}

func (p *Path) recordPanic(g *goPanic) {
	p.violation("panic", "no-panic", p.panicString(g), p.model)
}

func (p *Path) recordDeadlock() {
	msg := ""
	for _, g := range p.gs {
		if !g.done {
			msg += fmt.Sprintf("goroutine %d blocked on %s; ", g.id, g.why)
		}
	}
	p.violation("deadlock", "no-deadlock", msg, p.model)
}

func (p *Path) mapOrder() int {
	if p.mapOrdN <= 1 {
		return 0
	}
	if p.mapOrdV < 0 {
		p.mapOrdV = p.choose("maporder", p.mapOrdN)
	}
	return p.mapOrdV
}

// ---- globals ----

func (p *Path) globalAddr(g *GlobalRef, fr *Frame) *any {
	if g.info.perPath {
		if p.inited[g.info.id] == 0 {
			p.initPkg(g.info, fr)
		}
		for len(p.globals) <= g.id {
			p.globals = append(p.globals, nil)
		}
		a := p.globals[g.id]
		if a == nil {
			a = new(any)
			*a = zeroVal(g.et)
			p.globals[g.id] = a
		}
		return a
	}
	w := p.w
	if w.inited[g.info.id] == 0 {
		p.initPkg(g.info, fr)
	}
	for len(w.globals) <= g.id {
		w.globals = append(w.globals, nil)
	}
	a := w.globals[g.id]
	if a == nil {
		a = new(any)
		*a = zeroVal(g.et)
		w.globals[g.id] = a
	}
	return a
}

// initPkg runs the variable initialisers of a package the first time one of its globals is touched.
// Initialisers of imported packages run when their own globals are touched.
func (p *Path) initPkg(pi *PkgInfo, fr *Frame) {
	mark := p.inited
	if !pi.perPath {
		mark = p.w.inited
	}
	mark[pi.id] = 1
	defer func() { mark[pi.id] = 2 }()
	init := pi.pkg.Func("init")
	if init == nil || init.Blocks == nil || pi.pkg.Pkg.Path() == "runtime" {
		return
	}
	if !pi.perPath {
		p.initDepth++
		defer func() { p.initDepth-- }()
	}
	saved := p.steps
	if !pi.perPath {
		defer func() { p.steps = saved }()
	}
	fn := p.e.initFn(pi, init)
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case *unsupportedErr:
				p.note("package initialiser of " + pi.pkg.Pkg.Path() + " only partly encoded: " + x.msg)
				return
			case *goPanic:
				p.note("package initialiser of " + pi.pkg.Pkg.Path() + " panicked in the encoding: " + p.panicString(x))
				return
			}
			panic(r)
		}
	}()
	fr.g.callBody(fr, nil, fn, nil, nil)
}

// initFn is the package's init function with the calls to other packages' initialisers (and, for command
// wiring packages, to explicit init functions) replaced by no-ops.
func (e *Engine) initFn(pi *PkgInfo, init *ssa.Function) *Fn {
	skipUser := strings.HasSuffix(pi.pkg.Pkg.Path(), "/pkgr/cmd")
	for _, b := range init.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			f, ok := c.Call.Value.(*ssa.Function)
			if !ok || len(c.Call.Args) != 0 || f.Signature.Results().Len() != 0 {
				continue
			}
			if f.Name() == "init" && f.Pkg != pi.pkg || skipUser && strings.HasPrefix(f.Name(), "init#") {
				x, own := e.fn(f), f.Pkg == pi.pkg
				x.intr = func(fr *Frame, args []any) any {
					if own && fr.p.w.run.cmdInit {
						fr.g.callBody(fr, nil, x, nil, nil)
					}
					return nil
				}
			}
		}
	}
	// the package's own init is run through callBody, which ignores x.intr
	return e.fn(init)
}

// ---- running one path ----

func (w *Worker) runPath(it *workItem) {
	p := newPath(w, it)
	g := p.newG(p.procs[0])
	p.startG(g, func() {
		f0 := &Frame{g: g, p: p, fn: w.run.harness}
		g.callBody(f0, nil, w.run.harness, nil, nil)
	})
	p.cur = g
	g.wake <- true
	<-p.doneCh
	p.killAll()
	p.hostWG.Wait()
	r := w.run
	r.mu.Lock()
	defer r.mu.Unlock()
	r.paths++
	r.steps += int64(p.steps)
	r.decisions += int64(len(p.trail) - len(it.prefix) + 1)
	if len(p.trail) > r.maxTrail {
		r.maxTrail = len(p.trail)
	}
	if len(p.gs) > r.nGoroutines {
		r.nGoroutines = len(p.gs)
	}
	k := p.end.kind
	r.ends[k]++
	switch k {
	case "unsupported", "internal", "steps":
		msg := k + ": " + p.end.msg
		if k == "steps" {
			msg = "step limit reached on a path"
		}
		r.reduced[msg]++
	case "done":
		for c := range p.covered {
			r.covers[c]++
		}
		if !p.viol && (len(r.samples) < 40 || r.paths%17 == 0 && len(r.samples) < 400) {
			in, order := p.inputs(p.model)
			r.samples = append(r.samples, &Sample{Inputs: in, Order: order, Obs: p.renderObs()})
		}
	}
}

func (r *Run) explore(nw int) {
	r.cond = sync.NewCond(&r.mu)
	r.queue = []*workItem{{model: map[int]uint64{}}}
	var wg sync.WaitGroup
	tick := time.NewTicker(200 * time.Millisecond)
	fin := make(chan struct{})
	go func() {
		for {
			select {
			case <-fin:
				return
			case <-tick.C:
				r.mu.Lock()
				if time.Now().After(r.deadline) {
					r.stop = true
				}
				r.mu.Unlock()
				r.cond.Broadcast()
			}
		}
	}()
	for i := 0; i < nw; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			w := &Worker{run: r, e: r.e, solver: newSolver(r.shared, "z3", "-in"), inited: map[int]int{}}
			defer w.solver.stop()
			for {
				r.mu.Lock()
				for len(r.queue) == 0 && r.active > 0 && !r.stop {
					r.cond.Wait()
				}
				if r.stop || len(r.queue) == 0 || (r.maxPaths > 0 && r.paths >= int64(r.maxPaths)) {
					r.mu.Unlock()
					r.cond.Broadcast()
					return
				}
				it := r.queue[len(r.queue)-1]
				r.queue = r.queue[:len(r.queue)-1]
				r.active++
				r.mu.Unlock()
				w.runPath(it)
				r.mu.Lock()
				r.active--
				if len(r.viols) >= 12 {
					r.stop = true
				}
				r.mu.Unlock()
				r.cond.Broadcast()
			}
		}()
	}
	wg.Wait()
	close(fin)
	tick.Stop()
	r.unexplored = int64(len(r.queue))
	if r.unexplored > 0 {
		why := "time limit"
		if len(r.viols) >= 12 {
			why = "stopped after violations"
		} else if r.maxPaths > 0 && r.paths >= int64(r.maxPaths) {
			why = "path limit"
		}
		r.reduced[fmt.Sprintf("%s: at least %d path prefixes left unexplored", why, r.unexplored)]++
	}
	runtime.GC()
}
