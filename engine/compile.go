package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"
	"sync"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// Engine is the loaded program with its compiled functions; shared by all workers.
type Engine struct {
	prog     *ssa.Program
	pkgs     map[string]*ssa.Package
	mu       sync.Mutex
	fns      map[*ssa.Function]*Fn
	gmu      sync.Mutex
	gids     map[*ssa.Global]*GlobalRef
	pkgInfo  map[*ssa.Package]*PkgInfo
	canonMu  sync.Mutex
	canonMap typeutil.Map
	rtypes   sync.Map // canonical types.Type -> *RType
	implMu   sync.Mutex
	impl     map[[2]types.Type]bool
	methMu   sync.RWMutex
	meth     map[methKey]*Fn
	rtErrT   types.Type
	perPath  func(path string) bool // packages whose globals are re-initialised on every path
	covered  sync.Map               // *Fn of pkgr code executed
	modPath  string
}

type methKey struct {
	t    types.Type
	name string
	pkg  *types.Package
}

type PkgInfo struct {
	id      int
	pkg     *ssa.Package
	perPath bool
}

type GlobalRef struct {
	g    *ssa.Global
	id   int
	info *PkgInfo
	et   types.Type
}

type Fn struct {
	e       *Engine
	ssa     *ssa.Function
	name    string
	once    sync.Once
	ready   atomic.Bool
	blocks  []*block
	nregs   int
	nparams int
	nfree   int
	hasDef  bool
	recover int // block index or -1
	results *types.Tuple
	intr    Intrinsic // may be nil
	isPkgr  bool
	hit     atomic.Bool
}

type Intrinsic func(fr *Frame, args []any) any

type notHandledT struct{}

var notHandled any = notHandledT{}

type instr func(fr *Frame)

type phi struct {
	dst int
	ops []opnd
}

type block struct {
	phis  []phi
	ins   []instr
	term  func(fr *Frame) int // next block index or -1 (return); sets fr.pred
	cost  int
	index int
}

type opnd struct {
	i int // >=0 register, -1 constant, -2 global, -3 freevar (index in k)
	k int
	c any
}

type Frame struct {
	g         *G
	p         *Path
	fn        *Fn
	regs      []any
	env       []any
	pred      int
	defers    []deferred
	result    any
	panicking *goPanic
	recovered bool
	deferOf   *Frame // frame whose deferred call this is
	caller    *Frame
	pos       token.Pos
}

type deferred struct {
	fn   *Closure
	bi   *ssa.Builtin
	args []any
	pos  token.Pos
}

type goPanic struct {
	val   any // Iface
	where string
	exit  bool
}

func (fr *Frame) get(o *opnd) any {
	switch o.i {
	case -1:
		return o.c
	case -2:
		return fr.p.globalAddr(o.c.(*GlobalRef), fr)
	case -3:
		return fr.env[o.k]
	}
	return fr.regs[o.i]
}

func newEngine(prog *ssa.Program) *Engine {
	e := &Engine{prog: prog, pkgs: map[string]*ssa.Package{}, fns: map[*ssa.Function]*Fn{}, gids: map[*ssa.Global]*GlobalRef{},
		pkgInfo: map[*ssa.Package]*PkgInfo{}, impl: map[[2]types.Type]bool{}, meth: map[methKey]*Fn{}}
	for _, p := range prog.AllPackages() {
		e.pkgs[p.Pkg.Path()] = p
	}
	if rp := e.pkgs["runtime"]; rp != nil {
		if tn, ok := rp.Members["plainError"].(*ssa.Type); ok {
			e.rtErrT = e.canon(tn.Type())
		}
	}
	return e
}

func (e *Engine) canon(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	e.canonMu.Lock()
	defer e.canonMu.Unlock()
	t = types.Unalias(t)
	if c := e.canonMap.At(t); c != nil {
		return c.(types.Type)
	}
	e.canonMap.Set(t, t)
	return t
}

func (e *Engine) implements(t types.Type, it types.Type) bool {
	k := [2]types.Type{t, it}
	e.implMu.Lock()
	defer e.implMu.Unlock()
	if r, ok := e.impl[k]; ok {
		return r
	}
	r := types.Implements(t, it.Underlying().(*types.Interface))
	e.impl[k] = r
	return r
}

func (e *Engine) fn(f *ssa.Function) *Fn {
	e.mu.Lock()
	defer e.mu.Unlock()
	if x := e.fns[f]; x != nil {
		return x
	}
	x := &Fn{e: e, ssa: f, name: f.String(), nparams: len(f.Params), nfree: len(f.FreeVars), recover: -1, results: f.Signature.Results()}
	nm := x.name
	if o := f.Origin(); o != nil {
		nm = o.String()
	}
	if in, ok := intrinsics[nm]; ok {
		x.intr = in
	}
	pkg := f.Pkg
	if pkg == nil && f.Origin() != nil {
		pkg = f.Origin().Pkg
	}
	if pkg == nil {
		if o := f.Object(); o != nil && o.Pkg() != nil {
			pkg = e.prog.Package(o.Pkg())
		}
	}
	if pkg != nil && e.modPath != "" && strings.HasPrefix(pkg.Pkg.Path(), e.modPath) && !strings.Contains(pkg.Pkg.Path(), "/verifsym") {
		x.isPkgr = !strings.HasPrefix(f.Name(), "Verif_") && !strings.HasPrefix(f.Name(), "verif") && !(f.Parent() != nil && rootIsVerif(f))
		if x.isPkgr {
			if p := e.prog.Fset.Position(f.Pos()); strings.Contains(p.Filename, "zz_verif_") {
				x.isPkgr = false
			}
		}
	}
	if x.intr == nil && pkg != nil {
		if pi := pkgIntrinsic(pkg.Pkg.Path(), nm, f); pi != nil {
			x.intr = pi
		}
	}
	e.fns[f] = x
	return x
}

func rootIsVerif(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	return strings.HasPrefix(f.Name(), "Verif_") || strings.HasPrefix(f.Name(), "verif")
}

func (e *Engine) global(g *ssa.Global) *GlobalRef {
	e.gmu.Lock()
	defer e.gmu.Unlock()
	if r := e.gids[g]; r != nil {
		return r
	}
	pi := e.pkgInfo[g.Pkg]
	if pi == nil {
		pi = &PkgInfo{id: len(e.pkgInfo), pkg: g.Pkg, perPath: e.perPath(g.Pkg.Pkg.Path())}
		e.pkgInfo[g.Pkg] = pi
	}
	r := &GlobalRef{g: g, id: len(e.gids), info: pi, et: deref(g.Type())}
	e.gids[g] = r
	return r
}

func (e *Engine) method(t types.Type, m *types.Func) *Fn {
	k := methKey{t: t, name: m.Name()}
	if !m.Exported() {
		k.pkg = m.Pkg()
	}
	e.methMu.RLock()
	f := e.meth[k]
	e.methMu.RUnlock()
	if f != nil {
		return f
	}
	sf := e.prog.LookupMethod(t, m.Pkg(), m.Name())
	if sf == nil {
		return nil
	}
	f = e.fn(sf)
	e.methMu.Lock()
	e.meth[k] = f
	e.methMu.Unlock()
	return f
}

func (e *Engine) methodByName(t types.Type, pkg *types.Package, name string) *Fn {
	ms := e.prog.MethodSets.MethodSet(t)
	sel := ms.Lookup(pkg, name)
	if sel == nil {
		return nil
	}
	sf := e.prog.MethodValue(sel)
	if sf == nil {
		return nil
	}
	return e.fn(sf)
}

// ---- compilation of one function ----

type fcomp struct {
	e     *Engine
	f     *ssa.Function
	fn    *Fn
	slots map[ssa.Value]int
	free  map[ssa.Value]int
}

func (fn *Fn) compile() {
	fn.once.Do(func() {
		f := fn.ssa
		if f.Blocks == nil {
			fn.ready.Store(true)
			return
		}
		c := &fcomp{e: fn.e, f: f, fn: fn, slots: map[ssa.Value]int{}, free: map[ssa.Value]int{}}
		n := 0
		for _, p := range f.Params {
			c.slots[p] = n
			n++
		}
		for i, v := range f.FreeVars {
			c.free[v] = i
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if v, ok := in.(ssa.Value); ok {
					c.slots[v] = n
					n++
				}
				if _, ok := in.(*ssa.Defer); ok {
					fn.hasDef = true
				}
			}
		}
		fn.nregs = n
		if f.Recover != nil {
			fn.recover = f.Recover.Index
		}
		for _, b := range f.Blocks {
			fn.blocks = append(fn.blocks, c.block(b))
		}
		fn.ready.Store(true)
	})
}

func (c *fcomp) op(v ssa.Value) *opnd {
	switch v := v.(type) {
	case nil:
		return nil
	case *ssa.Const:
		return &opnd{i: -1, c: c.constVal(v)}
	case *ssa.Global:
		return &opnd{i: -2, c: c.e.global(v)}
	case *ssa.Function:
		return &opnd{i: -1, c: &Closure{fn: c.e.fn(v)}}
	case *ssa.FreeVar:
		return &opnd{i: -3, k: c.free[v]}
	case *ssa.Builtin:
		return &opnd{i: -1, c: v}
	}
	s, ok := c.slots[v]
	if !ok {
		panic(fmt.Sprintf("no slot for %s in %s", v.Name(), c.f))
	}
	return &opnd{i: s}
}

func (c *fcomp) ops(vs []ssa.Value) []*opnd {
	r := make([]*opnd, len(vs))
	for i, v := range vs {
		r[i] = c.op(v)
	}
	return r
}

func (c *fcomp) constVal(k *ssa.Const) any {
	if k.Value == nil {
		return zeroVal(k.Type())
	}
	t := k.Type()
	if b, ok := t.Underlying().(*types.Basic); ok {
		info := b.Info()
		switch {
		case info&types.IsBoolean != 0:
			return constant.BoolVal(k.Value)
		case info&types.IsString != 0:
			if k.Value.Kind() == constant.String {
				return constant.StringVal(k.Value)
			}
			return string(rune(k.Int64()))
		case info&types.IsInteger != 0:
			w, signed, _ := intInfo(t)
			if signed {
				return uint64(k.Int64()) & maskW(w)
			}
			return k.Uint64() & maskW(w)
		case info&types.IsFloat != 0:
			return k.Float64()
		case info&types.IsComplex != 0:
			return k.Complex128()
		}
		if b.Kind() == types.UnsafePointer {
			return UPtr{}
		}
	}
	panic(unsupported("constant " + k.String()))
}

func (c *fcomp) block(b *ssa.BasicBlock) *block {
	r := &block{index: b.Index, cost: len(b.Instrs)}
	for _, in := range b.Instrs {
		switch in := in.(type) {
		case *ssa.Phi:
			ph := phi{dst: c.slots[in]}
			for _, e := range in.Edges {
				ph.ops = append(ph.ops, *c.op(e))
			}
			r.phis = append(r.phis, ph)
		case *ssa.Jump:
			to := b.Succs[0]
			pi := predIndex(b, to, 0)
			ti := to.Index
			r.term = func(fr *Frame) int { fr.pred = pi; return ti }
		case *ssa.If:
			cond := c.op(in.Cond)
			t, f := b.Succs[0], b.Succs[1]
			tp := predIndex(b, t, 0)
			fp := predIndex(b, f, 0)
			if t == f {
				fp = predIndex(b, f, 1)
			}
			ti, fi := t.Index, f.Index
			pos := in.Cond.Pos()
			r.term = func(fr *Frame) int {
				v := fr.get(cond)
				var s bool
				if bv, ok := v.(bool); ok {
					s = bv
				} else {
					fr.pos = pos
					s = fr.p.branch(v.(*Term))
				}
				if s {
					fr.pred = tp
					return ti
				}
				fr.pred = fp
				return fi
			}
		case *ssa.Return:
			switch len(in.Results) {
			case 0:
				r.term = func(fr *Frame) int { return -1 }
			case 1:
				o := c.op(in.Results[0])
				r.term = func(fr *Frame) int { fr.result = fr.get(o); return -1 }
			default:
				os := c.ops(in.Results)
				r.term = func(fr *Frame) int {
					t := make(Tuple, len(os))
					for i, o := range os {
						t[i] = fr.get(o)
					}
					fr.result = t
					return -1
				}
			}
		case *ssa.Panic:
			o := c.op(in.X)
			pos := in.Pos()
			r.term = func(fr *Frame) int {
				if iv, ok := fr.get(o).(Iface); ok {
					if s, ok := iv.v.(string); ok && strings.HasPrefix(s, stubMark) {
						panic(unsupported(s[len(stubMark):]))
					}
				}
				panic(&goPanic{val: fr.get(o), where: fr.p.e.posStr(pos)})
			}
		case *ssa.DebugRef:
		default:
			r.ins = append(r.ins, c.instr(in))
		}
	}
	return r
}

func (e *Engine) posStr(p token.Pos) string {
	if p == token.NoPos {
		return "?"
	}
	ps := e.prog.Fset.Position(p)
	return fmt.Sprintf("%s:%d", ps.Filename, ps.Line)
}

func predIndex(from, to *ssa.BasicBlock, k int) int {
	for i, p := range to.Preds {
		if p == from {
			if k == 0 {
				return i
			}
			k--
		}
	}
	panic("predIndex")
}

func (c *fcomp) instr(in ssa.Instruction) instr {
	switch in := in.(type) {
	case *ssa.Alloc:
		dst := c.slots[in]
		t := deref(in.Type())
		if isAgg(t) {
			return func(fr *Frame) {
				p := new(any)
				*p = zeroVal(t)
				fr.regs[dst] = p
			}
		}
		z := zeroVal(t)
		return func(fr *Frame) {
			p := new(any)
			*p = z
			fr.regs[dst] = p
		}
	case *ssa.Store:
		a, v := c.op(in.Addr), c.op(in.Val)
		pos := in.Pos()
		if isAgg(in.Val.Type()) {
			return func(fr *Frame) {
				p := fr.get(a).(*any)
				if p == nil {
					fr.nilDeref(pos)
				}
				storeVal(p, fr.get(v))
			}
		}
		return func(fr *Frame) {
			p := fr.get(a).(*any)
			if p == nil {
				fr.nilDeref(pos)
			}
			*p = fr.get(v)
		}
	case *ssa.UnOp:
		return c.unop(in)
	case *ssa.BinOp:
		dst := c.slots[in]
		x, y := c.op(in.X), c.op(in.Y)
		f := c.binop(in)
		return func(fr *Frame) { fr.regs[dst] = f(fr, fr.get(x), fr.get(y)) }
	case *ssa.Call:
		dst := c.slots[in]
		call := c.call(&in.Call, in.Pos())
		return func(fr *Frame) { fr.regs[dst] = call(fr) }
	case *ssa.Defer:
		prep := c.prepCall(&in.Call)
		pos := in.Pos()
		return func(fr *Frame) {
			fn, bi, args := prep(fr)
			fr.defers = append(fr.defers, deferred{fn, bi, args, pos})
		}
	case *ssa.RunDefers:
		return func(fr *Frame) { fr.runDefers() }
	case *ssa.Go:
		prep := c.prepCall(&in.Call)
		return func(fr *Frame) {
			fn, bi, args := prep(fr)
			fr.p.spawn(fr, fn, bi, args)
		}
	case *ssa.ChangeType, *ssa.ChangeInterface:
		dst := c.slots[in.(ssa.Value)]
		var x *opnd
		if ct, ok := in.(*ssa.ChangeType); ok {
			x = c.op(ct.X)
		} else {
			x = c.op(in.(*ssa.ChangeInterface).X)
		}
		return func(fr *Frame) { fr.regs[dst] = fr.get(x) }
	case *ssa.Convert:
		dst := c.slots[in]
		x := c.op(in.X)
		f := c.convert(in.X.Type(), in.Type())
		return func(fr *Frame) { fr.regs[dst] = f(fr, fr.get(x)) }
	case *ssa.MultiConvert:
		return func(fr *Frame) { panic(unsupported("multiconvert")) }
	case *ssa.SliceToArrayPointer:
		dst := c.slots[in]
		x := c.op(in.X)
		n := int(deref(in.Type()).Underlying().(*types.Array).Len())
		return func(fr *Frame) {
			s := fr.get(x).(Slice)
			if len(s) < n {
				fr.p.rtPanic("runtime error: cannot convert slice to array pointer")
			}
			if s == nil {
				fr.regs[dst] = nilPtr
				return
			}
			p := new(any)
			*p = Array(s[:n:n])
			fr.regs[dst] = p
		}
	case *ssa.MakeInterface:
		dst := c.slots[in]
		x := c.op(in.X)
		t := c.e.canon(in.X.Type())
		return func(fr *Frame) { fr.regs[dst] = Iface{t, fr.get(x)} }
	case *ssa.Extract:
		dst := c.slots[in]
		x := c.op(in.Tuple)
		i := in.Index
		return func(fr *Frame) { fr.regs[dst] = fr.get(x).(Tuple)[i] }
	case *ssa.Slice:
		return c.slice(in)
	case *ssa.FieldAddr:
		dst := c.slots[in]
		x := c.op(in.X)
		i := in.Field
		pos := in.Pos()
		return func(fr *Frame) {
			p := fr.get(x).(*any)
			if p == nil {
				fr.nilDeref(pos)
			}
			s, ok := (*p).(Struct)
			if !ok {
				panic(unsupported(fmt.Sprintf("field address of %T in %s", *p, fr.fn.name)))
			}
			fr.regs[dst] = &s[i]
		}
	case *ssa.Field:
		dst := c.slots[in]
		x := c.op(in.X)
		i := in.Field
		return func(fr *Frame) { fr.regs[dst] = fr.get(x).(Struct)[i] }
	case *ssa.IndexAddr:
		return c.indexAddr(in)
	case *ssa.Index:
		return c.index(in)
	case *ssa.Lookup:
		dst := c.slots[in]
		m, k := c.op(in.X), c.op(in.Index)
		if _, isMap := in.X.Type().Underlying().(*types.Map); !isMap {
			pos := in.Pos()
			return func(fr *Frame) {
				s := fr.get(m)
				fr.regs[dst] = fr.strIndex(s, fr.get(k), pos)
			}
		}
		et := in.X.Type().Underlying().(*types.Map).Elem()
		commaOk := in.CommaOk
		z := zeroVal(et)
		return func(fr *Frame) {
			mm := fr.get(m).(*Map)
			i := fr.p.mapFind(mm, fr.get(k))
			var v any
			if i >= 0 {
				v = mm.vals[i]
			} else {
				v = z
			}
			if commaOk {
				fr.regs[dst] = Tuple{v, i >= 0}
			} else {
				fr.regs[dst] = v
			}
		}
	case *ssa.MapUpdate:
		m, k, v := c.op(in.Map), c.op(in.Key), c.op(in.Value)
		return func(fr *Frame) { fr.p.mapSet(fr.get(m).(*Map), fr.get(k), fr.get(v)) }
	case *ssa.MakeMap:
		dst := c.slots[in]
		mt := in.Type().Underlying().(*types.Map)
		return func(fr *Frame) { fr.regs[dst] = newMap(mt) }
	case *ssa.MakeChan:
		dst := c.slots[in]
		sz := c.op(in.Size)
		return func(fr *Frame) {
			n := int(int64(fr.p.concInt(fr.get(sz), 64)))
			if n < 0 {
				fr.p.rtPanic("makechan: size out of range")
			}
			fr.regs[dst] = &Chan{cap: n}
		}
	case *ssa.MakeSlice:
		dst := c.slots[in]
		l, cp := c.op(in.Len), c.op(in.Cap)
		et := in.Type().Underlying().(*types.Slice).Elem()
		agg := isAgg(et)
		return func(fr *Frame) {
			n := int64(fr.p.concInt(fr.get(l), 64))
			m := int64(fr.p.concInt(fr.get(cp), 64))
			if n < 0 || n > 1<<26 {
				fr.p.rtPanic("runtime error: makeslice: len out of range")
			}
			if m < n || m > 1<<26 {
				fr.p.rtPanic("runtime error: makeslice: cap out of range")
			}
			s := make(Slice, m)
			if agg {
				for i := range s {
					s[i] = zeroVal(et)
				}
			} else {
				z := zeroVal(et)
				for i := range s {
					s[i] = z
				}
			}
			fr.regs[dst] = s[:n]
		}
	case *ssa.MakeClosure:
		dst := c.slots[in]
		fn := c.e.fn(in.Fn.(*ssa.Function))
		bs := c.ops(in.Bindings)
		return func(fr *Frame) {
			env := make([]any, len(bs))
			for i, b := range bs {
				env[i] = fr.get(b)
			}
			fr.regs[dst] = &Closure{fn: fn, env: env}
		}
	case *ssa.Range:
		dst := c.slots[in]
		x := c.op(in.X)
		if _, ok := in.X.Type().Underlying().(*types.Map); ok {
			return func(fr *Frame) { fr.regs[dst] = fr.p.newMapIter(fr.get(x).(*Map)) }
		}
		return func(fr *Frame) { fr.regs[dst] = &strIter{s: fr.get(x)} }
	case *ssa.Next:
		dst := c.slots[in]
		x := c.op(in.Iter)
		if in.IsString {
			return func(fr *Frame) {
				it := fr.get(x).(*strIter)
				if it.pos >= strLen(it.s) {
					fr.regs[dst] = Tuple{false, uint64(0), uint64(0)}
					return
				}
				at := it.pos
				r, n := fr.p.decodeRune(it.s, at)
				it.pos += n
				fr.regs[dst] = Tuple{true, uint64(at), r}
			}
		}
		tt := in.Type().(*types.Tuple)
		var zk, zv any
		if b, ok := tt.At(1).Type().(*types.Basic); !ok || b.Kind() != types.Invalid {
			zk = zeroVal(tt.At(1).Type())
		}
		if b, ok := tt.At(2).Type().(*types.Basic); !ok || b.Kind() != types.Invalid {
			zv = zeroVal(tt.At(2).Type())
		}
		return func(fr *Frame) {
			it := fr.get(x).(*mapIter)
			k, v, ok := it.next()
			if !ok {
				fr.regs[dst] = Tuple{false, zk, zv}
				return
			}
			fr.regs[dst] = Tuple{true, k, v}
		}
	case *ssa.TypeAssert:
		return c.typeAssert(in)
	case *ssa.Send:
		ch, v := c.op(in.Chan), c.op(in.X)
		return func(fr *Frame) { fr.p.chanSend(fr, fr.get(ch).(*Chan), fr.get(v)) }
	case *ssa.Select:
		return c.selectStmt(in)
	}
	return func(fr *Frame) { panic(unsupported(fmt.Sprintf("instruction %T", in))) }
}

func (fr *Frame) nilDeref(pos token.Pos) {
	fr.pos = pos
	fr.p.rtPanicAt("runtime error: invalid memory address or nil pointer dereference", fr.fn.e.posStr(pos)+" in "+fr.fn.name)
}

func (c *fcomp) unop(in *ssa.UnOp) instr {
	dst := c.slots[in]
	x := c.op(in.X)
	t := in.X.Type()
	switch in.Op {
	case token.MUL:
		pos := in.Pos()
		if g, ok := in.X.(*ssa.Global); ok {
			gr := c.e.global(g)
			agg := isAgg(gr.et)
			return func(fr *Frame) {
				v := *fr.p.globalAddr(gr, fr)
				if agg {
					v = copyVal(v)
				}
				fr.regs[dst] = v
			}
		}
		if isAgg(deref(t)) {
			return func(fr *Frame) {
				p, ok := fr.get(x).(*any)
				if !ok {
					panic(unsupported(fmt.Sprintf("load through %T in %s", fr.get(x), fr.fn.name)))
				}
				if p == nil {
					fr.nilDeref(pos)
				}
				fr.regs[dst] = copyVal(*p)
			}
		}
		return func(fr *Frame) {
			p, ok := fr.get(x).(*any)
			if !ok {
				if se, ok := fr.get(x).(*symElem); ok {
					fr.regs[dst] = fr.p.tableLoad(se)
					return
				}
				panic(unsupported(fmt.Sprintf("load through %T in %s", fr.get(x), fr.fn.name)))
			}
			if p == nil {
				fr.nilDeref(pos)
			}
			fr.regs[dst] = *p
		}
	case token.NOT:
		return func(fr *Frame) { fr.regs[dst] = fr.p.not(fr.get(x)) }
	case token.SUB:
		if w, _, ok := intInfo(t); ok {
			return func(fr *Frame) {
				switch v := fr.get(x).(type) {
				case uint64:
					fr.regs[dst] = (-v) & maskW(w)
				case *Term:
					fr.regs[dst] = fr.p.unterm(fr.p.ctx.Neg(v))
				}
			}
		}
		return func(fr *Frame) {
			switch v := fr.get(x).(type) {
			case float64:
				fr.regs[dst] = -v
			case complex128:
				fr.regs[dst] = -v
			}
		}
	case token.XOR:
		w, _, _ := intInfo(t)
		return func(fr *Frame) {
			switch v := fr.get(x).(type) {
			case uint64:
				fr.regs[dst] = (^v) & maskW(w)
			case *Term:
				fr.regs[dst] = fr.p.unterm(fr.p.ctx.BNot(v))
			}
		}
	case token.ARROW:
		commaOk := in.CommaOk
		et := t.Underlying().(*types.Chan).Elem()
		z := zeroVal(et)
		return func(fr *Frame) {
			v, ok := fr.p.chanRecv(fr, fr.get(x).(*Chan))
			if !ok {
				v = z
			}
			if commaOk {
				fr.regs[dst] = Tuple{v, ok}
			} else {
				fr.regs[dst] = v
			}
		}
	}
	return func(fr *Frame) { panic(unsupported("unop " + in.Op.String())) }
}

func (c *fcomp) binop(in *ssa.BinOp) func(fr *Frame, a, b any) any {
	t := in.X.Type()
	pos := in.Pos()
	switch in.Op {
	case token.EQL:
		return func(fr *Frame, a, b any) any { return fr.p.equals(t, a, b) }
	case token.NEQ:
		return func(fr *Frame, a, b any) any { return fr.p.not(fr.p.equals(t, a, b)) }
	}
	if w, signed, ok := intInfo(t); ok {
		if in.Op == token.SHL || in.Op == token.SHR {
			yw, ysigned, _ := intInfo(in.Y.Type())
			return shiftOp(in.Op, w, signed, yw, ysigned)
		}
		return intOp(in.Op, w, signed, c.e, pos)
	}
	b, ok := t.Underlying().(*types.Basic)
	if ok {
		info := b.Info()
		switch {
		case info&types.IsString != 0:
			switch in.Op {
			case token.ADD:
				return func(fr *Frame, a, b any) any { return strCat(a, b) }
			case token.LSS:
				return func(fr *Frame, a, b any) any { return fr.p.strLess(a, b) }
			case token.GTR:
				return func(fr *Frame, a, b any) any { return fr.p.strLess(b, a) }
			case token.LEQ:
				return func(fr *Frame, a, b any) any { return fr.p.not(fr.p.strLess(b, a)) }
			case token.GEQ:
				return func(fr *Frame, a, b any) any { return fr.p.not(fr.p.strLess(a, b)) }
			}
		case info&types.IsFloat != 0:
			f32 := b.Kind() == types.Float32
			rd := func(x float64) any {
				if f32 {
					return float64(float32(x))
				}
				return x
			}
			switch in.Op {
			case token.ADD:
				return func(fr *Frame, a, b any) any { return rd(a.(float64) + b.(float64)) }
			case token.SUB:
				return func(fr *Frame, a, b any) any { return rd(a.(float64) - b.(float64)) }
			case token.MUL:
				return func(fr *Frame, a, b any) any { return rd(a.(float64) * b.(float64)) }
			case token.QUO:
				return func(fr *Frame, a, b any) any { return rd(a.(float64) / b.(float64)) }
			case token.LSS:
				return func(fr *Frame, a, b any) any { return a.(float64) < b.(float64) }
			case token.LEQ:
				return func(fr *Frame, a, b any) any { return a.(float64) <= b.(float64) }
			case token.GTR:
				return func(fr *Frame, a, b any) any { return a.(float64) > b.(float64) }
			case token.GEQ:
				return func(fr *Frame, a, b any) any { return a.(float64) >= b.(float64) }
			}
		}
	}
	return func(fr *Frame, a, b any) any {
		panic(unsupported(fmt.Sprintf("binop %s on %s", in.Op, t)))
	}
}

func intOp(op token.Token, w int, signed bool, e *Engine, pos token.Pos) func(fr *Frame, a, b any) any {
	mask := maskW(w)
	sx := func(v uint64) int64 { return sextW(v, w) }
	mkBin := func(f func(x, y uint64) uint64, o Op) func(fr *Frame, a, b any) any {
		return func(fr *Frame, a, b any) any {
			if x, ok := a.(uint64); ok {
				if y, ok := b.(uint64); ok {
					return f(x, y) & mask
				}
			}
			p := fr.p
			return p.unterm(p.ctx.Bin(o, p.intTerm(a, w), p.intTerm(b, w)))
		}
	}
	mkCmp := func(f func(x, y uint64) bool, o Op, swap bool, neg bool) func(fr *Frame, a, b any) any {
		return func(fr *Frame, a, b any) any {
			if x, ok := a.(uint64); ok {
				if y, ok := b.(uint64); ok {
					return f(x, y)
				}
			}
			p := fr.p
			x, y := p.intTerm(a, w), p.intTerm(b, w)
			if swap {
				x, y = y, x
			}
			t := p.ctx.Cmp(o, x, y)
			if neg {
				t = p.ctx.Not(t)
			}
			return p.unterm(t)
		}
	}
	switch op {
	case token.ADD:
		return mkBin(func(x, y uint64) uint64 { return x + y }, OAdd)
	case token.SUB:
		return mkBin(func(x, y uint64) uint64 { return x - y }, OSub)
	case token.MUL:
		return mkBin(func(x, y uint64) uint64 { return x * y }, OMul)
	case token.AND:
		return mkBin(func(x, y uint64) uint64 { return x & y }, OBand)
	case token.OR:
		return mkBin(func(x, y uint64) uint64 { return x | y }, OBor)
	case token.XOR:
		return mkBin(func(x, y uint64) uint64 { return x ^ y }, OBxor)
	case token.AND_NOT:
		return func(fr *Frame, a, b any) any {
			if x, ok := a.(uint64); ok {
				if y, ok := b.(uint64); ok {
					return x &^ y
				}
			}
			p := fr.p
			return p.unterm(p.ctx.Bin(OBand, p.intTerm(a, w), p.ctx.BNot(p.intTerm(b, w))))
		}
	case token.QUO, token.REM:
		return func(fr *Frame, a, b any) any {
			p := fr.p
			if y, ok := b.(uint64); ok {
				if y == 0 {
					p.rtPanicAt("runtime error: integer divide by zero", e.posStr(pos))
				}
				if x, ok := a.(uint64); ok {
					if signed {
						if sx(y) == -1 {
							if op == token.QUO {
								return (-x) & mask
							}
							return uint64(0)
						}
						if op == token.QUO {
							return uint64(sx(x)/sx(y)) & mask
						}
						return uint64(sx(x)%sx(y)) & mask
					}
					if op == token.QUO {
						return x / y
					}
					return x % y
				}
			} else if p.branch(p.ctx.Eq(b.(*Term), p.ctx.Const(0, w))) {
				p.rtPanicAt("runtime error: integer divide by zero", e.posStr(pos))
			}
			o := OUdiv
			switch {
			case op == token.QUO && signed:
				o = OSdiv
			case op == token.REM && signed:
				o = OSrem
			case op == token.REM:
				o = OUrem
			}
			return p.unterm(p.ctx.Bin(o, p.intTerm(a, w), p.intTerm(b, w)))
		}
	}
	if signed {
		switch op {
		case token.LSS:
			return mkCmp(func(x, y uint64) bool { return sx(x) < sx(y) }, OSlt, false, false)
		case token.LEQ:
			return mkCmp(func(x, y uint64) bool { return sx(x) <= sx(y) }, OSle, false, false)
		case token.GTR:
			return mkCmp(func(x, y uint64) bool { return sx(x) > sx(y) }, OSlt, true, false)
		case token.GEQ:
			return mkCmp(func(x, y uint64) bool { return sx(x) >= sx(y) }, OSle, true, false)
		}
	}
	switch op {
	case token.LSS:
		return mkCmp(func(x, y uint64) bool { return x < y }, OUlt, false, false)
	case token.LEQ:
		return mkCmp(func(x, y uint64) bool { return x <= y }, OUle, false, false)
	case token.GTR:
		return mkCmp(func(x, y uint64) bool { return x > y }, OUlt, true, false)
	case token.GEQ:
		return mkCmp(func(x, y uint64) bool { return x >= y }, OUle, true, false)
	}
	return func(fr *Frame, a, b any) any { panic(unsupported("int op " + op.String())) }
}

func shiftOp(op token.Token, w int, signed bool, yw int, ysigned bool) func(fr *Frame, a, b any) any {
	mask := maskW(w)
	return func(fr *Frame, a, b any) any {
		p := fr.p
		if y, ok := b.(uint64); ok {
			if ysigned && sextW(y, yw) < 0 {
				p.rtPanic("runtime error: negative shift amount")
			}
			if x, ok := a.(uint64); ok {
				if op == token.SHL {
					if y >= 64 {
						return uint64(0)
					}
					return (x << y) & mask
				}
				if signed {
					s := sextW(x, w)
					if y >= 63 {
						y = 63
					}
					return uint64(s>>y) & mask
				}
				if y >= 64 {
					return uint64(0)
				}
				return x >> y
			}
			if y >= uint64(w) {
				if op == token.SHL || !signed {
					return uint64(0)
				}
				y = uint64(w - 1)
			}
			b = y
			o := OShl
			if op == token.SHR {
				o = OLshr
				if signed {
					o = OAshr
				}
			}
			return p.unterm(p.ctx.Bin(o, a.(*Term), p.ctx.Const(y, w)))
		}
		bt := b.(*Term)
		if ysigned && p.branch(p.ctx.Cmp(OSlt, bt, p.ctx.Const(0, yw))) {
			p.rtPanic("runtime error: negative shift amount")
		}
		at := p.intTerm(a, w)
		var yt, big *Term
		if yw > w {
			big = p.ctx.Cmp(OUle, p.ctx.Const(uint64(w), yw), bt)
			yt = p.ctx.Trunc(bt, w)
		} else {
			yt = p.ctx.Zext(bt, w)
			if uint64(w)&maskW(w) == uint64(w) {
				big = p.ctx.Cmp(OUle, p.ctx.Const(uint64(w), w), yt)
			} else {
				big = p.ctx.tFals
			}
		}
		o, sat := OShl, p.ctx.Const(0, w)
		if op == token.SHR {
			o = OLshr
			if signed {
				o = OAshr
				sat = p.ctx.Bin(OAshr, at, p.ctx.Const(uint64(w-1), w))
			}
		}
		return p.unterm(p.ctx.Ite(big, sat, p.ctx.Bin(o, at, yt)))
	}
}

func (c *fcomp) convert(from, to types.Type) func(fr *Frame, v any) any {
	fw, fsigned, fint := intInfo(from)
	tw, tsigned, tint := intInfo(to)
	fb, _ := from.Underlying().(*types.Basic)
	tb, _ := to.Underlying().(*types.Basic)
	switch {
	case fint && tint:
		mask := maskW(tw)
		if fw == tw {
			return func(fr *Frame, v any) any { return v }
		}
		return func(fr *Frame, v any) any {
			switch x := v.(type) {
			case uint64:
				if tw > fw && fsigned {
					return uint64(sextW(x, fw)) & mask
				}
				return x & mask
			case *Term:
				cx := fr.p.ctx
				if tw < fw {
					return fr.p.unterm(cx.Trunc(x, tw))
				}
				if fsigned {
					return fr.p.unterm(cx.Sext(x, tw))
				}
				return fr.p.unterm(cx.Zext(x, tw))
			}
			panic("convert")
		}
	case fint && tb != nil && tb.Info()&types.IsFloat != 0:
		f32 := tb.Kind() == types.Float32
		return func(fr *Frame, v any) any {
			x := fr.p.concInt(v, fw)
			var f float64
			if fsigned {
				f = float64(sextW(x, fw))
			} else {
				f = float64(x)
			}
			if f32 {
				f = float64(float32(f))
			}
			return f
		}
	case fb != nil && fb.Info()&types.IsFloat != 0 && tint:
		return func(fr *Frame, v any) any {
			f := v.(float64)
			if tsigned {
				return uint64(int64(f)) & maskW(tw)
			}
			return uint64(f) & maskW(tw)
		}
	case fb != nil && fb.Info()&types.IsFloat != 0 && tb != nil && tb.Info()&types.IsFloat != 0:
		if tb.Kind() == types.Float32 {
			return func(fr *Frame, v any) any { return float64(float32(v.(float64))) }
		}
		return func(fr *Frame, v any) any { return v }
	case fint && tb != nil && tb.Info()&types.IsString != 0:
		return func(fr *Frame, v any) any {
			x := fr.p.concInt(v, fw)
			if fsigned {
				return string(rune(sextW(x, fw)))
			}
			return string(rune(x))
		}
	case fb != nil && fb.Info()&types.IsString != 0:
		if tb != nil && tb.Info()&types.IsString != 0 {
			return func(fr *Frame, v any) any { return v }
		}
		if sl, ok := to.Underlying().(*types.Slice); ok {
			ew, _, _ := intInfo(sl.Elem())
			if ew == 8 {
				return func(fr *Frame, v any) any {
					b := strBytes(v)
					n := len(b)
					s := make(Slice, n, growCapStr(n))
					copy(s, b)
					for i := n; i < cap(s); i++ {
						s[:cap(s)][i] = uint64(0)
					}
					return s
				}
			}
			return func(fr *Frame, v any) any {
				s := Slice{}
				for i := 0; i < strLen(v); {
					r, n := fr.p.decodeRune(v, i)
					s = append(s, r)
					i += n
				}
				return s
			}
		}
	case tb != nil && tb.Info()&types.IsString != 0:
		if sl, ok := from.Underlying().(*types.Slice); ok {
			ew, _, _ := intInfo(sl.Elem())
			if ew == 8 {
				return func(fr *Frame, v any) any { return mkStr([]any(v.(Slice))) }
			}
			return func(fr *Frame, v any) any {
				var out []any
				for _, r := range v.(Slice) {
					out = append(out, fr.p.encodeRune(r)...)
				}
				return mkStr(out)
			}
		}
	}
	if tb != nil && tb.Kind() == types.UnsafePointer {
		return func(fr *Frame, v any) any {
			if p, ok := v.(*any); ok && p == nil {
				return UPtr{}
			}
			if u, ok := v.(UPtr); ok {
				return u
			}
			return UPtr{v}
		}
	}
	if fb != nil && fb.Kind() == types.UnsafePointer {
		tp, isPtr := to.Underlying().(*types.Pointer)
		return func(fr *Frame, v any) any {
			u := v.(UPtr)
			if !isPtr {
				if u.v == nil {
					return uint64(0)
				}
				return uint64(0xc000000000) // an arbitrary address
			}
			if u.v == nil {
				return nilPtr
			}
			_ = tp
			return u.v
		}
	}
	if fb != nil && tb != nil && fb.Info()&types.IsComplex != 0 && tb.Info()&types.IsComplex != 0 {
		return func(fr *Frame, v any) any { return v }
	}
	if types.Identical(from.Underlying(), to.Underlying()) {
		return func(fr *Frame, v any) any { return v }
	}
	return func(fr *Frame, v any) any {
		panic(unsupported(fmt.Sprintf("conversion %s -> %s", from, to)))
	}
}

func growCapStr(n int) int { return roundupsize(n) }

func (c *fcomp) slice(in *ssa.Slice) instr {
	dst := c.slots[in]
	x := c.op(in.X)
	lo, hi, max := c.op(in.Low), c.op(in.High), c.op(in.Max)
	pos := in.Pos()
	xt := in.X.Type().Underlying()
	e := c.e
	conc := func(fr *Frame, o *opnd, def int) int {
		if o == nil {
			return def
		}
		fr.pos = pos
		v := fr.get(o)
		return int(int64(fr.p.concInt(v, 64)))
	}
	bad := func(fr *Frame, a, b, n int) {
		fr.p.rtPanicAt(fmt.Sprintf("runtime error: slice bounds out of range [%d:%d] with capacity/length %d", a, b, n), e.posStr(pos)+" in "+fr.fn.name)
	}
	switch xt.(type) {
	case *types.Basic: // string
		return func(fr *Frame) {
			s := fr.get(x)
			n := strLen(s)
			l := conc(fr, lo, 0)
			h := conc(fr, hi, n)
			if l < 0 || h < l || h > n {
				bad(fr, l, h, n)
			}
			fr.regs[dst] = strSlice(s, l, h)
		}
	case *types.Pointer: // *array
		return func(fr *Frame) {
			p := fr.get(x).(*any)
			if p == nil {
				fr.nilDeref(pos)
			}
			a := (*p).(Array)
			l := conc(fr, lo, 0)
			h := conc(fr, hi, len(a))
			m := conc(fr, max, len(a))
			if l < 0 || h < l || m < h || m > len(a) {
				bad(fr, l, h, len(a))
			}
			fr.regs[dst] = Slice(a[l:h:m])
		}
	}
	return func(fr *Frame) {
		s := fr.get(x).(Slice)
		l := conc(fr, lo, 0)
		h := conc(fr, hi, len(s))
		m := conc(fr, max, cap(s))
		if l < 0 || h < l || m < h || m > cap(s) {
			bad(fr, l, h, cap(s))
		}
		fr.regs[dst] = s[l:h:m]
	}
}

// idx resolves an index against length n, panicking like Go when out of range.
func (fr *Frame) idx(v any, n int, signedW int, pos token.Pos) int {
	if x, ok := v.(uint64); ok {
		i := sextW(x, signedW)
		if i < 0 || i >= int64(n) {
			fr.p.rtPanicAt(fmt.Sprintf("runtime error: index out of range [%d] with length %d", i, n), fr.fn.e.posStr(pos)+" in "+fr.fn.name)
		}
		return int(i)
	}
	t := v.(*Term)
	p := fr.p
	fr.pos = pos
	// out of range?
	if t.w < 64 {
		if uint64(n) <= maskW(t.w) && !p.branch(p.ctx.Cmp(OUlt, t, p.ctx.Const(uint64(n), t.w))) {
			p.rtPanicAt(fmt.Sprintf("runtime error: index out of range with length %d", n), fr.fn.e.posStr(pos)+" in "+fr.fn.name)
		}
	} else if !p.branch(p.ctx.Cmp(OUlt, t, p.ctx.Const(uint64(n), t.w))) {
		p.rtPanicAt(fmt.Sprintf("runtime error: index out of range with length %d", n), fr.fn.e.posStr(pos)+" in "+fr.fn.name)
	}
	return int(p.concInt(t, t.w))
}

func idxWidth(t types.Type) int {
	w, signed, ok := intInfo(t)
	if !ok {
		return 64
	}
	if !signed && w < 64 {
		return 64 // value is zero-extended and non-negative
	}
	return w
}

func (c *fcomp) indexAddr(in *ssa.IndexAddr) instr {
	dst := c.slots[in]
	x, i := c.op(in.X), c.op(in.Index)
	pos := in.Pos()
	iw := idxWidth(in.Index.Type())
	et := deref(in.Type())
	ew, _, eint := intInfo(et)
	if b, ok := et.Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
		ew, eint = 0, true
	}
	loadsOnly := eint
	for _, r := range *in.Referrers() {
		if u, ok := r.(*ssa.UnOp); !ok || u.Op != token.MUL {
			loadsOnly = false
		}
	}
	at := func(fr *Frame, a []any) any {
		iv := fr.get(i)
		if t, ok := iv.(*Term); ok && loadsOnly && len(a) <= 1024 {
			return &symElem{a, fr.inRange(t, len(a), pos), ew}
		}
		return &a[fr.idx(iv, len(a), iw, pos)]
	}
	if _, ok := in.X.Type().Underlying().(*types.Pointer); ok {
		return func(fr *Frame) {
			p := fr.get(x).(*any)
			if p == nil {
				fr.nilDeref(pos)
			}
			fr.regs[dst] = at(fr, (*p).(Array))
		}
	}
	return func(fr *Frame) {
		fr.regs[dst] = at(fr, fr.get(x).(Slice))
	}
}

// symElem is the address of an element at a symbolic index, used only by loads.
type symElem struct {
	a []any
	i *Term
	w int
}

func (fr *Frame) inRange(t *Term, n int, pos token.Pos) *Term {
	p := fr.p
	fr.pos = pos
	if uint64(n) <= maskW(t.w) && !p.branch(p.ctx.Cmp(OUlt, t, p.ctx.Const(uint64(n), t.w))) {
		p.rtPanicAt(fmt.Sprintf("runtime error: index out of range with length %d", n), fr.fn.e.posStr(pos)+" in "+fr.fn.name)
	}
	return t
}

// tableLoad is the value of a[i] as a term.
func (p *Path) tableLoad(s *symElem) any {
	cx := p.ctx
	el := func(k int) *Term {
		switch v := s.a[k].(type) {
		case uint64:
			return cx.Const(v, s.w)
		case bool:
			return cx.Bool(v)
		case *Term:
			return v
		}
		panic(unsupported("symbolic index into a table of non-scalars"))
	}
	// group the indexes by value
	groups := map[*Term][]int{}
	var order []*Term
	add := func(k int) {
		e := el(k)
		if _, ok := groups[e]; !ok {
			order = append(order, e)
		}
		g := groups[e]
		if len(g) == 0 || g[len(g)-1] != k {
			groups[e] = append(g, k)
		}
	}
	if len(s.i.vars) == 1 && p.dom[s.i.vars[0]] != nil {
		d := p.dom[s.i.vars[0]]
		seen := map[uint64]bool{}
		m := Model{}
		for x := uint64(0); x < 256; x++ {
			if d.has(x) {
				m[s.i.vars[0]] = x
				seen[s.i.eval(m, map[int]uint64{})] = true
			}
		}
		for k := range s.a {
			if seen[uint64(k)] {
				add(k)
			}
		}
	} else {
		for k := range s.a {
			add(k)
		}
	}
	if len(order) == 0 {
		panic(&pathEnd{kind: "assume"})
	}
	// the largest group is the default
	best := 0
	for i, e := range order {
		if len(groups[e]) > len(groups[order[best]]) {
			best = i
		}
	}
	r := order[best]
	for gi, e := range order {
		if gi == best {
			continue
		}
		c := cx.tFals
		ks := groups[e]
		for i := 0; i < len(ks); {
			j := i
			for j+1 < len(ks) && ks[j+1] == ks[j]+1 {
				j++
			}
			if i == j {
				c = cx.Or(c, cx.Eq(s.i, cx.Const(uint64(ks[i]), s.i.w)))
			} else {
				c = cx.Or(c, cx.And(cx.Cmp(OUle, cx.Const(uint64(ks[i]), s.i.w), s.i), cx.Cmp(OUle, s.i, cx.Const(uint64(ks[j]), s.i.w))))
			}
			i = j + 1
		}
		r = cx.Ite(c, e, r)
	}
	return p.unterm(r)
}

func (fr *Frame) strIndex(s any, i any, pos token.Pos) any {
	n := strLen(s)
	if t, ok := i.(*Term); ok && n <= 256 && t.w <= 64 {
		// a table look-up: an if-then-else chain instead of forking
		p := fr.p
		fr.pos = pos
		fr.inRange(t, n, pos)
		return p.tableLoad(&symElem{strBytes(s), t, 8})
	}
	return strAt(s, fr.idx(i, n, 64, pos))
}

func (c *fcomp) index(in *ssa.Index) instr {
	dst := c.slots[in]
	x, i := c.op(in.X), c.op(in.Index)
	pos := in.Pos()
	iw := idxWidth(in.Index.Type())
	if b, ok := in.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		return func(fr *Frame) { fr.regs[dst] = fr.strIndex(fr.get(x), fr.get(i), pos) }
	}
	return func(fr *Frame) {
		switch a := fr.get(x).(type) {
		case Array:
			fr.regs[dst] = a[fr.idx(fr.get(i), len(a), iw, pos)]
		case Slice:
			fr.regs[dst] = a[fr.idx(fr.get(i), len(a), iw, pos)]
		default:
			fr.regs[dst] = fr.strIndex(a, fr.get(i), pos)
		}
	}
}

func (c *fcomp) typeAssert(in *ssa.TypeAssert) instr {
	dst := c.slots[in]
	x := c.op(in.X)
	to := c.e.canon(in.AssertedType)
	commaOk := in.CommaOk
	pos := in.Pos()
	e := c.e
	_, isI := to.Underlying().(*types.Interface)
	var z any
	if isI {
		z = Iface{}
	} else {
		z = zeroVal(to)
	}
	return func(fr *Frame) {
		xv := fr.get(x)
		iv, ok := xv.(Iface)
		if !ok {
			panic(unsupported(fmt.Sprintf("type assert on %T in %s", xv, fr.fn.name)))
		}
		var good bool
		var v any
		if isI {
			good = iv.t != nil && e.implements(iv.t, to)
			v = iv
		} else {
			good = iv.t == to
			v = iv.v
		}
		if commaOk {
			if !good {
				v = z
			}
			fr.regs[dst] = Tuple{v, good}
			return
		}
		if !good {
			ts := "nil"
			if iv.t != nil {
				ts = iv.t.String()
			}
			fr.p.rtPanicAt(fmt.Sprintf("interface conversion: interface is %s, not %s", ts, to), e.posStr(pos)+" in "+fr.fn.name)
		}
		fr.regs[dst] = v
	}
}

// ---- calls ----

func (c *fcomp) prepCall(cc *ssa.CallCommon) func(fr *Frame) (*Closure, *ssa.Builtin, []any) {
	args := c.ops(cc.Args)
	if cc.IsInvoke() {
		recv := c.op(cc.Value)
		m := cc.Method
		e := c.e
		pos := cc.Pos()
		return func(fr *Frame) (*Closure, *ssa.Builtin, []any) {
			iv, ok := fr.get(recv).(Iface)
			if !ok {
				panic(unsupported(fmt.Sprintf("invoke on %T", fr.get(recv))))
			}
			if iv.t == nil {
				fr.nilDeref(pos)
			}
			f := e.method(iv.t, m)
			if f == nil {
				panic(unsupported("no method " + m.Name() + " on " + iv.t.String()))
			}
			as := make([]any, 0, len(args)+1)
			as = append(as, iv.v)
			for _, a := range args {
				as = append(as, fr.get(a))
			}
			return &Closure{fn: f}, nil, as
		}
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return func(fr *Frame) (*Closure, *ssa.Builtin, []any) {
			as := make([]any, len(args))
			for i, a := range args {
				as[i] = fr.get(a)
			}
			return nil, b, as
		}
	}
	f := c.op(cc.Value)
	pos := cc.Pos()
	return func(fr *Frame) (*Closure, *ssa.Builtin, []any) {
		cl := fr.get(f).(*Closure)
		if cl == nil {
			fr.nilDeref(pos)
		}
		as := make([]any, len(args))
		for i, a := range args {
			as[i] = fr.get(a)
		}
		return cl, nil, as
	}
}

func (c *fcomp) call(cc *ssa.CallCommon, pos token.Pos) func(fr *Frame) any {
	if b, ok := cc.Value.(*ssa.Builtin); ok && !cc.IsInvoke() {
		args := c.ops(cc.Args)
		bf := c.builtin(b, cc)
		return func(fr *Frame) any {
			as := make([]any, len(args))
			for i, a := range args {
				as[i] = fr.get(a)
			}
			fr.pos = pos
			return bf(fr, as)
		}
	}
	if sf, ok := cc.Value.(*ssa.Function); ok && !cc.IsInvoke() {
		fn := c.e.fn(sf)
		args := c.ops(cc.Args)
		return func(fr *Frame) any {
			as := make([]any, len(args))
			for i, a := range args {
				as[i] = fr.get(a)
			}
			fr.pos = pos
			return fr.g.call(fr, fn, as, nil)
		}
	}
	prep := c.prepCall(cc)
	return func(fr *Frame) any {
		cl, _, as := prep(fr)
		fr.pos = pos
		return fr.g.callClosure(fr, cl, as)
	}
}

func (g *G) callClosure(caller *Frame, cl *Closure, args []any) any {
	if cl == nil {
		caller.nilDeref(caller.pos)
	}
	if cl.native != nil {
		return cl.native(caller, args)
	}
	return g.call(caller, cl.fn, args, cl.env)
}

func (g *G) call(caller *Frame, fn *Fn, args []any, env []any) any {
	if fn.intr != nil {
		r := fn.intr(caller, args)
		if r != notHandled {
			return r
		}
	}
	return g.callBody(caller, nil, fn, args, env)
}

func (g *G) callBody(caller *Frame, deferOf *Frame, fn *Fn, args []any, env []any) any {
	if !fn.ready.Load() {
		fn.compile()
	}
	if fn.blocks == nil {
		panic(unsupported("external function " + fn.name))
	}
	if fn.isPkgr && !fn.hit.Load() {
		fn.hit.Store(true)
		fn.e.covered.Store(fn.name, fn)
	}
	g.depth++
	if g.depth > 4000 {
		g.depth = 0
		panic(&goPanic{val: g.p.rtError("stack overflow"), where: fn.name})
	}
	fr := &Frame{g: g, p: g.p, fn: fn, env: env, caller: caller, deferOf: deferOf}
	fr.regs = make([]any, fn.nregs)
	copy(fr.regs, args)
	saved := g.top
	g.top = fr
	if fn.hasDef || fn.recover >= 0 {
		fr.runProtected()
	} else {
		fr.run(0)
	}
	g.top = saved
	g.depth--
	return fr.result
}

func (fr *Frame) run(bi int) {
	fn := fr.fn
	p := fr.p
	for bi >= 0 {
		b := fn.blocks[bi]
		p.steps += b.cost
		if p.steps > p.maxSteps {
			panic(&pathEnd{kind: "steps"})
		}
		if n := len(b.phis); n > 0 {
			if n == 1 {
				ph := &b.phis[0]
				fr.regs[ph.dst] = fr.get(&ph.ops[fr.pred])
			} else {
				var tmp [16]any
				t := tmp[:0]
				for i := range b.phis {
					t = append(t, fr.get(&b.phis[i].ops[fr.pred]))
				}
				for i := range b.phis {
					fr.regs[b.phis[i].dst] = t[i]
				}
			}
		}
		for _, in := range b.ins {
			in(fr)
		}
		bi = b.term(fr)
	}
}

func (fr *Frame) runProtected() {
	depth := fr.g.depth
	func() {
		defer func() {
			r := recover()
			if r == nil {
				return
			}
			gp, ok := r.(*goPanic)
			if !ok {
				if rt, isRT := r.(error); isRT && strings.Contains(fmt.Sprint(rt), "runtime error") {
					panic(r)
				}
				panic(r)
			}
			fr.g.depth = depth
			fr.g.top = fr
			fr.panicking = gp
			fr.recovered = false
			fr.runDefers()
		}()
		fr.run(0)
	}()
	if fr.panicking != nil {
		if !fr.recovered {
			gp := fr.panicking
			panic(gp)
		}
		// recovered: run the recover block, or return zero values
		fr.panicking = nil
		fr.g.depth = depth
		fr.g.top = fr
		if fr.fn.recover >= 0 {
			fr.result = nil
			fr.run(fr.fn.recover)
		} else {
			switch fr.fn.results.Len() {
			case 0:
			case 1:
				fr.result = zeroVal(fr.fn.results.At(0).Type())
			default:
				fr.result = zeroVal(fr.fn.results)
			}
		}
	}
}

// runDefers runs the deferred calls of the frame; panics raised by them replace the current one.
func (fr *Frame) runDefers() {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		func() {
			depth := fr.g.depth
			defer func() {
				if r := recover(); r != nil {
					gp, ok := r.(*goPanic)
					if !ok {
						panic(r)
					}
					fr.g.depth = depth
					if fr.panicking == nil {
						// a panic in a deferred call on the normal path
						fr.panicking = gp
						fr.recovered = false
						return
					}
					fr.panicking = gp
					fr.recovered = false
				}
			}()
			if d.bi != nil {
				fr.fn.e.callBuiltin(fr, d.bi, d.args)
				return
			}
			if d.fn == nil {
				fr.nilDeref(d.pos)
			}
			if d.fn.native != nil {
				d.fn.native(fr, d.args)
				return
			}
			if d.fn.fn.intr != nil {
				if r := d.fn.fn.intr(fr, d.args); r != notHandled {
					return
				}
			}
			fr.g.callBody(fr, fr, d.fn.fn, d.args, d.fn.env)
		}()
		if fr.panicking != nil && fr.recovered {
			// remaining defers run on the normal path
			gp := fr.panicking
			_ = gp
			fr.panicking = nil
			fr.runDefers()
			if fr.panicking == nil {
				fr.panicking = gp
				fr.recovered = true
			}
			return
		}
	}
	if fr.panicking != nil && !fr.recovered {
		panic(fr.panicking)
	}
}

func (p *Path) rtError(msg string) any {
	if p.e.rtErrT == nil {
		return Iface{types.Typ[types.String], msg}
	}
	return Iface{p.e.rtErrT, msg}
}

func (p *Path) rtPanic(msg string) { p.rtPanicAt(msg, p.where()) }
func (p *Path) rtPanicAt(msg, where string) {
	panic(&goPanic{val: p.rtError(msg), where: where})
}

// ---- builtins ----

func (e *Engine) callBuiltin(fr *Frame, b *ssa.Builtin, args []any) any {
	return builtinImpl(e, b.Name(), b.Type().(*types.Signature))(fr, args)
}

func (c *fcomp) builtin(b *ssa.Builtin, cc *ssa.CallCommon) func(fr *Frame, args []any) any {
	sig, _ := b.Type().(*types.Signature)
	return builtinImpl(c.e, b.Name(), sig)
}

func builtinImpl(e *Engine, name string, sig *types.Signature) func(fr *Frame, args []any) any {
	switch name {
	case "len", "cap":
		isCap := name == "cap"
		return func(fr *Frame, args []any) any {
			switch v := args[0].(type) {
			case string:
				return uint64(len(v))
			case *SStr:
				return uint64(len(v.b))
			case Slice:
				if isCap {
					return uint64(cap(v))
				}
				return uint64(len(v))
			case Array:
				return uint64(len(v))
			case *any:
				if v == nil {
					return uint64(sig.Params().At(0).Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
				}
				return uint64(len((*v).(Array)))
			case *Map:
				if v == nil {
					return uint64(0)
				}
				return uint64(v.n)
			case *Chan:
				if v == nil {
					return uint64(0)
				}
				if isCap {
					return uint64(v.cap)
				}
				return uint64(len(v.buf))
			}
			panic(unsupported(fmt.Sprintf("len of %T", args[0])))
		}
	case "append":
		var esz int64 = 8
		if sl, ok := sig.Results().At(0).Type().Underlying().(*types.Slice); ok {
			esz = sizeofT(sl.Elem())
		}
		return func(fr *Frame, args []any) any {
			s := args[0].(Slice)
			if len(args) == 1 {
				return s
			}
			var add []any
			switch v := args[1].(type) {
			case Slice:
				add = v
			case string, *SStr:
				add = strBytes(v)
			}
			if len(add) == 0 {
				return s
			}
			n := len(s) + len(add)
			if n > cap(s) {
				ns := make(Slice, len(s), growCap(cap(s), n, esz))
				copy(ns, s)
				// remaining capacity must hold zero values of the right kind
				s = ns
			}
			base := len(s)
			s = s[:n]
			for i, a := range add {
				switch a.(type) {
				case Struct, Array:
					s[base+i] = copyVal(a)
				default:
					s[base+i] = a
				}
			}
			if cap(s) > n {
				ext := s[n:cap(s)]
				if len(ext) > 0 && ext[len(ext)-1] == nil {
					et := sig.Results().At(0).Type().Underlying().(*types.Slice).Elem()
					agg := isAgg(et)
					var z any
					if !agg {
						z = zeroVal(et)
					}
					for i := range ext {
						if ext[i] == nil {
							if agg {
								ext[i] = zeroVal(et)
							} else {
								ext[i] = z
							}
						}
					}
				}
			}
			return s
		}
	case "copy":
		return func(fr *Frame, args []any) any {
			d := args[0].(Slice)
			var src []any
			switch v := args[1].(type) {
			case Slice:
				src = v
			case string, *SStr:
				src = strBytes(v)
			}
			n := len(d)
			if len(src) < n {
				n = len(src)
			}
			if n > 0 {
				switch src[0].(type) {
				case Struct, Array:
					tmp := make([]any, n)
					for i := 0; i < n; i++ {
						tmp[i] = copyVal(src[i])
					}
					for i := 0; i < n; i++ {
						storeVal(&d[i], tmp[i])
					}
					return uint64(n)
				}
			}
			copy(d[:n], src[:n])
			return uint64(n)
		}
	case "delete":
		return func(fr *Frame, args []any) any {
			m := args[0].(*Map)
			if m != nil {
				fr.p.mapDelete(m, args[1])
			}
			return nil
		}
	case "clear":
		return func(fr *Frame, args []any) any {
			switch m := args[0].(type) {
			case *Map:
				if m != nil {
					m.clear()
				}
			case Slice:
				et := sig.Params().At(0).Type().Underlying().(*types.Slice).Elem()
				for i := range m {
					m[i] = zeroVal(et)
				}
			}
			return nil
		}
	case "close":
		return func(fr *Frame, args []any) any {
			fr.p.chanClose(fr, args[0].(*Chan))
			return nil
		}
	case "panic":
		return func(fr *Frame, args []any) any {
			panic(&goPanic{val: args[0], where: fr.p.where()})
		}
	case "recover":
		return func(fr *Frame, args []any) any {
			d := fr.deferOf
			if d != nil && d.panicking != nil && !d.recovered {
				d.recovered = true
				v := d.panicking.val
				if iv, ok := v.(Iface); ok {
					return iv
				}
			}
			return Iface{}
		}
	case "print", "println":
		return func(fr *Frame, args []any) any { return nil }
	case "min", "max":
		t := sig.Params().At(0).Type()
		w, signed, isInt := intInfo(t)
		return func(fr *Frame, args []any) any {
			r := args[0]
			for _, a := range args[1:] {
				if isInt {
					op := OUlt
					if signed {
						op = OSlt
					}
					p := fr.p
					x, y := p.intTerm(r, w), p.intTerm(a, w)
					var c *Term
					if name == "min" {
						c = p.ctx.Cmp(op, y, x)
					} else {
						c = p.ctx.Cmp(op, x, y)
					}
					r = p.unterm(p.ctx.Ite(c, y, x))
					continue
				}
				if f, ok := r.(float64); ok {
					if name == "min" {
						r = math.Min(f, a.(float64))
					} else {
						r = math.Max(f, a.(float64))
					}
					continue
				}
				var c any
				if name == "min" {
					c = fr.p.strLess(a, r)
				} else {
					c = fr.p.strLess(r, a)
				}
				if fr.p.cond(c) {
					r = a
				}
			}
			return r
		}
	case "ssa:wrapnilchk":
		return func(fr *Frame, args []any) any {
			if p, ok := args[0].(*any); ok && p == nil {
				fr.p.rtPanic(fmt.Sprintf("value method %v.%v called using nil pointer", args[1], args[2]))
			}
			return args[0]
		}
	case "ssa:deferstack":
		return func(fr *Frame, args []any) any { return nil }
	case "String": // unsafe.String
		return func(fr *Frame, args []any) any {
			n := int(int64(fr.p.concInt(args[1], 64)))
			if n == 0 {
				return ""
			}
			return mkStr(ptrSlice(args[0], n))
		}
	case "StringData", "SliceData":
		return func(fr *Frame, args []any) any {
			switch v := args[0].(type) {
			case Slice:
				if cap(v) == 0 {
					return nilPtr
				}
				return &v[:1][0]
			default:
				b := strBytes(v)
				if len(b) == 0 {
					return nilPtr
				}
				b = append([]any(nil), b...)
				return &b[0]
			}
		}
	case "Slice": // unsafe.Slice
		return func(fr *Frame, args []any) any {
			n := int(int64(fr.p.concInt(args[1], 64)))
			if args[0].(*any) == nil {
				return Slice(nil)
			}
			return Slice(ptrSlice(args[0], n))
		}
	case "Add":
		return func(fr *Frame, args []any) any { panic(unsupported("unsafe.Add")) }
	case "real":
		return func(fr *Frame, args []any) any { return real(args[0].(complex128)) }
	case "imag":
		return func(fr *Frame, args []any) any { return imag(args[0].(complex128)) }
	case "complex":
		return func(fr *Frame, args []any) any { return complex(args[0].(float64), args[1].(float64)) }
	}
	return func(fr *Frame, args []any) any { panic(unsupported("builtin " + name)) }
}
