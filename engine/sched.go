package main

import (
	"fmt"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// G is a goroutine of the interpreted program.  Each has its own host goroutine; exactly one runs at a time.
type G struct {
	tag     int // the process of the model the goroutine belongs to (sym.SetTag)
	p       *Path
	id      int
	proc    *Proc
	depth   int
	wake    chan bool // true: run, false: die
	blocked bool
	why     string
	done    bool
	val     any // value handed over by a channel operation
	ok      bool
	selIdx  int
	lastPos string
	top     *Frame
}

// Proc is a simulated process (sym.Run) or the harness itself (proc 0).
type Proc struct {
	id      int
	parent  *G
	outcome *outcome
	dead    bool
}

type outcome struct {
	kind string // done, exited, crashed, hung, panicked
	code int
	msg  string
}

type killG struct{}

type waiter struct {
	g    *G
	val  any // value to send
	send bool
	idx  int // select case
	sel  *selState
}

type selState struct{ fired bool }

type Chan struct {
	cap    int
	buf    []any
	recvq  []*waiter
	sendq  []*waiter
	closed bool
}

func (p *Path) newG(proc *Proc) *G {
	g := &G{p: p, id: len(p.gs), proc: proc, wake: make(chan bool)}
	p.gs = append(p.gs, g)
	return g
}

func (p *Path) spawn(fr *Frame, fn *Closure, bi *ssa.Builtin, args []any) {
	g := p.newG(fr.g.proc)
	g.tag = fr.g.tag
	p.startG(g, func() {
		f0 := &Frame{g: g, p: p, fn: fr.fn}
		if bi != nil {
			p.e.callBuiltin(f0, bi, args)
			return
		}
		g.callClosure(f0, fn, args)
	})
	p.runq = append(p.runq, g)
	p.preempt(fr)
}

// startG creates the host goroutine, parked until scheduled.
func (p *Path) startG(g *G, body func()) {
	p.hostWG.Add(1)
	go func() {
		defer p.hostWG.Done()
		defer func() {
			r := recover()
			g.done = true
			p.finishG(g, r)
		}()
		if !<-g.wake {
			panic(killG{})
		}
		body()
	}()
}

// finishG runs on the ending goroutine while it still holds the baton (or when killed).
func (p *Path) finishG(g *G, r any) {
	switch x := r.(type) {
	case nil:
	case killG:
		return
	case *pathEnd:
		p.endPath(x)
		return
	case *goPanic:
		if g.proc.id != 0 {
			p.panicked = true
			p.endProc(g.proc, &outcome{kind: "panicked", msg: p.panicString(x)})
			p.handOff(g)
			return
		}
		p.recordPanic(x)
		p.endPath(&pathEnd{kind: "panic"})
		return
	case *unsupportedErr:
		p.endPath(&pathEnd{kind: "unsupported", msg: x.msg + " [" + p.where() + "]"})
		return
	case procEnd:
		p.handOff(g)
		return
	default:
		p.endPath(&pathEnd{kind: "internal", msg: fmt.Sprintf("%v\n%s\nat %s", r, stackTrace(), p.where())})
		return
	}
	if g.proc.id != 0 && g.proc.outcome == nil && g == p.procMain[g.proc.id] {
		p.endProc(g.proc, &outcome{kind: "done"})
	}
	if g.id == 0 {
		p.endPath(&pathEnd{kind: "done"})
		return
	}
	p.handOff(g)
}

type procEnd struct{}

// endProc marks the process as finished: its goroutines never run again and the caller of sym.Run resumes.
func (p *Path) endProc(pr *Proc, o *outcome) {
	if pr.outcome != nil {
		return
	}
	pr.outcome = o
	pr.dead = true
	var q []*G
	for _, g := range p.runq {
		if g.proc != pr {
			q = append(q, g)
		}
	}
	p.runq = q
	pr.parent.blocked = false
	p.runq = append([]*G{pr.parent}, p.runq...)
	p.forceNext = pr.parent
}

// endPath signals the coordinator that the path is over.
func (p *Path) endPath(e *pathEnd) {
	if p.end == nil {
		p.end = e
	}
	if !p.ended {
		p.ended = true
		p.doneCh <- struct{}{}
	}
}

// pick chooses the next goroutine to run; the choice among several runnable ones is a symbolic variable
// bounded by the delay budget.
func (p *Path) pick() *G {
	if p.forceNext != nil {
		g := p.forceNext
		p.forceNext = nil
		for i, x := range p.runq {
			if x == g {
				p.runq = append(p.runq[:i:i], p.runq[i+1:]...)
				return g
			}
		}
	}
	n := len(p.runq)
	if n == 0 {
		return nil
	}
	i := 0
	if n > 1 && p.delays != 0 {
		i = p.choose("sched", n)
		if i != 0 && p.delays > 0 {
			p.delays--
		}
	}
	g := p.runq[i]
	p.runq = append(p.runq[:i:i], p.runq[i+1:]...)
	return g
}

// deadlocked handles the situation where nothing can run; returns the goroutine to resume, or nil if the path ended.
func (p *Path) deadlocked() *G {
	// the innermost live simulated process hangs
	for i := len(p.procs) - 1; i >= 1; i-- {
		pr := p.procs[i]
		if pr.outcome == nil {
			msg := ""
			for _, g := range p.gs {
				if g.proc == pr && !g.done {
					msg += fmt.Sprintf("goroutine %d blocked on %s at %s; ", g.id, g.why, g.lastPos)
				}
			}
			p.endProc(pr, &outcome{kind: "hung", msg: msg})
			return p.pick()
		}
	}
	return nil
}

// handOff gives the baton to another goroutine (the caller is finishing).
func (p *Path) handOff(g *G) {
	defer func() {
		if r := recover(); r != nil {
			if pe, ok := r.(*pathEnd); ok {
				p.endPath(pe)
				return
			}
			p.endPath(&pathEnd{kind: "internal", msg: fmt.Sprintf("%v\n%s", r, stackTrace())})
		}
	}()
	n := p.pick()
	if n == nil {
		n = p.deadlocked()
	}
	if n == nil {
		p.recordDeadlock()
		p.endPath(&pathEnd{kind: "deadlock"})
		return
	}
	p.cur = n
	n.wake <- true
}

// block parks the current goroutine until made runnable again.
func (p *Path) block(fr *Frame, why string) {
	g := fr.g
	g.blocked = true
	g.why = why
	g.lastPos = p.where()
	p.switchOut(g)
}

func (p *Path) switchOut(g *G) {
	n := p.pick()
	if n == nil {
		n = p.deadlocked()
	}
	if n == nil {
		p.recordDeadlock()
		panic(&pathEnd{kind: "deadlock"})
	}
	if n == g {
		p.cur = g
		return
	}
	p.cur = n
	n.wake <- true
	if !<-g.wake {
		panic(killG{})
	}
	p.cur = g
}

func (p *Path) ready(g *G) {
	if g.done || g.proc.dead {
		return
	}
	if g.blocked {
		g.blocked = false
		p.runq = append(p.runq, g)
	}
}

// preempt is a scheduling point: another runnable goroutine may run first (costs one delay).
func (p *Path) preempt(fr *Frame) {
	if p.delays == 0 || len(p.runq) == 0 {
		return
	}
	n := len(p.runq)
	i := p.choose("sched", n+1)
	if i == 0 {
		return
	}
	if p.delays > 0 {
		p.delays--
	}
	g := fr.g
	next := p.runq[i-1]
	p.runq = append(p.runq[:i-1:i-1], p.runq[i:]...)
	p.runq = append(p.runq, g)
	p.cur = next
	next.wake <- true
	if !<-g.wake {
		panic(killG{})
	}
	p.cur = g
}

// yield lets every other runnable goroutine go first (used by sleeping code).
func (p *Path) yield(fr *Frame) {
	if len(p.runq) == 0 {
		return
	}
	p.runq = append(p.runq, fr.g)
	p.switchOut(fr.g)
}

// killAll ends every remaining host goroutine of the path.
func (p *Path) killAll() {
	for _, g := range p.gs {
		if !g.done {
			g.wake <- false
		}
	}
}

// ---- channels ----

func (c *Chan) popRecv() *waiter {
	for len(c.recvq) > 0 {
		w := c.recvq[0]
		c.recvq = c.recvq[1:]
		if w.g.done || w.g.proc.dead || (w.sel != nil && w.sel.fired) {
			continue
		}
		if w.sel != nil {
			w.sel.fired = true
		}
		return w
	}
	return nil
}

func (c *Chan) popSend() *waiter {
	for len(c.sendq) > 0 {
		w := c.sendq[0]
		c.sendq = c.sendq[1:]
		if w.g.done || w.g.proc.dead || (w.sel != nil && w.sel.fired) {
			continue
		}
		if w.sel != nil {
			w.sel.fired = true
		}
		return w
	}
	return nil
}

func (c *Chan) canRecv() bool {
	if len(c.buf) > 0 || c.closed {
		return true
	}
	for _, w := range c.sendq {
		if !w.g.done && !w.g.proc.dead && (w.sel == nil || !w.sel.fired) {
			return true
		}
	}
	return false
}

func (c *Chan) canSend() bool {
	if c.closed || len(c.buf) < c.cap {
		return true
	}
	for _, w := range c.recvq {
		if !w.g.done && !w.g.proc.dead && (w.sel == nil || !w.sel.fired) {
			return true
		}
	}
	return false
}

// trySend performs a send that is known to be possible.
func (p *Path) doSend(c *Chan, v any) {
	if c.closed {
		p.rtPanic("send on closed channel")
	}
	if w := c.popRecv(); w != nil {
		w.g.val, w.g.ok, w.g.selIdx = v, true, w.idx
		p.ready(w.g)
		return
	}
	c.buf = append(c.buf, v)
}

func (p *Path) doRecv(c *Chan) (any, bool) {
	if len(c.buf) > 0 {
		v := c.buf[0]
		c.buf = c.buf[1:]
		if w := c.popSend(); w != nil {
			c.buf = append(c.buf, w.val)
			w.g.ok, w.g.selIdx = true, w.idx
			p.ready(w.g)
		}
		return v, true
	}
	if w := c.popSend(); w != nil {
		w.g.ok, w.g.selIdx = true, w.idx
		p.ready(w.g)
		return w.val, true
	}
	return nil, false // closed
}

func (p *Path) chanSend(fr *Frame, c *Chan, v any) {
	p.preempt(fr)
	if c == nil {
		p.block(fr, "send on nil channel")
		return
	}
	if c.canSend() {
		p.doSend(c, v)
		return
	}
	c.sendq = append(c.sendq, &waiter{g: fr.g, val: v, send: true})
	p.block(fr, "channel send")
	if !fr.g.ok {
		p.rtPanic("send on closed channel")
	}
}

func (p *Path) chanRecv(fr *Frame, c *Chan) (any, bool) {
	p.preempt(fr)
	if c == nil {
		p.block(fr, "receive from nil channel")
		return nil, false
	}
	if c.canRecv() {
		return p.doRecv(c)
	}
	c.recvq = append(c.recvq, &waiter{g: fr.g})
	p.block(fr, "channel receive")
	return fr.g.val, fr.g.ok
}

func (p *Path) chanClose(fr *Frame, c *Chan) {
	if c == nil {
		p.rtPanic("close of nil channel")
	}
	if c.closed {
		p.rtPanic("close of closed channel")
	}
	c.closed = true
	for {
		w := c.popRecv()
		if w == nil {
			break
		}
		w.g.val, w.g.ok, w.g.selIdx = nil, false, w.idx
		p.ready(w.g)
	}
	for {
		w := c.popSend()
		if w == nil {
			break
		}
		w.g.ok, w.g.selIdx = false, w.idx
		p.ready(w.g)
	}
	p.preempt(fr)
}

func (c *fcomp) selectStmt(in *ssa.Select) instr {
	dst := c.slots[in]
	type st struct {
		send bool
		ch   *opnd
		v    *opnd
		z    any
		rpos int
	}
	var sts []st
	nr := 0
	for _, s := range in.States {
		x := st{send: s.Dir == types.SendOnly, ch: c.op(s.Chan)}
		if x.send {
			x.v = c.op(s.Send)
		} else {
			x.z = zeroVal(s.Chan.Type().Underlying().(*types.Chan).Elem())
			x.rpos = nr
			nr++
		}
		sts = append(sts, x)
	}
	blocking := in.Blocking
	return func(fr *Frame) {
		p := fr.p
		p.preempt(fr)
		res := make(Tuple, 2+nr)
		res[0], res[1] = ^uint64(0), false
		for _, s := range sts {
			if !s.send {
				res[2+s.rpos] = s.z
			}
		}
		var rdy []int
		chs := make([]*Chan, len(sts))
		for i, s := range sts {
			ch := fr.get(s.ch).(*Chan)
			chs[i] = ch
			if ch == nil {
				continue
			}
			if s.send && ch.canSend() || !s.send && ch.canRecv() {
				rdy = append(rdy, i)
			}
		}
		if len(rdy) > 0 {
			k := 0
			if len(rdy) > 1 {
				k = p.choose("select", len(rdy))
			}
			i := rdy[k]
			res[0] = uint64(i)
			if sts[i].send {
				p.doSend(chs[i], fr.get(sts[i].v))
			} else {
				v, ok := p.doRecv(chs[i])
				if ok {
					res[2+sts[i].rpos] = v
				}
				res[1] = ok
			}
			fr.regs[dst] = res
			return
		}
		if !blocking {
			fr.regs[dst] = res
			return
		}
		sel := &selState{}
		for i, s := range sts {
			if chs[i] == nil {
				continue
			}
			w := &waiter{g: fr.g, idx: i, sel: sel, send: s.send}
			if s.send {
				w.val = fr.get(s.v)
				chs[i].sendq = append(chs[i].sendq, w)
			} else {
				chs[i].recvq = append(chs[i].recvq, w)
			}
		}
		p.block(fr, "select")
		i := fr.g.selIdx
		res[0] = uint64(i)
		if sts[i].send {
			if !fr.g.ok {
				p.rtPanic("send on closed channel")
			}
		} else {
			if fr.g.ok {
				res[2+sts[i].rpos] = fr.g.val
			}
			res[1] = fr.g.ok
		}
		fr.regs[dst] = res
	}
}

// ---- sync primitives (side tables keyed by the address of the primitive) ----

type mutexState struct {
	locked  bool
	readers int
	waitq   []*G
	wantW   int
}

type wgState struct {
	n     int64
	waitq []*G
}

type condState struct{ waitq []*G }

func (p *Path) mutex(k *any) *mutexState {
	m := p.mutexes[k]
	if m == nil {
		m = &mutexState{}
		p.mutexes[k] = m
	}
	return m
}

func (p *Path) lock(fr *Frame, k *any) {
	p.preempt(fr)
	m := p.mutex(k)
	for m.locked || m.readers > 0 {
		m.waitq = append(m.waitq, fr.g)
		p.block(fr, "mutex")
	}
	m.locked = true
}

func (p *Path) unlock(fr *Frame, k *any) {
	m := p.mutex(k)
	if !m.locked {
		p.fatalRT("fatal error: sync: unlock of unlocked mutex")
	}
	m.locked = false
	for _, g := range m.waitq {
		p.ready(g)
	}
	m.waitq = nil
	p.preempt(fr)
}

func (p *Path) rlock(fr *Frame, k *any) {
	p.preempt(fr)
	m := p.mutex(k)
	for m.locked {
		m.waitq = append(m.waitq, fr.g)
		p.block(fr, "rwmutex")
	}
	m.readers++
}

func (p *Path) runlock(fr *Frame, k *any) {
	m := p.mutex(k)
	if m.readers <= 0 {
		p.fatalRT("fatal error: sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
	for _, g := range m.waitq {
		p.ready(g)
	}
	m.waitq = nil
	p.preempt(fr)
}

// fatalRT is an unrecoverable runtime error: it ends the process whatever the deferred functions do.
func (p *Path) fatalRT(msg string) {
	panic(&goPanic{val: p.rtError(msg), where: p.where()})
}

func (p *Path) wgAdd(fr *Frame, k *any, d int64) {
	w := p.wgs[k]
	if w == nil {
		w = &wgState{}
		p.wgs[k] = w
	}
	w.n += d
	if w.n < 0 {
		p.rtPanic("sync: negative WaitGroup counter")
	}
	if w.n == 0 {
		for _, g := range w.waitq {
			p.ready(g)
		}
		w.waitq = nil
	}
	p.preempt(fr)
}

func (p *Path) wgWait(fr *Frame, k *any) {
	p.preempt(fr)
	w := p.wgs[k]
	for w != nil && w.n > 0 {
		w.waitq = append(w.waitq, fr.g)
		p.block(fr, "WaitGroup.Wait")
	}
}

// symRun runs fn as a simulated process and returns how it ended.
func (p *Path) symRun(fr *Frame, fn *Closure) *outcome {
	pr := &Proc{id: len(p.procs), parent: fr.g}
	p.procs = append(p.procs, pr)
	g := p.newG(pr)
	p.procMain[pr.id] = g
	p.startG(g, func() {
		f0 := &Frame{g: g, p: p, fn: fr.fn}
		g.callClosure(f0, fn, nil)
	})
	fr.g.blocked = true
	fr.g.why = "sym.Run"
	p.runq = append([]*G{g}, p.runq...)
	p.forceNext = g
	p.switchOut(fr.g)
	return pr.outcome
}

func sortedStrings(m map[string]int) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
