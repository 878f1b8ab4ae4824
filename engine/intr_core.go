package main

import (
	"crypto/md5"
	"fmt"
	"go/types"
	"math"
	"math/bits"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const modPath = "github.com/metrumresearchgroup/pkgr"
const symPkg = modPath + "/verifsym/sym."

var intrinsics = map[string]Intrinsic{}

func reg(name string, f Intrinsic) { intrinsics[name] = f }

func nop(fr *Frame, args []any) any { return nil }

func konst(v any) Intrinsic { return func(fr *Frame, args []any) any { return v } }

// pkgIntrinsic gives intrinsics for whole packages.
func pkgIntrinsic(path, name string, f *ssa.Function) Intrinsic {
	if path == "reflect" && f.Signature.Recv() != nil && f.Synthetic == "" {
		rt := f.Signature.Recv().Type()
		if pt, ok := rt.(*types.Pointer); ok {
			rt = pt.Elem()
		}
		if n, ok := rt.(*types.Named); ok && (n.Obj().Name() == "Value" || n.Obj().Name() == "rtype") && f.Name() != "panicNotBool" {
			return func(fr *Frame, args []any) any { panic(unsupported(name)) }
		}
	}
	switch path {
	case "internal/race", "internal/msan", "internal/asan":
		if f.Name() == "init" || strings.HasPrefix(f.Name(), "init#") {
			return nil
		}
		res := f.Signature.Results()
		return func(fr *Frame, args []any) any {
			switch res.Len() {
			case 0:
				return nil
			case 1:
				return zeroVal(res.At(0).Type())
			}
			return zeroVal(res)
		}
	}
	return nil
}

func (fr *Frame) str(v any) string {
	if s, ok := v.(string); ok {
		return s
	}
	// a symbolic string where a concrete one is needed: explore its values byte by byte
	b := v.(*SStr).b
	out := make([]byte, len(b))
	for i, x := range b {
		out[i] = byte(fr.p.concInt(x, 8))
	}
	return string(out)
}

func (fr *Frame) int(v any) int { return int(int64(fr.p.concInt(v, 64))) }

func i64(n int) uint64 { return uint64(int64(n)) }

func (fr *Frame) strSliceVals(v any) []any { return []any(v.(Slice)) }

func (e *Engine) namedType(pkg, name string) types.Type {
	p := e.pkgs[pkg]
	if p == nil {
		return nil
	}
	t, ok := p.Members[name].(*ssa.Type)
	if !ok {
		return nil
	}
	return t.Type()
}

func (p *Path) newError(msg any) any {
	t := p.e.namedType("errors", "errorString")
	c := new(any)
	*c = Struct{msg}
	return Iface{p.e.canon(types.NewPointer(t)), c}
}

func (p *Path) strSet(alphabet string) *[4]uint64 {
	var s [4]uint64
	for i := 0; i < len(alphabet); i++ {
		c := alphabet[i]
		s[c>>6] |= 1 << (c & 63)
	}
	return &s
}

func (p *Path) intVar(name string, lo, hi int64) any {
	span := uint64(hi - lo)
	if hi <= lo {
		return uint64(lo)
	}
	cx := p.ctx
	var base *Term
	switch {
	case span < 256:
		base = cx.Zext(p.newVar(name, 8, 0, span, nil), 64)
	case span < 1<<16:
		v := p.newVar(name, 16, 0, 0, nil)
		if span < 1<<16-1 {
			p.addPC(cx.Cmp(OUle, v, cx.Const(span, 16)))
		}
		base = cx.Zext(v, 64)
	default:
		base = p.newVar(name, 64, 0, 0, nil)
		if span != math.MaxUint64 {
			p.addPC(cx.Cmp(OUle, base, cx.Const(span, 64)))
		}
	}
	return p.unterm(cx.Bin(OAdd, base, cx.Const(uint64(lo), 64)))
}

func init() {
	// ---- sym ----
	reg(symPkg+"Int", func(fr *Frame, a []any) any {
		return fr.p.intVar(fr.str(a[0]), int64(fr.int(a[1])), int64(fr.int(a[2])))
	})
	reg(symPkg+"Bool", func(fr *Frame, a []any) any {
		v := fr.p.newVar(fr.str(a[0]), 8, 0, 1, nil)
		return fr.p.unterm(fr.p.ctx.Eq(v, fr.p.ctx.Const(1, 8)))
	})
	reg(symPkg+"Byte", func(fr *Frame, a []any) any {
		al := fr.str(a[1])
		if len(al) == 1 {
			return uint64(al[0])
		}
		return fr.p.newVar(fr.str(a[0]), 8, 0, 255, fr.p.strSet(al))
	})
	reg(symPkg+"Choice", func(fr *Frame, a []any) any {
		n := fr.int(a[1])
		if n <= 1 {
			return uint64(0)
		}
		if n <= 256 {
			v := fr.p.newVar(fr.str(a[0]), 8, 0, uint64(n-1), nil)
			return fr.p.concInt(v, 8)
		}
		return fr.p.concInt(fr.p.intVar(fr.str(a[0]), 0, int64(n-1)), 64)
	})
	reg(symPkg+"Str", func(fr *Frame, a []any) any {
		name := fr.str(a[0])
		min, max := fr.int(a[1]), fr.int(a[2])
		al := fr.str(a[3])
		n := min
		if max > min {
			n = min + fr.p.choose(name+".len", max-min+1)
		}
		b := make([]any, n)
		for i := range b {
			if len(al) == 1 {
				b[i] = uint64(al[0])
			} else {
				b[i] = fr.p.newVar(fmt.Sprintf("%s.%d", name, i), 8, 0, 255, fr.p.strSet(al))
			}
		}
		return mkStr(b)
	})
	reg(symPkg+"Param", func(fr *Frame, a []any) any {
		if v, ok := fr.p.run.params[fr.str(a[0])]; ok {
			return i64(v)
		}
		return a[1]
	})
	reg(symPkg+"Assume", func(fr *Frame, a []any) any { fr.p.assume(a[0]); return nil })
	reg(symPkg+"Assert", func(fr *Frame, a []any) any { fr.p.assert(a[0], fr.str(a[1])); return nil })
	reg(symPkg+"Observe", func(fr *Frame, a []any) any {
		iv := a[1].(Iface)
		fr.p.obs = append(fr.p.obs, obsRec{fr.str(a[0]), fr.p.snapshot(iv.v), iv.t})
		return nil
	})
	reg(symPkg+"Reach", func(fr *Frame, a []any) any { fr.p.covered[fr.str(a[0])] = true; return nil })
	reg(symPkg+"Not", func(fr *Frame, a []any) any { return fr.p.not(a[0]) })
	reg(symPkg+"And", func(fr *Frame, a []any) any {
		var r any = true
		for _, x := range a[0].(Slice) {
			r = fr.p.and(r, x)
		}
		return r
	})
	reg(symPkg+"Or", func(fr *Frame, a []any) any {
		var r any = true
		for _, x := range a[0].(Slice) {
			r = fr.p.and(r, fr.p.not(x))
		}
		return fr.p.not(r)
	})
	reg(symPkg+"Implies", func(fr *Frame, a []any) any {
		return fr.p.not(fr.p.and(a[0], fr.p.not(a[1])))
	})
	reg(symPkg+"IteInt", func(fr *Frame, a []any) any {
		p := fr.p
		if b, ok := a[0].(bool); ok {
			if b {
				return a[1]
			}
			return a[2]
		}
		return p.unterm(p.ctx.Ite(a[0].(*Term), p.intTerm(a[1], 64), p.intTerm(a[2], 64)))
	})
	reg(symPkg+"Eq", func(fr *Frame, a []any) any { return fr.p.strEq(a[0], a[1]) })
	reg(symPkg+"MapOrders", func(fr *Frame, a []any) any { fr.p.mapOrdN = fr.int(a[0]); return nil })
	reg(symPkg+"Delays", func(fr *Frame, a []any) any { fr.p.delays = fr.int(a[0]); return nil })
	reg(symPkg+"Symbolic", konst(true))
	reg(symPkg+"Run", func(fr *Frame, a []any) any {
		o := fr.p.symRun(fr, a[0].(*Closure))
		return Struct{o.kind, i64(o.code), o.msg}
	})
	reg(symPkg+"Gate", nop)
	reg(symPkg+"Lock", nop)
	reg(symPkg+"Unlock", nop)
	reg(symPkg+"Resume", nop)
	reg(symPkg+"Exit", func(fr *Frame, a []any) any {
		pr := fr.g.proc
		if pr.id == 0 {
			panic(&goPanic{val: fr.p.rtError(fmt.Sprintf("exit(%d) outside sym.Run", fr.int(a[0]))), where: fr.p.where()})
		}
		fr.p.endProc(pr, &outcome{kind: "exited", code: fr.int(a[0])})
		panic(procEnd{})
	})
	reg(symPkg+"Crash", func(fr *Frame, a []any) any {
		pr := fr.g.proc
		if pr.id == 0 {
			panic(&goPanic{val: fr.p.rtError("crash outside sym.Run"), where: fr.p.where()})
		}
		fr.p.endProc(pr, &outcome{kind: "crashed"})
		panic(procEnd{})
	})
	reg(symPkg+"SetTag", func(fr *Frame, a []any) any { fr.g.tag = fr.int(a[0]); return nil })
	reg(symPkg+"Tag", func(fr *Frame, a []any) any { return i64(fr.g.tag) })
	reg(symPkg+"Yield", func(fr *Frame, a []any) any { fr.p.preempt(fr); return nil })
	reg(symPkg+"Sleep", func(fr *Frame, a []any) any { fr.p.yield(fr); return nil })
	reg(symPkg+"Event", func(fr *Frame, a []any) any {
		fr.p.preempt(fr)
		fr.p.schedTrace = append(fr.p.schedTrace, fr.p.evalStr(a[0]))
		return nil
	})
	reg(symPkg+"Digest", func(fr *Frame, a []any) any { return fr.p.digest(a[0].(Slice)) })
	reg(symPkg+"Serialize", func(fr *Frame, a []any) any {
		iv := a[0].(Iface)
		fr.p.ser = append(fr.p.ser, Iface{iv.t, fr.p.snapshot(iv.v)})
		s := fmt.Sprintf("\x01SER%08d\x02", len(fr.p.ser)-1)
		return Tuple{Slice(strBytes(s)), Iface{}}
	})
	reg(symPkg+"Deserialize", func(fr *Frame, a []any) any {
		s := fr.str(mkStr([]any(a[0].(Slice))))
		if len(s) < 13 || !strings.HasPrefix(s, "\x01SER") || s[12] != 2 {
			return fr.p.newError("unexpected EOF")
		}
		n, err := strconv.Atoi(s[4:12])
		if err != nil || n >= len(fr.p.ser) {
			return fr.p.newError("gob: corrupted data")
		}
		src := fr.p.ser[n].(Iface)
		dst := a[1].(Iface)
		pt := dst.t.Underlying().(*types.Pointer)
		st := src.t
		if !types.Identical(pt.Elem(), st) {
			return fr.p.newError("gob: type mismatch")
		}
		cell := dst.v.(*any)
		nv := fr.p.snapshot(src.v)
		// gob decodes into an existing map by adding to it
		if m, ok := nv.(*Map); ok {
			if old, ok := (*cell).(*Map); ok && old != nil {
				for i := range m.keys {
					if m.alive[i] {
						fr.p.mapSet(old, m.keys[i], m.vals[i])
					}
				}
				return Iface{}
			}
		}
		storeVal(cell, nv)
		return Iface{}
	})

	// ---- sync ----
	reg("(*sync.Mutex).Lock", func(fr *Frame, a []any) any { fr.p.lock(fr, a[0].(*any)); return nil })
	reg("(*sync.Mutex).Unlock", func(fr *Frame, a []any) any { fr.p.unlock(fr, a[0].(*any)); return nil })
	reg("(*sync.Mutex).TryLock", func(fr *Frame, a []any) any {
		m := fr.p.mutex(a[0].(*any))
		if m.locked || m.readers > 0 {
			return false
		}
		m.locked = true
		return true
	})
	reg("(*internal/sync.Mutex).Lock", intrinsics["(*sync.Mutex).Lock"])
	reg("(*internal/sync.Mutex).Unlock", intrinsics["(*sync.Mutex).Unlock"])
	reg("(*sync.RWMutex).Lock", intrinsics["(*sync.Mutex).Lock"])
	reg("(*sync.RWMutex).Unlock", intrinsics["(*sync.Mutex).Unlock"])
	reg("(*sync.RWMutex).RLock", func(fr *Frame, a []any) any { fr.p.rlock(fr, a[0].(*any)); return nil })
	reg("(*sync.RWMutex).RUnlock", func(fr *Frame, a []any) any { fr.p.runlock(fr, a[0].(*any)); return nil })
	reg("(*sync.WaitGroup).Add", func(fr *Frame, a []any) any {
		fr.p.wgAdd(fr, a[0].(*any), int64(fr.int(a[1])))
		return nil
	})
	reg("(*sync.WaitGroup).Done", func(fr *Frame, a []any) any { fr.p.wgAdd(fr, a[0].(*any), -1); return nil })
	reg("(*sync.WaitGroup).Wait", func(fr *Frame, a []any) any { fr.p.wgWait(fr, a[0].(*any)); return nil })
	reg("(*sync.Cond).Wait", func(fr *Frame, a []any) any {
		k := a[0].(*any)
		c := fr.p.conds[k]
		if c == nil {
			c = &condState{}
			fr.p.conds[k] = c
		}
		c.waitq = append(c.waitq, fr.g)
		l := (*k).(Struct)
		var lk Iface
		for _, f := range l {
			if iv, ok := f.(Iface); ok && iv.t != nil {
				lk = iv
			}
		}
		fr.callMethod(lk, "Unlock")
		fr.p.block(fr, "Cond.Wait")
		fr.callMethod(lk, "Lock")
		return nil
	})
	reg("(*sync.Cond).Signal", func(fr *Frame, a []any) any {
		if c := fr.p.conds[a[0].(*any)]; c != nil && len(c.waitq) > 0 {
			g := c.waitq[0]
			c.waitq = c.waitq[1:]
			fr.p.ready(g)
		}
		return nil
	})
	reg("(*sync.Cond).Broadcast", func(fr *Frame, a []any) any {
		if c := fr.p.conds[a[0].(*any)]; c != nil {
			for _, g := range c.waitq {
				fr.p.ready(g)
			}
			c.waitq = nil
		}
		return nil
	})
	reg("(*sync.Pool).Get", func(fr *Frame, a []any) any {
		s := (*a[0].(*any)).(Struct)
		nf, _ := s[len(s)-1].(*Closure)
		if nf == nil {
			return Iface{}
		}
		return fr.g.callClosure(fr, nf, nil)
	})
	reg("(*sync.Pool).Put", nop)
	smap := func(fr *Frame, k any) *Map {
		m := fr.p.syncMaps[k.(*any)]
		if m == nil {
			at := types.NewInterfaceType(nil, nil)
			m = newMap(types.NewMap(at, at))
			fr.p.syncMaps[k.(*any)] = m
		}
		return m
	}
	reg("(*sync.Map).Load", func(fr *Frame, a []any) any {
		fr.p.preempt(fr)
		m := smap(fr, a[0])
		if i := fr.p.mapFind(m, a[1]); i >= 0 {
			return Tuple{m.vals[i], true}
		}
		return Tuple{Iface{}, false}
	})
	reg("(*sync.Map).Store", func(fr *Frame, a []any) any {
		fr.p.preempt(fr)
		fr.p.mapSet(smap(fr, a[0]), a[1], a[2])
		return nil
	})
	reg("(*sync.Map).LoadOrStore", func(fr *Frame, a []any) any {
		fr.p.preempt(fr)
		m := smap(fr, a[0])
		if i := fr.p.mapFind(m, a[1]); i >= 0 {
			return Tuple{m.vals[i], true}
		}
		fr.p.mapSet(m, a[1], a[2])
		return Tuple{a[2], false}
	})
	reg("(*sync.Map).LoadAndDelete", func(fr *Frame, a []any) any {
		fr.p.preempt(fr)
		m := smap(fr, a[0])
		if i := fr.p.mapFind(m, a[1]); i >= 0 {
			v := m.vals[i]
			fr.p.mapDelete(m, a[1])
			return Tuple{v, true}
		}
		return Tuple{Iface{}, false}
	})
	reg("(*sync.Map).Delete", func(fr *Frame, a []any) any {
		fr.p.preempt(fr)
		fr.p.mapDelete(smap(fr, a[0]), a[1])
		return nil
	})
	reg("(*sync.Map).Range", func(fr *Frame, a []any) any {
		it := fr.p.newMapIter(smap(fr, a[0]))
		for {
			k, v, ok := it.next()
			if !ok {
				return nil
			}
			if !fr.p.cond(fr.g.callClosure(fr, a[1].(*Closure), []any{k, v})) {
				return nil
			}
		}
	})

	// ---- sync/atomic and runtime internals ----
	for _, w := range []struct {
		n string
		w int
	}{{"Int32", 32}, {"Uint32", 32}, {"Int64", 64}, {"Uint64", 64}, {"Uintptr", 64}, {"Pointer", 0}} {
		w := w
		for _, pk := range []string{"sync/atomic."} {
			reg(pk+"Load"+w.n, func(fr *Frame, a []any) any { fr.p.preempt(fr); return *a[0].(*any) })
			reg(pk+"Store"+w.n, func(fr *Frame, a []any) any {
				fr.p.preempt(fr)
				*a[0].(*any) = a[1]
				return nil
			})
			reg(pk+"Swap"+w.n, func(fr *Frame, a []any) any {
				fr.p.preempt(fr)
				old := *a[0].(*any)
				*a[0].(*any) = a[1]
				return old
			})
			if w.w > 0 {
				reg(pk+"Add"+w.n, func(fr *Frame, a []any) any {
					fr.p.preempt(fr)
					c := a[0].(*any)
					*c = fr.p.unterm(fr.p.ctx.Bin(OAdd, fr.p.intTerm(*c, w.w), fr.p.intTerm(a[1], w.w)))
					return *c
				})
			}
			reg(pk+"CompareAndSwap"+w.n, func(fr *Frame, a []any) any {
				fr.p.preempt(fr)
				c := a[0].(*any)
				var eq any
				if w.w > 0 {
					eq = fr.p.unterm(fr.p.ctx.Eq(fr.p.intTerm(*c, w.w), fr.p.intTerm(a[1], w.w)))
				} else {
					eq = *c == a[1]
				}
				if fr.p.cond(eq) {
					*c = a[2]
					return true
				}
				return false
			})
		}
	}
	// atomic.Value: its single field holds the interface
	reg("(*sync/atomic.Value).Load", func(fr *Frame, a []any) any { return (*a[0].(*any)).(Struct)[0] })
	reg("(*sync/atomic.Value).Store", func(fr *Frame, a []any) any { (*a[0].(*any)).(Struct)[0] = a[1]; return nil })
	// atomic.Pointer[T]
	ptrField := func(a []any) *any {
		s := (*a[0].(*any)).(Struct)
		return &s[len(s)-1]
	}
	unp := func(v any) any {
		if u, ok := v.(UPtr); ok {
			if u.v == nil {
				return nilPtr
			}
			return u.v
		}
		return v
	}
	reg("(*sync/atomic.Pointer[T]).Load", func(fr *Frame, a []any) any { return unp(*ptrField(a)) })
	reg("(*sync/atomic.Pointer[T]).Store", func(fr *Frame, a []any) any { *ptrField(a) = a[1]; return nil })
	reg("(*sync/atomic.Pointer[T]).Swap", func(fr *Frame, a []any) any {
		o := unp(*ptrField(a))
		*ptrField(a) = a[1]
		return o
	})
	reg("(*sync/atomic.Pointer[T]).CompareAndSwap", func(fr *Frame, a []any) any {
		f := ptrField(a)
		if unp(*f) == a[1] {
			*f = a[2]
			return true
		}
		return false
	})
	reg("runtime.Gosched", func(fr *Frame, a []any) any { fr.p.yield(fr); return nil })
	reg("runtime.GC", nop)
	reg("runtime.KeepAlive", nop)
	reg("runtime.SetFinalizer", nop)
	reg("runtime.AddCleanup", func(fr *Frame, a []any) any { return Struct{uint64(0), uint64(0)} })
	reg("runtime.NumCPU", func(fr *Frame, a []any) any { return uint64(8) })
	reg("runtime.GOMAXPROCS", func(fr *Frame, a []any) any { return uint64(8) })
	reg("runtime.Caller", konst(Tuple{uint64(0), "?", uint64(0), false}))
	reg("runtime.Callers", konst(uint64(0)))
	reg("runtime.Stack", konst(uint64(0)))
	reg("runtime/debug.Stack", konst(Slice(nil)))
	reg("runtime/debug.PrintStack", nop)
	reg("internal/godebug.New", func(fr *Frame, a []any) any {
		c := new(any)
		*c = Struct{a[0]}
		return c
	})
	reg("(*internal/godebug.Setting).Value", konst(""))
	reg("(*internal/godebug.Setting).IncNonDefault", nop)
	reg("(*internal/godebug.Setting).Name", konst(""))
	reg("internal/abi.NoEscape", func(fr *Frame, a []any) any { return a[0] })
	reg("internal/abi.Escape", func(fr *Frame, a []any) any { return a[0] })
	reg("(*strings.Builder).copyCheck", nop)
	reg("syscall.runtime_envs", func(fr *Frame, a []any) any { return Slice{} })
	reg("syscall.Getrlimit", konst(Iface{}))
	reg("os.runtime_args", func(fr *Frame, a []any) any { return Slice{"pkgr"} })
	reg("os.NewFile", konst((*any)(nil)))
	reg("internal/syscall/unix.fcntl", func(fr *Frame, a []any) any { return Tuple{uint64(0), uint64(0)} })
	reg("time.runtimeNano", konst(uint64(1)))
	reg("time.runtimeNow", func(fr *Frame, a []any) any { return Tuple{uint64(1700000000), uint64(0), uint64(1)} })
	reg("internal/testlog.Getenv", nop)
	reg("internal/testlog.Open", nop)
	reg("internal/testlog.Stat", nop)
	reg("math.Float64bits", func(fr *Frame, a []any) any { return math.Float64bits(a[0].(float64)) })
	reg("math.Float64frombits", func(fr *Frame, a []any) any { return math.Float64frombits(fr.p.concInt(a[0], 64)) })
	reg("math.Float32bits", func(fr *Frame, a []any) any { return uint64(math.Float32bits(float32(a[0].(float64)))) })
	reg("math.Float32frombits", func(fr *Frame, a []any) any {
		return float64(math.Float32frombits(uint32(fr.p.concInt(a[0], 32))))
	})
	for n, f := range map[string]func(float64) float64{"Floor": math.Floor, "Ceil": math.Ceil, "Sqrt": math.Sqrt, "Trunc": math.Trunc, "Abs": math.Abs, "Log": math.Log, "Exp": math.Exp, "Log2": math.Log2, "Log10": math.Log10, "Round": math.Round} {
		f := f
		reg("math."+n, func(fr *Frame, a []any) any { return f(a[0].(float64)) })
	}
	reg("math.Pow", func(fr *Frame, a []any) any { return math.Pow(a[0].(float64), a[1].(float64)) })
	reg("math.Mod", func(fr *Frame, a []any) any { return math.Mod(a[0].(float64), a[1].(float64)) })
	reg("math.Max", func(fr *Frame, a []any) any { return math.Max(a[0].(float64), a[1].(float64)) })
	reg("math.Min", func(fr *Frame, a []any) any { return math.Min(a[0].(float64), a[1].(float64)) })
	one := func(f func(x uint64) int, w int) Intrinsic {
		return func(fr *Frame, a []any) any {
			if x, ok := a[0].(uint64); ok {
				return uint64(f(x))
			}
			return notHandled
		}
	}
	reg("math/bits.Len64", one(func(x uint64) int { return bits.Len64(x) }, 64))
	reg("math/bits.Len", one(func(x uint64) int { return bits.Len64(x) }, 64))
	reg("math/bits.Len32", one(func(x uint64) int { return bits.Len32(uint32(x)) }, 32))
	reg("math/bits.TrailingZeros64", one(func(x uint64) int { return bits.TrailingZeros64(x) }, 64))
	reg("math/bits.TrailingZeros32", one(func(x uint64) int { return bits.TrailingZeros32(uint32(x)) }, 32))
	reg("math/bits.OnesCount64", one(func(x uint64) int { return bits.OnesCount64(x) }, 64))
	reg("internal/reflectlite.Swapper", func(fr *Frame, a []any) any {
		s := a[0].(Iface).v.(Slice)
		return &Closure{name: "swapper", native: func(fr *Frame, b []any) any {
			i, j := fr.int(b[0]), fr.int(b[1])
			x, y := copyVal(s[i]), copyVal(s[j])
			storeVal(&s[i], y)
			storeVal(&s[j], x)
			return nil
		}}
	})
	reg("reflect.Swapper", intrinsics["internal/reflectlite.Swapper"])
}

func (fr *Frame) callMethod(iv Iface, name string, args ...any) any {
	f := fr.p.e.methodByName(iv.t, nil, name)
	if f == nil {
		panic(unsupported("no method " + name + " on " + iv.t.String()))
	}
	return fr.g.call(fr, f, append([]any{iv.v}, args...), nil)
}

// snapshot deep-copies a value (for Observe and serialisation).
func (p *Path) snapshot(v any) any {
	switch v := v.(type) {
	case Struct:
		r := make(Struct, len(v))
		for i := range v {
			r[i] = p.snapshot(v[i])
		}
		return r
	case Array:
		r := make(Array, len(v))
		for i := range v {
			r[i] = p.snapshot(v[i])
		}
		return r
	case Slice:
		if v == nil {
			return v
		}
		r := make(Slice, len(v))
		for i := range v {
			r[i] = p.snapshot(v[i])
		}
		return r
	case *Map:
		if v == nil {
			return v
		}
		r := &Map{kt: v.kt, et: v.et, idx: map[any]int{}}
		for i := range v.keys {
			if v.alive[i] {
				j := len(r.keys)
				r.keys = append(r.keys, v.keys[i])
				r.vals = append(r.vals, p.snapshot(v.vals[i]))
				r.alive = append(r.alive, true)
				r.n++
				if h, ok := hashKey(v.keys[i]); ok {
					r.idx[h] = j
				} else {
					r.sym++
				}
			}
		}
		return r
	case *any:
		if v == nil {
			return v
		}
		c := new(any)
		*c = p.snapshot(*v)
		return c
	case Iface:
		if v.t == nil {
			return v
		}
		return Iface{v.t, p.snapshot(v.v)}
	}
	return v
}

// show renders a value under the path's model, in the format of the native sym.Observe.
func (p *Path) show(v any, t types.Type) string {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		info := u.Info()
		switch {
		case info&types.IsString != 0:
			return fmt.Sprintf("%q", p.evalStr(v))
		case info&types.IsBoolean != 0:
			if b, ok := v.(bool); ok {
				return fmt.Sprint(b)
			}
			return fmt.Sprint(p.evalTerm(v.(*Term)) != 0)
		case info&types.IsInteger != 0:
			w, signed, _ := intInfo(u)
			var x uint64
			if c, ok := v.(uint64); ok {
				x = c
			} else {
				x = p.evalTerm(v.(*Term))
			}
			if signed {
				return fmt.Sprint(sextW(x, w))
			}
			return fmt.Sprint(x)
		}
	case *types.Slice:
		var s []string
		for _, e := range v.(Slice) {
			s = append(s, p.show(e, u.Elem()))
		}
		return "[" + strings.Join(s, " ") + "]"
	case *types.Array:
		var s []string
		for _, e := range v.(Array) {
			s = append(s, p.show(e, u.Elem()))
		}
		return "[" + strings.Join(s, " ") + "]"
	case *types.Map:
		var s []string
		if m := v.(*Map); m != nil {
			for i := range m.keys {
				if m.alive[i] {
					s = append(s, p.show(m.keys[i], u.Key())+":"+p.show(m.vals[i], u.Elem()))
				}
			}
		}
		sort.Strings(s)
		return "map[" + strings.Join(s, " ") + "]"
	case *types.Interface:
		iv := v.(Iface)
		if iv.t == nil {
			return "nil"
		}
		return p.show(iv.v, iv.t)
	case *types.Pointer:
		c, ok := v.(*any)
		if !ok || c == nil {
			return "nil"
		}
		return p.show(*c, u.Elem())
	case *types.Struct:
		var s []string
		for i, e := range v.(Struct) {
			s = append(s, p.show(e, u.Field(i).Type()))
		}
		return "{" + strings.Join(s, " ") + "}"
	}
	return "?"
}

func (p *Path) renderObs() []string {
	var r []string
	for _, o := range p.obs {
		if o.t == nil {
			r = append(r, o.label+"=nil")
			continue
		}
		r = append(r, o.label+"="+p.show(o.val, o.t))
	}
	return r
}

// digest is md5 on concrete bytes and an injective function on symbolic ones.
func (p *Path) digest(b Slice) any {
	conc := make([]byte, len(b))
	all := true
	for i, x := range b {
		c, ok := x.(uint64)
		if !ok {
			all = false
			break
		}
		conc[i] = byte(c)
	}
	for _, h := range p.hashes {
		if len(h.in) != len(b) {
			continue
		}
		if p.cond(p.strEq(mkStr(h.in), mkStr([]any(b)))) {
			return digestArr(h.out)
		}
	}
	var out [16]byte
	if all {
		out = md5.Sum(conc)
	} else {
		out = md5.Sum([]byte(fmt.Sprintf("symbolic digest %d", len(p.hashes))))
	}
	p.hashes = append(p.hashes, hashRec{append([]any(nil), b...), string(out[:])})
	return digestArr(string(out[:]))
}

func digestArr(s string) any {
	a := make(Array, 16)
	for i := range a {
		a[i] = uint64(s[i])
	}
	return a
}

func (p *Path) tryErrorString(iv Iface) (string, bool) {
	if p.cur == nil {
		return "", false
	}
	fr := &Frame{g: p.cur, p: p, fn: p.run.harness}
	if f := p.e.methodByName(iv.t, nil, "Error"); f != nil {
		return p.evalStr(fr.g.call(fr, f, []any{iv.v}, nil)), true
	}
	if f := p.e.methodByName(iv.t, nil, "String"); f != nil {
		return p.evalStr(fr.g.call(fr, f, []any{iv.v}, nil)), true
	}
	return "", false
}
