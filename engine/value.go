package main

import (
	"fmt"
	"go/types"
	"math"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Values of the interpreted program.
//
//	bool            bool or *Term of width 0
//	integers        uint64 (truncated to the type's width) or *Term of that width
//	floats          float64
//	complex         complex128
//	string          string or *SStr
//	pointers        *any
//	slices          Slice
//	structs/arrays  Struct / Array
//	maps            *Map
//	channels        *Chan
//	functions       *Closure
//	interfaces      Iface
//	tuples          Tuple
type (
	Struct []any
	Array  []any
	Slice  []any
	Tuple  []any
	Iface  struct {
		t types.Type // canonical
		v any
	}
	SStr    struct{ b []any }
	Closure struct {
		fn     *Fn
		env    []any
		native func(fr *Frame, args []any) any
		name   string
	}
	// UPtr is an unsafe.Pointer holding some pointer-like value
	UPtr struct{ v any }
)

var nilPtr = (*any)(nil)
var nilClosure = (*Closure)(nil)

func isAgg(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

func copyVal(v any) any {
	switch v := v.(type) {
	case Struct:
		r := make(Struct, len(v))
		for i, e := range v {
			switch e.(type) {
			case Struct, Array:
				r[i] = copyVal(e)
			default:
				r[i] = e
			}
		}
		return r
	case Array:
		r := make(Array, len(v))
		for i, e := range v {
			switch e.(type) {
			case Struct, Array:
				r[i] = copyVal(e)
			default:
				r[i] = e
			}
		}
		return r
	}
	return v
}

// storeVal assigns v to the cell, keeping the addresses of sub-cells of aggregates.
func storeVal(addr *any, v any) {
	switch v := v.(type) {
	case Struct:
		if dst, ok := (*addr).(Struct); ok && len(dst) == len(v) {
			for i := range v {
				switch v[i].(type) {
				case Struct, Array:
					storeVal(&dst[i], v[i])
				default:
					dst[i] = v[i]
				}
			}
			return
		}
		*addr = copyVal(v)
	case Array:
		if dst, ok := (*addr).(Array); ok && len(dst) == len(v) {
			for i := range v {
				switch v[i].(type) {
				case Struct, Array:
					storeVal(&dst[i], v[i])
				default:
					dst[i] = v[i]
				}
			}
			return
		}
		*addr = copyVal(v)
	default:
		*addr = v
	}
}

func intInfo(t types.Type) (w int, signed bool, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Int16:
		return 16, true, true
	case types.Int8:
		return 8, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint8:
		return 8, false, true
	}
	return 0, false, false
}

func zeroVal(t types.Type) any {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		info := u.Info()
		switch {
		case info&types.IsBoolean != 0:
			return false
		case info&types.IsInteger != 0:
			return uint64(0)
		case info&types.IsFloat != 0:
			return float64(0)
		case info&types.IsComplex != 0:
			return complex128(0)
		case info&types.IsString != 0:
			return ""
		case u.Kind() == types.UnsafePointer:
			return UPtr{}
		case u.Kind() == types.UntypedNil:
			return nil
		}
	case *types.Pointer:
		return nilPtr
	case *types.Slice:
		return Slice(nil)
	case *types.Map:
		return (*Map)(nil)
	case *types.Chan:
		return (*Chan)(nil)
	case *types.Signature:
		return nilClosure
	case *types.Interface:
		return Iface{}
	case *types.Struct:
		n := u.NumFields()
		s := make(Struct, n)
		for i := 0; i < n; i++ {
			s[i] = zeroVal(u.Field(i).Type())
		}
		return s
	case *types.Array:
		n := int(u.Len())
		s := make(Array, n)
		if n > 0 {
			z := zeroVal(u.Elem())
			agg := isAgg(u.Elem())
			for i := 0; i < n; i++ {
				if agg && i > 0 {
					s[i] = copyVal(z)
				} else {
					s[i] = z
				}
			}
		}
		return s
	case *types.Tuple:
		n := u.Len()
		s := make(Tuple, n)
		for i := 0; i < n; i++ {
			s[i] = zeroVal(u.At(i).Type())
		}
		return s
	case *types.TypeParam:
		panic(unsupported("zero of type parameter"))
	}
	panic(unsupported("zero value of " + t.String()))
}

// ---- strings ----

func mkStr(b []any) any {
	for _, e := range b {
		if _, ok := e.(uint64); !ok {
			return &SStr{append([]any(nil), b...)}
		}
	}
	r := make([]byte, len(b))
	for i, e := range b {
		r[i] = byte(e.(uint64))
	}
	return string(r)
}

func strLen(v any) int {
	switch v := v.(type) {
	case string:
		return len(v)
	case *SStr:
		return len(v.b)
	}
	panic(fmt.Sprintf("strLen %T", v))
}

func strAt(v any, i int) any {
	switch v := v.(type) {
	case string:
		return uint64(v[i])
	case *SStr:
		return v.b[i]
	}
	panic("strAt")
}

func strBytes(v any) []any {
	switch v := v.(type) {
	case string:
		r := make([]any, len(v))
		for i := 0; i < len(v); i++ {
			r[i] = uint64(v[i])
		}
		return r
	case *SStr:
		return v.b
	}
	panic(fmt.Sprintf("strBytes %T", v))
}

func strSlice(v any, lo, hi int) any {
	switch v := v.(type) {
	case string:
		return v[lo:hi]
	case *SStr:
		return mkStr(v.b[lo:hi])
	}
	panic("strSlice")
}

func strCat(a, b any) any {
	as, aok := a.(string)
	bs, bok := b.(string)
	if aok && bok {
		return as + bs
	}
	if aok && as == "" {
		return b
	}
	if bok && bs == "" {
		return a
	}
	x, y := strBytes(a), strBytes(b)
	r := make([]any, 0, len(x)+len(y))
	r = append(r, x...)
	r = append(r, y...)
	return &SStr{r}
}

func (p *Path) byteTerm(v any) *Term {
	switch v := v.(type) {
	case uint64:
		return p.ctx.Const(v, 8)
	case *Term:
		return v
	}
	panic("byteTerm")
}

func (p *Path) strEq(a, b any) any {
	as, aok := a.(string)
	bs, bok := b.(string)
	if aok && bok {
		return as == bs
	}
	n := strLen(a)
	if n != strLen(b) {
		return false
	}
	r := p.ctx.tTrue
	for i := 0; i < n; i++ {
		x, y := strAt(a, i), strAt(b, i)
		if xc, ok := x.(uint64); ok {
			if yc, ok := y.(uint64); ok {
				if xc != yc {
					return false
				}
				continue
			}
		}
		r = p.ctx.And(r, p.ctx.Eq(p.byteTerm(x), p.byteTerm(y)))
		if r == p.ctx.tFals {
			return false
		}
	}
	return p.unterm(r)
}

// strLess is a<b, lexicographically.
func (p *Path) strLess(a, b any) any {
	as, aok := a.(string)
	bs, bok := b.(string)
	if aok && bok {
		return as < bs
	}
	la, lb := strLen(a), strLen(b)
	n := la
	if lb < n {
		n = lb
	}
	r := p.ctx.Bool(la < lb)
	for i := n - 1; i >= 0; i-- {
		x, y := p.byteTerm(strAt(a, i)), p.byteTerm(strAt(b, i))
		r = p.ctx.Or(p.ctx.Cmp(OUlt, x, y), p.ctx.And(p.ctx.Eq(x, y), r))
	}
	return p.unterm(r)
}

// unterm turns constant terms into concrete values.
func (p *Path) unterm(t *Term) any {
	if t.op == OConst {
		if t.w == 0 {
			return t.c != 0
		}
		return t.c
	}
	return t
}

func (p *Path) boolTerm(v any) *Term {
	switch v := v.(type) {
	case bool:
		return p.ctx.Bool(v)
	case *Term:
		return v
	}
	panic(fmt.Sprintf("boolTerm %T", v))
}

func (p *Path) intTerm(v any, w int) *Term {
	switch v := v.(type) {
	case uint64:
		return p.ctx.Const(v, w)
	case *Term:
		return v
	}
	panic(fmt.Sprintf("intTerm %T", v))
}

func (p *Path) and(a, b any) any {
	if x, ok := a.(bool); ok {
		if !x {
			return false
		}
		return b
	}
	if y, ok := b.(bool); ok {
		if !y {
			return false
		}
		return a
	}
	return p.unterm(p.ctx.And(a.(*Term), b.(*Term)))
}

func (p *Path) not(a any) any {
	if x, ok := a.(bool); ok {
		return !x
	}
	return p.unterm(p.ctx.Not(a.(*Term)))
}

// equals compares two values of static type t.
func (p *Path) equals(t types.Type, a, b any) any {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		info := u.Info()
		switch {
		case info&types.IsString != 0:
			return p.strEq(a, b)
		case info&types.IsBoolean != 0:
			x, xok := a.(bool)
			y, yok := b.(bool)
			if xok && yok {
				return x == y
			}
			return p.unterm(p.ctx.Eq(p.boolTerm(a), p.boolTerm(b)))
		case info&types.IsInteger != 0:
			x, xok := a.(uint64)
			y, yok := b.(uint64)
			if xok && yok {
				return x == y
			}
			w, _, _ := intInfo(u)
			return p.unterm(p.ctx.Eq(p.intTerm(a, w), p.intTerm(b, w)))
		case info&types.IsFloat != 0:
			return a.(float64) == b.(float64)
		case info&types.IsComplex != 0:
			return a.(complex128) == b.(complex128)
		}
		if u.Kind() == types.UnsafePointer {
			return a == b
		}
	case *types.Struct:
		x, xok := a.(Struct)
		y, yok := b.(Struct)
		if !xok || !yok {
			return a == b
		}
		var r any = true
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == "_" {
				continue
			}
			r = p.and(r, p.equals(u.Field(i).Type(), x[i], y[i]))
			if r == false {
				return false
			}
		}
		return r
	case *types.Array:
		x, y := a.(Array), b.(Array)
		var r any = true
		for i := range x {
			r = p.and(r, p.equals(u.Elem(), x[i], y[i]))
			if r == false {
				return false
			}
		}
		return r
	case *types.Interface:
		x, xok := a.(Iface)
		y, yok := b.(Iface)
		if !xok || !yok {
			panic(fmt.Sprintf("equals iface %T %T", a, b))
		}
		return p.ifaceEq(x, y)
	case *types.Slice:
		// only comparison with nil
		return a.(Slice) == nil && b.(Slice) == nil
	case *types.Signature:
		return a.(*Closure) == nil && b.(*Closure) == nil
	}
	return a == b
}

func (p *Path) ifaceEq(x, y Iface) any {
	if x.t == nil || y.t == nil {
		return x.t == nil && y.t == nil
	}
	if x.t != y.t {
		return false
	}
	if !types.Comparable(x.t) {
		p.rtPanic("runtime error: comparing uncomparable type " + x.t.String())
	}
	return p.equals(x.t, x.v, y.v)
}

// ---- maps ----

type Map struct {
	kt, et types.Type
	keys   []any
	vals   []any
	alive  []bool
	n      int
	idx    map[any]int
	sym    int // number of live entries with symbolic keys
}

func newMap(mt *types.Map) *Map {
	return &Map{kt: mt.Key(), et: mt.Elem(), idx: map[any]int{}}
}

// hashKey gives a Go-comparable key when k is concrete.
func hashKey(k any) (any, bool) {
	switch k := k.(type) {
	case string, uint64, bool, *any, *Chan, *Map, *Closure, *RType, *rv:
		return k, true
	case float64:
		if k == 0 {
			return float64(0), true
		}
		if math.IsNaN(k) {
			return new(int), true
		}
		return k, true
	case *Term, *SStr:
		return nil, false
	case Iface:
		if k.t == nil {
			return nilIfaceKey{}, true
		}
		h, ok := hashKey(k.v)
		if !ok {
			return nil, false
		}
		return ifaceKey{k.t, h}, true
	case Struct:
		return hashSeq([]any(k))
	case Array:
		return hashSeq([]any(k))
	case UPtr:
		return hashKey(k.v)
	case nil:
		return nilIfaceKey{}, true
	}
	if k, ok := k.(interface{ opaqueKey() }); ok {
		return k, true
	}
	panic(unsupported(fmt.Sprintf("map key of type %T", k)))
}

type nilIfaceKey struct{}
type ifaceKey struct {
	t types.Type
	h any
}

func hashSeq(s []any) (any, bool) {
	var sb strings.Builder
	for _, e := range s {
		h, ok := hashKey(e)
		if !ok {
			return nil, false
		}
		switch h := h.(type) {
		case ifaceKey:
			fmt.Fprintf(&sb, "%T|%p|%v;", h, h.t, h.h)
		case string:
			fmt.Fprintf(&sb, "s%q;", h)
		default:
			fmt.Fprintf(&sb, "%T|%v;", h, h)
		}
	}
	return "\x00agg:" + sb.String(), true
}

func (p *Path) mapFind(m *Map, k any) int {
	if m == nil {
		return -1
	}
	h, conc := hashKey(k)
	if conc {
		if i, ok := m.idx[h]; ok {
			return i
		}
		if m.sym == 0 {
			return -1
		}
	}
	for i := range m.keys {
		if !m.alive[i] {
			continue
		}
		c := p.equals(m.kt, k, m.keys[i])
		if b, ok := c.(bool); ok {
			if b {
				return i
			}
			continue
		}
		if p.branch(c.(*Term)) {
			return i
		}
	}
	return -1
}

func (p *Path) mapSet(m *Map, k, v any) {
	if m == nil {
		p.rtPanic("assignment to entry in nil map")
	}
	if i := p.mapFind(m, k); i >= 0 {
		m.vals[i] = v
		return
	}
	i := len(m.keys)
	m.keys = append(m.keys, k)
	m.vals = append(m.vals, v)
	m.alive = append(m.alive, true)
	m.n++
	if h, conc := hashKey(k); conc {
		m.idx[h] = i
	} else {
		m.sym++
	}
}

func (p *Path) mapDelete(m *Map, k any) {
	i := p.mapFind(m, k)
	if i < 0 {
		return
	}
	m.alive[i] = false
	m.n--
	if h, conc := hashKey(m.keys[i]); conc {
		delete(m.idx, h)
	} else {
		m.sym--
	}
}

func (m *Map) clear() {
	m.keys, m.vals, m.alive, m.n, m.sym = nil, nil, nil, 0, 0
	m.idx = map[any]int{}
}

type mapIter struct {
	m     *Map
	order []int
	pos   int
}

type strIter struct {
	s   any
	pos int
}

func (p *Path) newMapIter(m *Map) *mapIter {
	it := &mapIter{m: m}
	if m == nil {
		return it
	}
	for i := range m.keys {
		if m.alive[i] {
			it.order = append(it.order, i)
		}
	}
	n := len(it.order)
	if n > 1 {
		switch p.mapOrder() {
		case 1: // reversed
			for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
				it.order[i], it.order[j] = it.order[j], it.order[i]
			}
		case 2: // rotated
			it.order = append(append([]int(nil), it.order[1:]...), it.order[0])
		case 3: // rotated the other way
			it.order = append([]int{it.order[n-1]}, it.order[:n-1]...)
		case 4, 5: // by key, so that copying from map to map does not undo it
			ks := map[int]string{}
			for _, i := range it.order {
				s, ok := m.keys[i].(string)
				if !ok {
					return it
				}
				ks[i] = s
			}
			sort.SliceStable(it.order, func(a, b int) bool {
				if p.mapOrder() == 5 {
					a, b = b, a
				}
				return ks[it.order[a]] < ks[it.order[b]]
			})
		}
	}
	return it
}

func (it *mapIter) next() (k, v any, ok bool) {
	for it.pos < len(it.order) {
		i := it.order[it.pos]
		it.pos++
		if i < len(it.m.alive) && it.m.alive[i] {
			return it.m.keys[i], it.m.vals[i], true
		}
	}
	return nil, nil, false
}

// ---- misc ----

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

type unsupportedErr struct{ msg string }

func unsupported(msg string) *unsupportedErr { return &unsupportedErr{msg} }

func fnName(f *ssa.Function) string { return f.String() }
