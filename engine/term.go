package main

import (
	"fmt"
	"math/bits"
	"strings"
)

// Terms: hash-consed per execution path.  Width 0 is the Bool sort, otherwise a bit-vector sort.

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot  // bool
	OAnd  // bool
	OOr   // bool
	OEq   // bool, args bv or bool
	OIte  // any
	OUlt  // bool
	OUle  // bool
	OSlt  // bool
	OSle  // bool
	OAdd  // bv
	OSub  // bv
	OMul  // bv
	OUdiv // bv
	OUrem
	OSdiv
	OSrem
	OBand
	OBor
	OBxor
	OBnot
	ONeg
	OShl
	OLshr
	OAshr
	OZext
	OSext
	OExtract // c = lo ; w = width
)

var opName = map[Op]string{ONot: "not", OAnd: "and", OOr: "or", OEq: "=", OIte: "ite", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle",
	OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUdiv: "bvudiv", OUrem: "bvurem", OSdiv: "bvsdiv", OSrem: "bvsrem",
	OBand: "bvand", OBor: "bvor", OBxor: "bvxor", OBnot: "bvnot", ONeg: "bvneg", OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr"}

type Term struct {
	id      int
	op      Op
	w       int
	c       uint64
	a, b, d *Term
	name    string // OVar
	vars    []int  // sorted ids of variables occurring (var index)
	vidx    int    // OVar: index in ctx.vars
}

type tkey struct {
	op      Op
	w       int
	c       uint64
	a, b, d int
}

type Ctx struct {
	tab   map[tkey]*Term
	n     int
	vars  []*Term
	byNm  map[string]*Term
	tTrue *Term
	tFals *Term
}

func newCtx() *Ctx {
	c := &Ctx{tab: map[tkey]*Term{}, byNm: map[string]*Term{}}
	c.tFals = c.mk(OConst, 0, 0, nil, nil, nil)
	c.tTrue = c.mk(OConst, 0, 1, nil, nil, nil)
	return c
}

func tid(t *Term) int {
	if t == nil {
		return -1
	}
	return t.id
}

func mergeVars(a, b []int) []int {
	if len(a) == 0 {
		return b
	}
	if len(b) == 0 {
		return a
	}
	if len(a) == len(b) {
		same := true
		for i := range a {
			if a[i] != b[i] {
				same = false
				break
			}
		}
		if same {
			return a
		}
	}
	r := make([]int, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) && j < len(b) {
		switch {
		case a[i] < b[j]:
			r = append(r, a[i])
			i++
		case a[i] > b[j]:
			r = append(r, b[j])
			j++
		default:
			r = append(r, a[i])
			i++
			j++
		}
	}
	r = append(r, a[i:]...)
	r = append(r, b[j:]...)
	return r
}

func (x *Ctx) mk(op Op, w int, c uint64, a, b, d *Term) *Term {
	k := tkey{op, w, c, tid(a), tid(b), tid(d)}
	if t, ok := x.tab[k]; ok {
		return t
	}
	t := &Term{id: x.n, op: op, w: w, c: c, a: a, b: b, d: d}
	x.n++
	if a != nil {
		t.vars = a.vars
		if b != nil {
			t.vars = mergeVars(t.vars, b.vars)
		}
		if d != nil {
			t.vars = mergeVars(t.vars, d.vars)
		}
	}
	x.tab[k] = t
	return t
}

func (x *Ctx) Var(name string, w int) *Term {
	if t, ok := x.byNm[name]; ok {
		if t.w != w {
			panic("variable " + name + " redeclared with another width")
		}
		return t
	}
	t := &Term{id: x.n, op: OVar, w: w, name: name, vidx: len(x.vars)}
	x.n++
	t.vars = []int{t.vidx}
	x.vars = append(x.vars, t)
	x.byNm[name] = t
	return t
}

func maskW(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(w)) - 1
}

func sextW(v uint64, w int) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := uint(64 - w)
	return int64(v<<sh) >> sh
}

func (x *Ctx) Const(v uint64, w int) *Term { return x.mk(OConst, w, v&maskW(w), nil, nil, nil) }
func (x *Ctx) Bool(b bool) *Term {
	if b {
		return x.tTrue
	}
	return x.tFals
}

func (t *Term) isConst() bool { return t.op == OConst }

func (x *Ctx) Not(a *Term) *Term {
	if a.op == OConst {
		return x.Bool(a.c == 0)
	}
	if a.op == ONot {
		return a.a
	}
	return x.mk(ONot, 0, 0, a, nil, nil)
}

func (x *Ctx) And(a, b *Term) *Term {
	if a == x.tFals || b == x.tFals {
		return x.tFals
	}
	if a == x.tTrue || a == b {
		return b
	}
	if b == x.tTrue {
		return a
	}
	if (a.op == ONot && a.a == b) || (b.op == ONot && b.a == a) {
		return x.tFals
	}
	if a.id > b.id {
		a, b = b, a
	}
	return x.mk(OAnd, 0, 0, a, b, nil)
}

func (x *Ctx) Or(a, b *Term) *Term {
	if a == x.tTrue || b == x.tTrue {
		return x.tTrue
	}
	if a == x.tFals || a == b {
		return b
	}
	if b == x.tFals {
		return a
	}
	if (a.op == ONot && a.a == b) || (b.op == ONot && b.a == a) {
		return x.tTrue
	}
	if a.id > b.id {
		a, b = b, a
	}
	return x.mk(OOr, 0, 0, a, b, nil)
}

func (x *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return x.tTrue
	}
	if a.w != b.w {
		panic(fmt.Sprintf("Eq width mismatch %d %d", a.w, b.w))
	}
	if a.op == OConst && b.op == OConst {
		return x.Bool(a.c == b.c)
	}
	if a.w == 0 {
		if a.op == OConst {
			a, b = b, a
		}
		if b.op == OConst {
			if b.c != 0 {
				return a
			}
			return x.Not(a)
		}
	}
	if a.op == OConst {
		a, b = b, a
	}
	if b.op == OConst {
		// ite(c, k1, k2) == k
		if a.op == OIte && a.b.op == OConst && a.d.op == OConst {
			e1, e2 := a.b.c == b.c, a.d.c == b.c
			switch {
			case e1 && e2:
				return x.tTrue
			case e1:
				return a.a
			case e2:
				return x.Not(a.a)
			default:
				return x.tFals
			}
		}
		if a.op == OZext {
			if b.c > maskW(a.a.w) {
				return x.tFals
			}
			return x.Eq(a.a, x.Const(b.c, a.a.w))
		}
		if a.op == OSext {
			lo := b.c & maskW(a.a.w)
			if uint64(sextW(lo, a.a.w))&maskW(a.w) != b.c {
				return x.tFals
			}
			return x.Eq(a.a, x.Const(lo, a.a.w))
		}
		if a.op == OAdd && a.b.op == OConst {
			return x.Eq(a.a, x.Const(b.c-a.b.c, a.w))
		}
		if a.op == OSub && a.b.op == OConst {
			return x.Eq(a.a, x.Const(b.c+a.b.c, a.w))
		}
	} else if a.id > b.id {
		a, b = b, a
	}
	return x.mk(OEq, 0, 0, a, b, nil)
}

func (x *Ctx) Ite(c, a, b *Term) *Term {
	if c.op == OConst {
		if c.c != 0 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a.w == 0 {
		if a == x.tTrue {
			return x.Or(c, b)
		}
		if a == x.tFals {
			return x.And(x.Not(c), b)
		}
		if b == x.tTrue {
			return x.Or(x.Not(c), a)
		}
		if b == x.tFals {
			return x.And(c, a)
		}
	}
	if c.op == ONot {
		return x.Ite(c.a, b, a)
	}
	return x.mk(OIte, a.w, 0, c, a, b)
}

// upper bound (unsigned) known syntactically
func ub(t *Term) uint64 {
	switch t.op {
	case OConst:
		return t.c
	case OZext:
		return ub(t.a)
	case OIte:
		a, b := ub(t.b), ub(t.d)
		if a > b {
			return a
		}
		return b
	case OBand:
		a, b := ub(t.a), ub(t.b)
		if a < b {
			return a
		}
		return b
	case OLshr:
		if t.b.op == OConst && t.b.c < 64 {
			return ub(t.a) >> t.b.c
		}
	case OAdd:
		a, b := ub(t.a), ub(t.b)
		if s := a + b; s >= a && s <= maskW(t.w) {
			return s
		}
	case OMul:
		hi, lo := bits.Mul64(ub(t.a), ub(t.b))
		if hi == 0 && lo <= maskW(t.w) {
			return lo
		}
	}
	return maskW(t.w)
}

func evalOp(op Op, w int, a, b uint64) uint64 { // operand width w for comparisons
	m := maskW(w)
	switch op {
	case OUlt:
		return b2u(a < b)
	case OUle:
		return b2u(a <= b)
	case OSlt:
		return b2u(sextW(a, w) < sextW(b, w))
	case OSle:
		return b2u(sextW(a, w) <= sextW(b, w))
	case OAdd:
		return (a + b) & m
	case OSub:
		return (a - b) & m
	case OMul:
		return (a * b) & m
	case OUdiv:
		if b == 0 {
			return m
		}
		return a / b
	case OUrem:
		if b == 0 {
			return a
		}
		return a % b
	case OSdiv:
		sa, sb := sextW(a, w), sextW(b, w)
		if sb == 0 {
			if sa >= 0 {
				return m
			}
			return 1
		}
		if sb == -1 {
			return uint64(-sa) & m
		}
		return uint64(sa/sb) & m
	case OSrem:
		sa, sb := sextW(a, w), sextW(b, w)
		if sb == 0 {
			return a
		}
		if sb == -1 {
			return 0
		}
		return uint64(sa%sb) & m
	case OBand:
		return a & b
	case OBor:
		return a | b
	case OBxor:
		return a ^ b
	case OShl:
		if b >= uint64(w) {
			return 0
		}
		return (a << b) & m
	case OLshr:
		if b >= uint64(w) {
			return 0
		}
		return a >> b
	case OAshr:
		if b >= uint64(w) {
			b = uint64(w) - 1
		}
		return uint64(sextW(a, w)>>b) & m
	}
	panic("evalOp")
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func (x *Ctx) Cmp(op Op, a, b *Term) *Term {
	if a.op == OConst && b.op == OConst {
		return x.Bool(evalOp(op, a.w, a.c, b.c) != 0)
	}
	if a == b {
		return x.Bool(op == OUle || op == OSle)
	}
	switch op {
	case OUlt:
		if b.op == OConst && ub(a) < b.c {
			return x.tTrue
		}
		if b.op == OConst && b.c == 0 {
			return x.tFals
		}
		if a.op == OConst && ub(b) <= a.c {
			return x.tFals
		}
	case OUle:
		if b.op == OConst && ub(a) <= b.c {
			return x.tTrue
		}
		if a.op == OConst && a.c == 0 {
			return x.tTrue
		}
		if a.op == OConst && ub(b) < a.c {
			return x.tFals
		}
	case OSlt, OSle:
		// both provably non-negative: use unsigned comparison
		h := maskW(a.w) >> 1
		if ub(a) <= h && ub(b) <= h {
			if op == OSlt {
				return x.Cmp(OUlt, a, b)
			}
			return x.Cmp(OUle, a, b)
		}
		// a non-negative, b constant negative
		if b.op == OConst && b.c > h && ub(a) <= h {
			return x.tFals
		}
		if a.op == OConst && a.c > h && ub(b) <= h {
			return x.tTrue
		}
	}
	// push comparisons through matching zext
	if (op == OUlt || op == OUle) && a.op == OZext && b.op == OConst && b.c <= maskW(a.a.w) {
		return x.Cmp(op, a.a, x.Const(b.c, a.a.w))
	}
	if (op == OUlt || op == OUle) && b.op == OZext && a.op == OConst && a.c <= maskW(b.a.w) {
		return x.Cmp(op, x.Const(a.c, b.a.w), b.a)
	}
	if (op == OUlt || op == OUle) && a.op == OZext && b.op == OZext && a.a.w == b.a.w {
		return x.Cmp(op, a.a, b.a)
	}
	// canonical form: only strict/non strict with negation
	if op == OUle {
		return x.Not(x.Cmp(OUlt, b, a))
	}
	if op == OSle {
		return x.Not(x.Cmp(OSlt, b, a))
	}
	return x.mk(op, 0, 0, a, b, nil)
}

func (x *Ctx) Bin(op Op, a, b *Term) *Term {
	if a.w != b.w {
		panic(fmt.Sprintf("Bin %s width mismatch %d %d", opName[op], a.w, b.w))
	}
	w := a.w
	if a.op == OConst && b.op == OConst {
		return x.Const(evalOp(op, w, a.c, b.c), w)
	}
	switch op {
	case OAdd:
		if a.op == OConst {
			a, b = b, a
		}
		if b.op == OConst {
			if b.c == 0 {
				return a
			}
			if a.op == OAdd && a.b.op == OConst {
				return x.Bin(OAdd, a.a, x.Const(a.b.c+b.c, w))
			}
			if a.op == OSub && a.b.op == OConst {
				return x.Bin(OAdd, a.a, x.Const(b.c-a.b.c, w))
			}
			if a.op == OIte && a.b.op == OConst && a.d.op == OConst {
				return x.Ite(a.a, x.Const(a.b.c+b.c, w), x.Const(a.d.c+b.c, w))
			}
		} else if a.id > b.id {
			a, b = b, a
		}
	case OSub:
		if a == b {
			return x.Const(0, w)
		}
		if b.op == OConst {
			return x.Bin(OAdd, a, x.Const(-b.c, w))
		}
	case OMul:
		if a.op == OConst {
			a, b = b, a
		}
		if b.op == OConst {
			if b.c == 0 {
				return b
			}
			if b.c == 1 {
				return a
			}
		}
	case OBand:
		if a.op == OConst {
			a, b = b, a
		}
		if b.op == OConst {
			if b.c == 0 {
				return b
			}
			if b.c == maskW(w) {
				return a
			}
			if b.c&(b.c+1) == 0 && ub(a) <= b.c {
				return a
			}
		}
		if a == b {
			return a
		}
	case OBor:
		if a.op == OConst {
			a, b = b, a
		}
		if b.op == OConst && b.c == 0 {
			return a
		}
		if a == b {
			return a
		}
	case OBxor:
		if a.op == OConst {
			a, b = b, a
		}
		if b.op == OConst && b.c == 0 {
			return a
		}
		if a == b {
			return x.Const(0, w)
		}
	case OShl, OLshr, OAshr:
		if b.op == OConst && b.c == 0 {
			return a
		}
		if b.op == OConst && b.c >= uint64(w) && op != OAshr {
			return x.Const(0, w)
		}
	case OUdiv, OSdiv:
		if b.op == OConst && b.c == 1 {
			return a
		}
	}
	return x.mk(op, w, 0, a, b, nil)
}

func (x *Ctx) BNot(a *Term) *Term {
	if a.op == OConst {
		return x.Const(^a.c, a.w)
	}
	return x.mk(OBnot, a.w, 0, a, nil, nil)
}
func (x *Ctx) Neg(a *Term) *Term {
	if a.op == OConst {
		return x.Const(-a.c, a.w)
	}
	return x.mk(ONeg, a.w, 0, a, nil, nil)
}
func (x *Ctx) Zext(a *Term, w int) *Term {
	if a.w == w {
		return a
	}
	if a.op == OConst {
		return x.Const(a.c, w)
	}
	if a.op == OZext {
		return x.Zext(a.a, w)
	}
	if a.op == OIte && a.b.op == OConst && a.d.op == OConst {
		return x.Ite(a.a, x.Const(a.b.c, w), x.Const(a.d.c, w))
	}
	return x.mk(OZext, w, 0, a, nil, nil)
}
func (x *Ctx) Sext(a *Term, w int) *Term {
	if a.w == w {
		return a
	}
	if a.op == OConst {
		return x.Const(uint64(sextW(a.c, a.w)), w)
	}
	if ub(a) <= maskW(a.w)>>1 {
		return x.Zext(a, w)
	}
	return x.mk(OSext, w, 0, a, nil, nil)
}
func (x *Ctx) Trunc(a *Term, w int) *Term {
	if a.w == w {
		return a
	}
	if a.op == OConst {
		return x.Const(a.c, w)
	}
	if (a.op == OZext || a.op == OSext) && a.a.w >= w {
		return x.Trunc(a.a, w)
	}
	if a.op == OZext && a.a.w < w {
		return x.Zext(a.a, w)
	}
	if a.op == OIte {
		return x.Ite(a.a, x.Trunc(a.b, w), x.Trunc(a.d, w))
	}
	return x.mk(OExtract, w, 0, a, nil, nil)
}

// evaluation under a model (missing variables are 0)
type Model map[int]uint64 // var index -> value

func (t *Term) eval(m Model, memo map[int]uint64) uint64 {
	switch t.op {
	case OConst:
		return t.c
	case OVar:
		return m[t.vidx] & maskWB(t.w)
	}
	if v, ok := memo[t.id]; ok {
		return v
	}
	var r uint64
	switch t.op {
	case ONot:
		r = 1 - t.a.eval(m, memo)
	case OAnd:
		r = t.a.eval(m, memo)
		if r != 0 {
			r = t.b.eval(m, memo)
		}
	case OOr:
		r = t.a.eval(m, memo)
		if r == 0 {
			r = t.b.eval(m, memo)
		}
	case OEq:
		r = b2u(t.a.eval(m, memo) == t.b.eval(m, memo))
	case OIte:
		if t.a.eval(m, memo) != 0 {
			r = t.b.eval(m, memo)
		} else {
			r = t.d.eval(m, memo)
		}
	case OBnot:
		r = ^t.a.eval(m, memo) & maskW(t.w)
	case ONeg:
		r = -t.a.eval(m, memo) & maskW(t.w)
	case OZext:
		r = t.a.eval(m, memo)
	case OSext:
		r = uint64(sextW(t.a.eval(m, memo), t.a.w)) & maskW(t.w)
	case OExtract:
		r = t.a.eval(m, memo) & maskW(t.w)
	default:
		r = evalOp(t.op, t.a.w, t.a.eval(m, memo), t.b.eval(m, memo))
	}
	memo[t.id] = r
	return r
}

func maskWB(w int) uint64 {
	if w == 0 {
		return 1
	}
	return maskW(w)
}

// printing -----------------------------------------------------------------

type printer struct {
	sb   strings.Builder // definitions
	done map[int]string
	vars map[int]string // var idx -> canonical name
	decl []*Term
	n    int
}

func newPrinter() *printer { return &printer{done: map[int]string{}, vars: map[int]string{}} }

func sortStr(w int) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func (p *printer) ref(t *Term) string {
	switch t.op {
	case OConst:
		if t.w == 0 {
			if t.c != 0 {
				return "true"
			}
			return "false"
		}
		return fmt.Sprintf("(_ bv%d %d)", t.c, t.w)
	case OVar:
		if n, ok := p.vars[t.vidx]; ok {
			return n
		}
		n := fmt.Sprintf("v%d", len(p.decl))
		p.vars[t.vidx] = n
		p.decl = append(p.decl, t)
		fmt.Fprintf(&p.sb, "(declare-const %s %s)\n", n, sortStr(t.w))
		return n
	}
	if n, ok := p.done[t.id]; ok {
		return n
	}
	var body string
	switch t.op {
	case OZext:
		body = fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.a.w, p.ref(t.a))
	case OSext:
		body = fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.a.w, p.ref(t.a))
	case OExtract:
		body = fmt.Sprintf("((_ extract %d 0) %s)", t.w-1, p.ref(t.a))
	case OIte:
		body = fmt.Sprintf("(ite %s %s %s)", p.ref(t.a), p.ref(t.b), p.ref(t.d))
	default:
		if t.b == nil {
			body = fmt.Sprintf("(%s %s)", opName[t.op], p.ref(t.a))
		} else {
			body = fmt.Sprintf("(%s %s %s)", opName[t.op], p.ref(t.a), p.ref(t.b))
		}
	}
	if len(body) < 60 {
		p.done[t.id] = body
		return body
	}
	n := fmt.Sprintf("t%d", p.n)
	p.n++
	fmt.Fprintf(&p.sb, "(define-fun %s () %s %s)\n", n, sortStr(t.w), body)
	p.done[t.id] = n
	return n
}

func (t *Term) String() string {
	p := newPrinter()
	r := p.ref(t)
	return p.sb.String() + r
}
