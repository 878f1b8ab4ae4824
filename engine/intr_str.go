package main

import (
	"math"
	"regexp"
	"regexp/syntax"
	"strconv"
	"strings"
	"unicode/utf8"
)

func strs(v any) ([]string, bool) {
	s := v.(Slice)
	r := make([]string, len(s))
	for i, e := range s {
		c, ok := e.(string)
		if !ok {
			return nil, false
		}
		r[i] = c
	}
	return r, true
}

func toSlice(s []string) Slice {
	if s == nil {
		return Slice(nil)
	}
	r := make(Slice, len(s))
	for i := range s {
		r[i] = s[i]
	}
	return r
}

// native registers a function computed natively when all its arguments are concrete.
func nativeSS(name string, f func(a, b string) any) {
	old := intrinsics[name]
	reg(name, func(fr *Frame, a []any) any {
		x, ok1 := a[0].(string)
		y, ok2 := a[1].(string)
		if ok1 && ok2 {
			return f(x, y)
		}
		if old != nil {
			return old(fr, a)
		}
		return notHandled
	})
}

func nativeS(name string, f func(a string) any) {
	old := intrinsics[name]
	reg(name, func(fr *Frame, a []any) any {
		if x, ok := a[0].(string); ok {
			return f(x)
		}
		if old != nil {
			return old(fr, a)
		}
		return notHandled
	})
}

func (p *Path) inSet(b any, set string) any {
	if c, ok := b.(uint64); ok {
		return strings.IndexByte(set, byte(c)) >= 0
	}
	t := p.byteTerm(b)
	r := p.ctx.tFals
	for i := 0; i < len(set); i++ {
		r = p.ctx.Or(r, p.ctx.Eq(t, p.ctx.Const(uint64(set[i]), 8)))
	}
	return p.unterm(r)
}

const asciiSpaces = "\t\n\v\f\r "

// nonASCII reports whether a byte may be >= 0x80 (decided on the path).
func (p *Path) allASCII(b []any) bool {
	for _, x := range b {
		switch x := x.(type) {
		case uint64:
			if x >= 0x80 {
				return false
			}
		case *Term:
			if !p.branch(p.ctx.Cmp(OUlt, x, p.ctx.Const(0x80, 8))) {
				return false
			}
		}
	}
	return true
}

func asciiOnly(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] >= 0x80 {
			return false
		}
	}
	return true
}

// indexStr finds the first occurrence, splitting paths on the candidate positions.
func (p *Path) indexStr(s, sub any) int {
	n, m := strLen(s), strLen(sub)
	for i := 0; i+m <= n; i++ {
		if p.cond(p.strEq(strSlice(s, i, i+m), sub)) {
			return i
		}
	}
	return -1
}

func (p *Path) lastIndexStr(s, sub any) int {
	n, m := strLen(s), strLen(sub)
	for i := n - m; i >= 0; i-- {
		if p.cond(p.strEq(strSlice(s, i, i+m), sub)) {
			return i
		}
	}
	return -1
}

func (p *Path) containsStr(s, sub any) any {
	n, m := strLen(s), strLen(sub)
	r := p.ctx.tFals
	for i := 0; i+m <= n; i++ {
		r = p.ctx.Or(r, p.boolTerm(p.strEq(strSlice(s, i, i+m), sub)))
	}
	return p.unterm(r)
}

func (p *Path) eqByte(a, b any) any {
	x, ok1 := a.(uint64)
	y, ok2 := b.(uint64)
	if ok1 && ok2 {
		return x == y
	}
	return p.unterm(p.ctx.Eq(p.byteTerm(a), p.byteTerm(b)))
}

func (p *Path) trim(b []any, set string, left, right bool) []any {
	lo, hi := 0, len(b)
	for left && lo < hi && p.cond(p.inSet(b[lo], set)) {
		lo++
	}
	for right && hi > lo && p.cond(p.inSet(b[hi-1], set)) {
		hi--
	}
	return b[lo:hi]
}

func (p *Path) mapCase(b []any, lower bool) any {
	out := make([]any, len(b))
	cx := p.ctx
	lo, hi := uint64('A'), uint64('Z')
	if !lower {
		lo, hi = 'a', 'z'
	}
	for i, x := range b {
		switch x := x.(type) {
		case uint64:
			if x >= lo && x <= hi {
				x ^= 0x20
			}
			out[i] = x
		case *Term:
			in := cx.And(cx.Cmp(OUle, cx.Const(lo, 8), x), cx.Cmp(OUle, x, cx.Const(hi, 8)))
			out[i] = p.unterm(cx.Ite(in, cx.Bin(OBxor, x, cx.Const(0x20, 8)), x))
		}
	}
	return mkStr(out)
}

func init() {
	// ---- internal/bytealg ----
	idxByte := func(p *Path, b []any, c any) any {
		for i := range b {
			if p.cond(p.eqByte(b[i], c)) {
				return uint64(i)
			}
		}
		return ^uint64(0)
	}
	reg("internal/bytealg.IndexByte", func(fr *Frame, a []any) any { return idxByte(fr.p, a[0].(Slice), a[1]) })
	reg("internal/bytealg.IndexByteString", func(fr *Frame, a []any) any {
		if s, ok := a[0].(string); ok {
			if c, ok := a[1].(uint64); ok {
				return i64(strings.IndexByte(s, byte(c)))
			}
		}
		return idxByte(fr.p, strBytes(a[0]), a[1])
	})
	lastIdxByte := func(p *Path, b []any, c any) any {
		for i := len(b) - 1; i >= 0; i-- {
			if p.cond(p.eqByte(b[i], c)) {
				return uint64(i)
			}
		}
		return ^uint64(0)
	}
	reg("internal/bytealg.LastIndexByte", func(fr *Frame, a []any) any { return lastIdxByte(fr.p, a[0].(Slice), a[1]) })
	reg("internal/bytealg.LastIndexByteString", func(fr *Frame, a []any) any { return lastIdxByte(fr.p, strBytes(a[0]), a[1]) })
	count := func(p *Path, b []any, c any) any {
		n := 0
		for i := range b {
			if p.cond(p.eqByte(b[i], c)) {
				n++
			}
		}
		return uint64(n)
	}
	reg("internal/bytealg.Count", func(fr *Frame, a []any) any { return count(fr.p, a[0].(Slice), a[1]) })
	reg("internal/bytealg.CountString", func(fr *Frame, a []any) any { return count(fr.p, strBytes(a[0]), a[1]) })
	reg("internal/bytealg.Equal", func(fr *Frame, a []any) any {
		return fr.p.strEq(mkStr(a[0].(Slice)), mkStr(a[1].(Slice)))
	})
	cmp := func(p *Path, x, y any) any {
		if xs, ok := x.(string); ok {
			if ys, ok := y.(string); ok {
				return i64(strings.Compare(xs, ys))
			}
		}
		if p.cond(p.strEq(x, y)) {
			return uint64(0)
		}
		if p.cond(p.strLess(x, y)) {
			return ^uint64(0)
		}
		return uint64(1)
	}
	reg("internal/bytealg.Compare", func(fr *Frame, a []any) any {
		return cmp(fr.p, mkStr(a[0].(Slice)), mkStr(a[1].(Slice)))
	})
	reg("internal/bytealg.CompareString", func(fr *Frame, a []any) any { return cmp(fr.p, a[0], a[1]) })
	reg("strings.Compare", func(fr *Frame, a []any) any { return cmp(fr.p, a[0], a[1]) })
	reg("bytes.Equal", intrinsics["internal/bytealg.Equal"])
	reg("internal/bytealg.MakeNoZero", func(fr *Frame, a []any) any {
		n := fr.int(a[0])
		s := make(Slice, n, roundupsize(n))
		s = s[:cap(s)]
		for i := range s {
			s[i] = uint64(0)
		}
		return s[:n]
	})
	// ---- strings / bytes ----
	index := func(fr *Frame, a []any) any { return i64(fr.p.indexStr(a[0], a[1])) }
	for _, n := range []string{"strings.Index", "internal/stringslite.Index", "internal/bytealg.IndexString"} {
		reg(n, index)
		nativeSS(n, func(a, b string) any { return i64(strings.Index(a, b)) })
	}
	bindex := func(fr *Frame, a []any) any { return i64(fr.p.indexStr(mkStr(a[0].(Slice)), mkStr(a[1].(Slice)))) }
	reg("bytes.Index", bindex)
	reg("internal/bytealg.Index", bindex)
	reg("strings.Contains", func(fr *Frame, a []any) any { return fr.p.containsStr(a[0], a[1]) })
	nativeSS("strings.Contains", func(a, b string) any { return strings.Contains(a, b) })
	reg("bytes.Contains", func(fr *Frame, a []any) any {
		return fr.p.containsStr(mkStr(a[0].(Slice)), mkStr(a[1].(Slice)))
	})
	reg("strings.LastIndex", func(fr *Frame, a []any) any { return i64(fr.p.lastIndexStr(a[0], a[1])) })
	nativeSS("strings.LastIndex", func(a, b string) any { return i64(strings.LastIndex(a, b)) })
	pre := func(fr *Frame, a []any) any {
		n := strLen(a[1])
		if strLen(a[0]) < n {
			return false
		}
		return fr.p.strEq(strSlice(a[0], 0, n), a[1])
	}
	suf := func(fr *Frame, a []any) any {
		n, l := strLen(a[1]), strLen(a[0])
		if l < n {
			return false
		}
		return fr.p.strEq(strSlice(a[0], l-n, l), a[1])
	}
	reg("strings.HasPrefix", pre)
	reg("strings.HasSuffix", suf)
	reg("internal/stringslite.HasPrefix", pre)
	reg("internal/stringslite.HasSuffix", suf)
	nativeSS("strings.EqualFold", func(a, b string) any { return strings.EqualFold(a, b) })
	reg("strings.EqualFold", func() Intrinsic {
		old := intrinsics["strings.EqualFold"]
		return func(fr *Frame, a []any) any {
			if r := old(fr, a); r != notHandled {
				return r
			}
			x, y := strBytes(a[0]), strBytes(a[1])
			if fr.p.allASCII(x) && fr.p.allASCII(y) {
				return fr.p.strEq(fr.p.mapCase(x, true), fr.p.mapCase(y, true))
			}
			return notHandled
		}
	}())
	ts := func(fr *Frame, a []any) any {
		if s, ok := a[0].(string); ok {
			return strings.TrimSpace(s)
		}
		b := strBytes(a[0])
		if !fr.p.allASCII(b) {
			return notHandled
		}
		return mkStr(fr.p.trim(b, asciiSpaces, true, true))
	}
	reg("strings.TrimSpace", ts)
	for _, k := range []struct {
		n    string
		l, r bool
	}{{"Trim", true, true}, {"TrimLeft", true, false}, {"TrimRight", false, true}} {
		k := k
		reg("strings."+k.n, func(fr *Frame, a []any) any {
			set, ok := a[1].(string)
			if !ok || !asciiOnly(set) {
				return notHandled
			}
			if s, ok := a[0].(string); ok {
				switch k.n {
				case "Trim":
					return strings.Trim(s, set)
				case "TrimLeft":
					return strings.TrimLeft(s, set)
				}
				return strings.TrimRight(s, set)
			}
			return mkStr(fr.p.trim(strBytes(a[0]), set, k.l, k.r))
		})
	}
	reg("strings.ToLower", func(fr *Frame, a []any) any {
		if s, ok := a[0].(string); ok {
			return strings.ToLower(s)
		}
		b := strBytes(a[0])
		if !fr.p.allASCII(b) {
			return notHandled
		}
		return fr.p.mapCase(b, true)
	})
	reg("strings.ToUpper", func(fr *Frame, a []any) any {
		if s, ok := a[0].(string); ok {
			return strings.ToUpper(s)
		}
		b := strBytes(a[0])
		if !fr.p.allASCII(b) {
			return notHandled
		}
		return fr.p.mapCase(b, false)
	})
	reg("strings.Fields", func(fr *Frame, a []any) any {
		if s, ok := a[0].(string); ok {
			return toSlice(strings.Fields(s))
		}
		b := strBytes(a[0])
		if !fr.p.allASCII(b) {
			return notHandled
		}
		out := Slice{}
		start := -1
		for i := range b {
			if fr.p.cond(fr.p.inSet(b[i], asciiSpaces)) {
				if start >= 0 {
					out = append(out, mkStr(b[start:i]))
					start = -1
				}
			} else if start < 0 {
				start = i
			}
		}
		if start >= 0 {
			out = append(out, mkStr(b[start:]))
		}
		return out
	})
	anyOf := func(fr *Frame, a []any) any {
		set, ok := a[1].(string)
		if !ok || !asciiOnly(set) {
			return notHandled
		}
		b := strBytes(a[0])
		for i := range b {
			if fr.p.cond(fr.p.inSet(b[i], set)) {
				return uint64(i)
			}
		}
		return ^uint64(0)
	}
	reg("strings.IndexAny", anyOf)
	reg("strings.ContainsAny", func(fr *Frame, a []any) any {
		set, ok := a[1].(string)
		if !ok || !asciiOnly(set) {
			return notHandled
		}
		r := fr.p.ctx.tFals
		for _, x := range strBytes(a[0]) {
			r = fr.p.ctx.Or(r, fr.p.boolTerm(fr.p.inSet(x, set)))
		}
		return fr.p.unterm(r)
	})
	nativeSS("strings.Split", func(a, b string) any { return toSlice(strings.Split(a, b)) })
	nativeSS("strings.TrimPrefix", func(a, b string) any { return strings.TrimPrefix(a, b) })
	nativeSS("strings.TrimSuffix", func(a, b string) any { return strings.TrimSuffix(a, b) })
	nativeSS("strings.Count", func(a, b string) any { return i64(strings.Count(a, b)) })
	reg("strings.Join", func(fr *Frame, a []any) any {
		var out any = ""
		for i, e := range a[0].(Slice) {
			if i > 0 {
				out = strCat(out, a[1])
			}
			out = strCat(out, e)
		}
		return out
	})
	reg("strings.Repeat", func(fr *Frame, a []any) any {
		n := int64(fr.int(a[1]))
		if n < 0 {
			fr.p.rtPanic("strings: negative Repeat count")
		}
		if n > 1<<20 {
			fr.p.rtPanic("strings: Repeat output length overflow")
		}
		var out any = ""
		for i := int64(0); i < n; i++ {
			out = strCat(out, a[0])
		}
		return out
	})
	reg("strings.ReplaceAll", func(fr *Frame, a []any) any {
		x, ok1 := a[0].(string)
		y, ok2 := a[1].(string)
		z, ok3 := a[2].(string)
		if ok1 && ok2 && ok3 {
			return strings.ReplaceAll(x, y, z)
		}
		return notHandled
	})
	reg("strings.Replace", func(fr *Frame, a []any) any {
		x, ok1 := a[0].(string)
		y, ok2 := a[1].(string)
		z, ok3 := a[2].(string)
		n, ok4 := a[3].(uint64)
		if ok1 && ok2 && ok3 && ok4 {
			return strings.Replace(x, y, z, int(int64(n)))
		}
		return notHandled
	})
	reg("strings.SplitN", func(fr *Frame, a []any) any {
		x, ok1 := a[0].(string)
		y, ok2 := a[1].(string)
		n, ok4 := a[2].(uint64)
		if ok1 && ok2 && ok4 {
			return toSlice(strings.SplitN(x, y, int(int64(n))))
		}
		return notHandled
	})
	reg("strings.Clone", func(fr *Frame, a []any) any { return a[0] })
	// ---- strconv ----
	reg("strconv.Itoa", func(fr *Frame, a []any) any {
		if x, ok := a[0].(uint64); ok {
			return strconv.Itoa(int(int64(x)))
		}
		return fr.p.itoa(a[0])
	})
	reg("strconv.FormatInt", func(fr *Frame, a []any) any {
		if b, ok := a[1].(uint64); ok {
			if x, ok := a[0].(uint64); ok {
				return strconv.FormatInt(int64(x), int(b))
			}
			if b == 10 {
				return fr.p.itoa(a[0])
			}
		}
		return notHandled
	})
	nativeS("strconv.Quote", func(s string) any { return strconv.Quote(s) })
	reg("strconv.FormatFloat", func(fr *Frame, a []any) any {
		return strconv.FormatFloat(a[0].(float64), byte(fr.int(a[1])), fr.int(a[2]), fr.int(a[3]))
	})
	reg("strconv.ParseFloat", func(fr *Frame, a []any) any {
		s := fr.str(a[0])
		f, err := strconv.ParseFloat(s, fr.int(a[1]))
		if err != nil {
			return Tuple{f, fr.p.newError(err.Error())}
		}
		return Tuple{f, Iface{}}
	})
	_ = math.Pi
	// ---- regexp ----
	comp := func(must bool) Intrinsic {
		return func(fr *Frame, a []any) any {
			s := fr.str(a[0])
			re, err := regexp.Compile(s)
			if err != nil {
				if must {
					fr.p.rtPanic("regexp: Compile(" + s + "): " + err.Error())
				}
				return Tuple{nilPtr, fr.p.newError(err.Error())}
			}
			c := new(any)
			*c = newSymRE(re, s)
			if must {
				return c
			}
			return Tuple{c, Iface{}}
		}
	}
	reg("regexp.MustCompile", comp(true))
	reg("regexp.Compile", comp(false))
	reg("regexp.MatchString", func(fr *Frame, a []any) any {
		re, err := regexp.Compile(fr.str(a[0]))
		if err != nil {
			return Tuple{false, fr.p.newError(err.Error())}
		}
		return Tuple{newSymRE(re, fr.str(a[0])).find(fr.p, strBytes(a[1]), 0) != nil, Iface{}}
	})
	nativeS("regexp.QuoteMeta", func(s string) any { return regexp.QuoteMeta(s) })
	rx := func(name string, f func(fr *Frame, r *symRE, a []any) any) {
		reg("(*regexp.Regexp)."+name, func(fr *Frame, a []any) any {
			c := a[0].(*any)
			if c == nil {
				fr.p.rtPanic("runtime error: invalid memory address or nil pointer dereference")
			}
			return f(fr, (*c).(*symRE), a[1:])
		})
	}
	sub := func(b []any, loc []int, k int) any {
		if 2*k+1 >= len(loc) || loc[2*k] < 0 {
			return ""
		}
		return mkStr(b[loc[2*k]:loc[2*k+1]])
	}
	rx("String", func(fr *Frame, r *symRE, a []any) any { return r.src })
	rx("MatchString", func(fr *Frame, r *symRE, a []any) any { return r.find(fr.p, strBytes(a[0]), 0) != nil })
	rx("Match", func(fr *Frame, r *symRE, a []any) any { return r.find(fr.p, a[0].(Slice), 0) != nil })
	rx("FindString", func(fr *Frame, r *symRE, a []any) any {
		b := strBytes(a[0])
		loc := r.find(fr.p, b, 0)
		if loc == nil {
			return ""
		}
		return sub(b, loc, 0)
	})
	rx("FindStringIndex", func(fr *Frame, r *symRE, a []any) any {
		loc := r.find(fr.p, strBytes(a[0]), 0)
		if loc == nil {
			return Slice(nil)
		}
		return Slice{i64(loc[0]), i64(loc[1])}
	})
	rx("FindStringSubmatch", func(fr *Frame, r *symRE, a []any) any {
		b := strBytes(a[0])
		loc := r.find(fr.p, b, 0)
		if loc == nil {
			return Slice(nil)
		}
		out := make(Slice, r.re.NumSubexp()+1)
		for i := range out {
			out[i] = sub(b, loc, i)
		}
		return out
	})
	rx("SubexpNames", func(fr *Frame, r *symRE, a []any) any { return toSlice(r.re.SubexpNames()) })
	rx("NumSubexp", func(fr *Frame, r *symRE, a []any) any { return i64(r.re.NumSubexp()) })
	rx("FindAllString", func(fr *Frame, r *symRE, a []any) any {
		b := strBytes(a[0])
		n := fr.int(a[1])
		var out Slice
		for _, loc := range r.all(fr.p, b, n) {
			out = append(out, sub(b, loc, 0))
		}
		return out
	})
	rx("FindAllStringIndex", func(fr *Frame, r *symRE, a []any) any {
		b := strBytes(a[0])
		var out Slice
		for _, loc := range r.all(fr.p, b, fr.int(a[1])) {
			out = append(out, Slice{i64(loc[0]), i64(loc[1])})
		}
		return out
	})
	rx("FindAllStringSubmatch", func(fr *Frame, r *symRE, a []any) any {
		b := strBytes(a[0])
		var out Slice
		for _, loc := range r.all(fr.p, b, fr.int(a[1])) {
			m := make(Slice, r.re.NumSubexp()+1)
			for i := range m {
				m[i] = sub(b, loc, i)
			}
			out = append(out, m)
		}
		return out
	})
	repl := func(fr *Frame, r *symRE, b []any, tmpl any, literal bool) []any {
		var out []any
		last := 0
		for _, loc := range r.all(fr.p, b, -1) {
			out = append(out, b[last:loc[0]]...)
			if literal {
				out = append(out, strBytes(tmpl)...)
			} else {
				// expand with marker submatches, then substitute
				out = append(out, r.expand(fr.str(tmpl), b, loc)...)
			}
			last = loc[1]
		}
		return append(out, b[last:]...)
	}
	rx("ReplaceAllString", func(fr *Frame, r *symRE, a []any) any { return mkStr(repl(fr, r, strBytes(a[0]), a[1], false)) })
	rx("ReplaceAllLiteralString", func(fr *Frame, r *symRE, a []any) any {
		return mkStr(repl(fr, r, strBytes(a[0]), a[1], true))
	})
	rx("ReplaceAll", func(fr *Frame, r *symRE, a []any) any {
		return Slice(repl(fr, r, a[0].(Slice), mkStr(a[1].(Slice)), false))
	})
	rx("Split", func(fr *Frame, r *symRE, a []any) any {
		b := strBytes(a[0])
		n := fr.int(a[1])
		if n == 0 {
			return Slice(nil)
		}
		if len(r.src) > 0 && len(b) == 0 {
			return Slice{""}
		}
		var out Slice
		beg, end := 0, 0
		for _, m := range r.all(fr.p, b, n) {
			if n > 0 && len(out) == n-1 {
				break
			}
			end = m[0]
			if m[1] != 0 {
				out = append(out, mkStr(b[beg:end]))
			}
			beg = m[1]
		}
		if end != len(b) {
			out = append(out, mkStr(b[beg:]))
		}
		return out
	})
}

// itoa of a symbolic 64-bit integer: the number of digits is decided on the path, the digits stay symbolic.
func (p *Path) itoa(v any) any {
	t := v.(*Term)
	cx := p.ctx
	if p.branch(cx.Cmp(OSlt, t, cx.Const(0, 64))) {
		return strCat("-", p.itoaU(cx.Neg(t)))
	}
	return p.itoaU(t)
}

func (p *Path) itoaU(t *Term) any {
	cx := p.ctx
	lim := uint64(10)
	n := 1
	for ; n < 19; n++ {
		if p.branch(cx.Cmp(OUlt, t, cx.Const(lim, 64))) {
			break
		}
		lim *= 10
	}
	out := make([]any, n)
	for i := n - 1; i >= 0; i-- {
		d := cx.Bin(OUrem, t, cx.Const(10, 64))
		out[i] = p.unterm(cx.Bin(OAdd, cx.Trunc(d, 8), cx.Const('0', 8)))
		t = cx.Bin(OUdiv, t, cx.Const(10, 64))
	}
	return mkStr(out)
}

// ---- regular expressions over symbolic bytes: backtracking with leftmost-first semantics ----

type symRE struct {
	re   *regexp.Regexp
	prog *syntax.Prog
	src  string
}

func newSymRE(re *regexp.Regexp, src string) *symRE {
	rs, err := syntax.Parse(src, syntax.Perl)
	if err != nil {
		panic(unsupported("regexp " + src))
	}
	pr, err := syntax.Compile(rs.Simplify())
	if err != nil {
		panic(unsupported("regexp " + src))
	}
	return &symRE{re, pr, src}
}

func concBytes(b []any) ([]byte, bool) {
	r := make([]byte, len(b))
	for i, x := range b {
		c, ok := x.(uint64)
		if !ok {
			return nil, false
		}
		r[i] = byte(c)
	}
	return r, true
}

func (r *symRE) find(p *Path, b []any, from int) []int {
	if cb, ok := concBytes(b); ok && from == 0 {
		return r.re.FindSubmatchIndex(cb)
	}
	for start := from; start <= len(b); start++ {
		cap := make([]int, r.prog.NumCap)
		if r.prog.NumCap < 2 {
			cap = make([]int, 2)
		}
		for i := range cap {
			cap[i] = -1
		}
		seen := map[[2]int]bool{}
		if res := r.bt(p, b, r.prog.Start, start, cap, seen); res != nil {
			res[0] = start
			return res
		}
	}
	return nil
}

func (r *symRE) bt(p *Path, b []any, pc, pos int, cap []int, seen map[[2]int]bool) []int {
	for {
		k := [2]int{pc, pos}
		if seen[k] {
			return nil
		}
		seen[k] = true
		in := &r.prog.Inst[pc]
		switch in.Op {
		case syntax.InstFail:
			return nil
		case syntax.InstMatch:
			c := append([]int(nil), cap...)
			c[1] = pos
			return c
		case syntax.InstAlt, syntax.InstAltMatch:
			if res := r.bt(p, b, int(in.Out), pos, cap, seen); res != nil {
				return res
			}
			pc = int(in.Arg)
		case syntax.InstCapture:
			if int(in.Arg) < len(cap) {
				old := cap[in.Arg]
				cap[in.Arg] = pos
				res := r.bt(p, b, int(in.Out), pos, cap, seen)
				cap[in.Arg] = old
				return res
			}
			pc = int(in.Out)
		case syntax.InstNop:
			pc = int(in.Out)
		case syntax.InstEmptyWidth:
			if !r.empty(p, b, pos, syntax.EmptyOp(in.Arg)) {
				return nil
			}
			pc = int(in.Out)
		case syntax.InstRune, syntax.InstRune1, syntax.InstRuneAny, syntax.InstRuneAnyNotNL:
			if pos >= len(b) {
				return nil
			}
			if c, ok := b[pos].(uint64); ok {
				rn, n := rune(c), 1
				if c >= 0x80 {
					var buf []byte
					for i := pos; i < len(b) && i < pos+4; i++ {
						x, ok := b[i].(uint64)
						if !ok {
							break
						}
						buf = append(buf, byte(x))
					}
					rn, n = utf8.DecodeRune(buf)
				}
				if !in.MatchRune(rn) {
					return nil
				}
				pos += n
			} else {
				if !p.allASCII(b[pos : pos+1]) {
					panic(unsupported("regexp over symbolic non-ASCII bytes"))
				}
				t := b[pos].(*Term)
				cond := p.ctx.tFals
				for lo := 0; lo < 128; {
					if !in.MatchRune(rune(lo)) {
						lo++
						continue
					}
					hi := lo
					for hi+1 < 128 && in.MatchRune(rune(hi+1)) {
						hi++
					}
					cond = p.ctx.Or(cond, p.ctx.And(p.ctx.Cmp(OUle, p.ctx.Const(uint64(lo), 8), t), p.ctx.Cmp(OUle, t, p.ctx.Const(uint64(hi), 8))))
					lo = hi + 1
				}
				if !p.branch(cond) {
					return nil
				}
				pos++
			}
			pc = int(in.Out)
		}
	}
}

func (r *symRE) empty(p *Path, b []any, pos int, op syntax.EmptyOp) bool {
	isNL := func(i int) bool { return p.cond(p.eqByte(b[i], uint64('\n'))) }
	word := func(i int) bool {
		if i < 0 || i >= len(b) {
			return false
		}
		return p.cond(p.inSet(b[i], "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_"))
	}
	if op&syntax.EmptyBeginText != 0 && pos != 0 {
		return false
	}
	if op&syntax.EmptyEndText != 0 && pos != len(b) {
		return false
	}
	if op&syntax.EmptyBeginLine != 0 && pos != 0 && !isNL(pos-1) {
		return false
	}
	if op&syntax.EmptyEndLine != 0 && pos != len(b) && !isNL(pos) {
		return false
	}
	if op&syntax.EmptyWordBoundary != 0 && word(pos-1) == word(pos) {
		return false
	}
	if op&syntax.EmptyNoWordBoundary != 0 && word(pos-1) != word(pos) {
		return false
	}
	return true
}

// all follows regexp.(*Regexp).allMatches.
func (r *symRE) all(p *Path, b []any, n int) [][]int {
	if n < 0 {
		n = len(b) + 1
	}
	if cb, ok := concBytes(b); ok {
		return r.re.FindAllSubmatchIndex(cb, n)
	}
	var out [][]int
	prevEnd := -1
	for pos, i := 0, 0; i < n && pos <= len(b); {
		m := r.find(p, b, pos)
		if m == nil {
			break
		}
		accept := true
		if m[1] == pos {
			if m[0] == prevEnd {
				accept = false
			}
			pos++
		} else {
			pos = m[1]
		}
		prevEnd = m[1]
		if accept {
			out = append(out, m)
			i++
		}
	}
	return out
}

func (r *symRE) expand(tmpl string, b []any, loc []int) []any {
	// let the real regexp expand the template over a text whose submatches are markers
	n := len(loc) / 2
	var txt []byte
	nl := make([]int, len(loc))
	marks := map[byte][]any{}
	for i := 0; i < n; i++ {
		if loc[2*i] < 0 {
			nl[2*i], nl[2*i+1] = -1, -1
			continue
		}
		nl[2*i] = len(txt)
		m := byte(0xf8 + i)
		marks[m] = b[loc[2*i]:loc[2*i+1]]
		txt = append(txt, m)
		nl[2*i+1] = len(txt)
	}
	e := r.re.Expand(nil, []byte(tmpl), txt, nl)
	var out []any
	for _, c := range e {
		if m, ok := marks[c]; ok {
			out = append(out, m...)
		} else {
			out = append(out, uint64(c))
		}
	}
	return out
}
