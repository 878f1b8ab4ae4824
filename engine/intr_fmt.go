package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

type fmtFlags struct {
	plus, minus, sharp, space, zero bool
	wid, prec                       int // -1: unset
}

func (f fmtFlags) spec(verb byte) string {
	var sb strings.Builder
	sb.WriteByte('%')
	if f.plus {
		sb.WriteByte('+')
	}
	if f.minus {
		sb.WriteByte('-')
	}
	if f.sharp {
		sb.WriteByte('#')
	}
	if f.space {
		sb.WriteByte(' ')
	}
	if f.zero {
		sb.WriteByte('0')
	}
	if f.wid >= 0 {
		fmt.Fprint(&sb, f.wid)
	}
	if f.prec >= 0 {
		fmt.Fprintf(&sb, ".%d", f.prec)
	}
	sb.WriteByte(verb)
	return sb.String()
}

func pad(s any, f fmtFlags) any {
	n := strLen(s)
	if f.prec >= 0 && n > f.prec {
		s = strSlice(s, 0, f.prec)
		n = f.prec
	}
	if f.wid <= n {
		return s
	}
	sp := strings.Repeat(" ", f.wid-n)
	if f.minus {
		return strCat(s, sp)
	}
	return strCat(sp, s)
}

func goScalar(t types.Type, v any) (any, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return nil, false
	}
	switch v := v.(type) {
	case bool, string, float64, complex128:
		return v, true
	case uint64:
		switch b.Kind() {
		case types.Int, types.UntypedInt:
			return int(v), true
		case types.Int64:
			return int64(v), true
		case types.Int32, types.UntypedRune:
			return int32(v), true
		case types.Int16:
			return int16(v), true
		case types.Int8:
			return int8(v), true
		case types.Uint8:
			return uint8(v), true
		case types.Uint16:
			return uint16(v), true
		case types.Uint32:
			return uint32(v), true
		case types.Uint:
			return uint(v), true
		case types.Uintptr:
			return uintptr(v), true
		}
		return v, true
	}
	return nil, false
}

// fmtVal renders one operand.
func (fr *Frame) fmtVal(t types.Type, v any, verb byte, f fmtFlags, depth int) any {
	p := fr.p
	if t == nil {
		if verb == 'v' || verb == 's' && depth > 0 {
			return pad("<nil>", f)
		}
		return "%!" + string(verb) + "(<nil>)"
	}
	if depth > 20 {
		return "..."
	}
	switch verb {
	case 'T':
		return pad(typeString(t), f)
	case 'p':
		return "0xc000012345"
	}
	// methods
	if !f.sharp && (verb == 'v' || verb == 's' || verb == 'q' || verb == 'x' || verb == 'X') {
		for _, m := range []string{"Error", "String"} {
			fn := p.e.methodByName(t, nil, m)
			if fn == nil {
				continue
			}
			sg := fn.ssa.Signature
			if sg.Params().Len() != 0 || sg.Results().Len() != 1 {
				continue
			}
			if b, ok := sg.Results().At(0).Type().(*types.Basic); !ok || b.Kind() != types.String {
				continue
			}
			if c, ok := v.(*any); ok && c == nil {
				return pad("<nil>", f)
			}
			s := fr.g.call(fr, fn, []any{v}, nil)
			if verb == 'q' {
				return pad(fmt.Sprintf("%q", fr.str(s)), f)
			}
			return pad(s, f)
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if g, ok := goScalar(t, v); ok {
			return fmt.Sprintf(f.spec(verb), g)
		}
		switch x := v.(type) {
		case *SStr:
			switch verb {
			case 's', 'v':
				if f.sharp {
					return strCat(strCat("\"", x), "\"")
				}
				return pad(x, f)
			case 'q':
				// quoting of plain text
				var r any = "\""
				for _, b := range x.b {
					if c, ok := b.(*Term); ok {
						plain := p.unterm(p.ctx.And(p.ctx.Cmp(OUle, p.ctx.Const(0x20, 8), c), p.ctx.And(p.ctx.Cmp(OUlt, c, p.ctx.Const(0x7f, 8)), p.ctx.And(p.ctx.Not(p.ctx.Eq(c, p.ctx.Const('"', 8))), p.ctx.Not(p.ctx.Eq(c, p.ctx.Const('\\', 8)))))))
						if p.cond(plain) {
							r = strCat(r, mkStr([]any{b}))
							continue
						}
						b = p.concInt(c, 8)
					}
					q := fmt.Sprintf("%q", string([]byte{byte(b.(uint64))}))
					r = strCat(r, q[1:len(q)-1])
				}
				return strCat(r, "\"")
			}
			return fmt.Sprintf(f.spec(verb), fr.str(x))
		case *Term:
			if x.w == 0 {
				return fmt.Sprintf(f.spec(verb), p.branch(x))
			}
			w, signed, _ := intInfo(t)
			if (verb == 'd' || verb == 'v') && f.wid < 0 && !f.plus && !f.zero {
				if signed {
					return p.itoa(p.unterm(p.ctx.Sext(x, 64)))
				}
				return p.itoa(p.unterm(p.ctx.Zext(x, 64)))
			}
			_ = w
			g, _ := goScalar(t, p.concInt(x, w))
			return fmt.Sprintf(f.spec(verb), g)
		}
	case *types.Interface:
		iv := v.(Iface)
		if iv.t == nil {
			return "<nil>"
		}
		return fr.fmtVal(iv.t, iv.v, verb, f, depth+1)
	case *types.Pointer:
		c, ok := v.(*any)
		if ok && c == nil {
			return pad("<nil>", f)
		}
		if ok && depth == 0 {
			switch u.Elem().Underlying().(type) {
			case *types.Struct, *types.Array, *types.Slice, *types.Map:
				return strCat("&", fr.fmtVal(u.Elem(), *c, verb, f, depth+1))
			}
		}
		return "0xc000012345"
	case *types.Slice, *types.Array:
		var et types.Type
		var s []any
		if sl, ok := u.(*types.Slice); ok {
			et = sl.Elem()
			s = []any(v.(Slice))
		} else {
			et = u.(*types.Array).Elem()
			s = []any(v.(Array))
		}
		if b, ok := et.Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 && (verb == 's' || verb == 'x' || verb == 'X' || verb == 'q') {
			str := mkStr(s)
			if verb == 's' {
				return pad(str, f)
			}
			return fmt.Sprintf(f.spec(verb), fr.str(str))
		}
		if f.sharp {
			var r any = typeString(t) + "{"
			for i, e := range s {
				if i > 0 {
					r = strCat(r, ", ")
				}
				r = strCat(r, fr.fmtVal(et, e, verb, f, depth+1))
			}
			return strCat(r, "}")
		}
		var r any = "["
		for i, e := range s {
			if i > 0 {
				r = strCat(r, " ")
			}
			r = strCat(r, fr.fmtVal(et, e, verb, f, depth+1))
		}
		return strCat(r, "]")
	case *types.Map:
		m := v.(*Map)
		var r any = "map["
		if m != nil {
			var idx []int
			for i := range m.keys {
				if m.alive[i] {
					idx = append(idx, i)
				}
			}
			sort.SliceStable(idx, func(a, b int) bool {
				x, ok1 := m.keys[idx[a]].(string)
				y, ok2 := m.keys[idx[b]].(string)
				if ok1 && ok2 {
					return x < y
				}
				xi, ok1 := m.keys[idx[a]].(uint64)
				yi, ok2 := m.keys[idx[b]].(uint64)
				if ok1 && ok2 {
					return int64(xi) < int64(yi)
				}
				return false
			})
			for n, i := range idx {
				if n > 0 {
					r = strCat(r, " ")
				}
				r = strCat(r, fr.fmtVal(u.Key(), m.keys[i], verb, f, depth+1))
				r = strCat(r, ":")
				r = strCat(r, fr.fmtVal(u.Elem(), m.vals[i], verb, f, depth+1))
			}
		}
		return strCat(r, "]")
	case *types.Struct:
		var r any = "{"
		if f.sharp {
			r = typeString(t) + "{"
		}
		for i, e := range v.(Struct) {
			if i > 0 {
				if f.sharp {
					r = strCat(r, ", ")
				} else {
					r = strCat(r, " ")
				}
			}
			if f.plus || f.sharp {
				r = strCat(r, u.Field(i).Name()+":")
			}
			r = strCat(r, fr.fmtVal(u.Field(i).Type(), e, verb, f, depth+1))
		}
		return strCat(r, "}")
	case *types.Signature, *types.Chan:
		return "0xc000012345"
	}
	panic(unsupported("formatting of " + t.String()))
}

func (fr *Frame) sprintf(format any, args []any) any {
	var out any = ""
	// a symbolic format string: only its percent signs matter
	fb := strBytes(format)
	isPct := func(i int) bool {
		if c, ok := fb[i].(uint64); ok {
			return c == '%'
		}
		return fr.p.branch(fr.p.ctx.Eq(fb[i].(*Term), fr.p.ctx.Const('%', 8)))
	}
	conc := func(i int) byte {
		c := fr.p.concInt(fb[i], 8)
		fb2 := append([]any(nil), fb...)
		fb2[i] = c
		fb = fb2
		return byte(c)
	}
	argi := 0
	n := len(fb)
	for i := 0; i < n; {
		j := i
		for j < n && !isPct(j) {
			j++
		}
		if j > i {
			out = strCat(out, mkStr(fb[i:j]))
		}
		i = j
		if i >= n {
			break
		}
		i++
		f := fmtFlags{wid: -1, prec: -1}
	flags:
		for i < n {
			switch conc(i) {
			case '+':
				f.plus = true
			case '-':
				f.minus = true
			case '#':
				f.sharp = true
			case ' ':
				f.space = true
			case '0':
				f.zero = true
			default:
				break flags
			}
			i++
		}
		num := func() int {
			v, any := 0, false
			for i < n && conc(i) >= '0' && conc(i) <= '9' {
				v = v*10 + int(conc(i)-'0')
				any = true
				i++
			}
			if !any {
				return -1
			}
			return v
		}
		star := func() int {
			if i < n && conc(i) == '*' && argi < len(args) {
				i++
				v := fr.int(args[argi].(Iface).v)
				argi++
				return v
			}
			return num()
		}
		f.wid = star()
		if i < n && conc(i) == '.' {
			i++
			f.prec = star()
			if f.prec < 0 {
				f.prec = 0
			}
		}
		if i >= n {
			out = strCat(out, "%!(NOVERB)")
			break
		}
		verb := conc(i)
		i++
		if verb == '%' {
			out = strCat(out, "%")
			continue
		}
		if argi >= len(args) {
			out = strCat(out, "%!"+string(verb)+"(MISSING)")
			continue
		}
		a := args[argi].(Iface)
		argi++
		if verb == 'w' {
			verb = 'v'
		}
		out = strCat(out, fr.fmtVal(a.t, a.v, verb, f, 0))
	}
	if argi < len(args) {
		var r any = "%!(EXTRA "
		for k, x := range args[argi:] {
			if k > 0 {
				r = strCat(r, ", ")
			}
			iv := x.(Iface)
			if iv.t == nil {
				r = strCat(r, "<nil>")
				continue
			}
			r = strCat(r, strCat(typeString(iv.t)+"=", fr.fmtVal(iv.t, iv.v, 'v', fmtFlags{wid: -1, prec: -1}, 0)))
		}
		out = strCat(out, strCat(r, ")"))
	}
	return out
}

func (fr *Frame) sprint(args []any, ln bool) any {
	var out any = ""
	prevStr := false
	for i, x := range args {
		iv := x.(Iface)
		isStr := iv.t != nil && kindOf(iv.t).String() == "string"
		if i > 0 && (ln || !isStr && !prevStr) {
			out = strCat(out, " ")
		}
		prevStr = isStr
		out = strCat(out, fr.fmtVal(iv.t, iv.v, 'v', fmtFlags{wid: -1, prec: -1}, 0))
	}
	if ln {
		out = strCat(out, "\n")
	}
	return out
}

func (fr *Frame) writeTo(w any, s any) any {
	iv := w.(Iface)
	if iv.t == nil {
		fr.nilDeref(fr.pos)
	}
	return fr.callMethod(iv, "Write", Slice(append([]any(nil), strBytes(s)...)))
}

func sliceArgs(v any) []any { return []any(v.(Slice)) }

func init() {
	reg("fmt.Sprintf", func(fr *Frame, a []any) any { return fr.sprintf(a[0], sliceArgs(a[1])) })
	reg("fmt.Sprint", func(fr *Frame, a []any) any { return fr.sprint(sliceArgs(a[0]), false) })
	reg("fmt.Sprintln", func(fr *Frame, a []any) any { return fr.sprint(sliceArgs(a[0]), true) })
	reg("fmt.Fprintf", func(fr *Frame, a []any) any { return fr.writeTo(a[0], fr.sprintf(a[1], sliceArgs(a[2]))) })
	reg("fmt.Fprint", func(fr *Frame, a []any) any { return fr.writeTo(a[0], fr.sprint(sliceArgs(a[1]), false)) })
	reg("fmt.Fprintln", func(fr *Frame, a []any) any { return fr.writeTo(a[0], fr.sprint(sliceArgs(a[1]), true)) })
	reg("fmt.Appendf", func(fr *Frame, a []any) any {
		return Slice(append(append([]any(nil), a[0].(Slice)...), strBytes(fr.sprintf(a[1], sliceArgs(a[2])))...))
	})
	print := func(fr *Frame, f func() any) any {
		if fr.p.capture {
			fr.p.stdout = strCat(fr.p.stdout, f())
		}
		return Tuple{uint64(0), Iface{}}
	}
	reg("fmt.Printf", func(fr *Frame, a []any) any {
		return print(fr, func() any { return fr.sprintf(a[0], sliceArgs(a[1])) })
	})
	reg("fmt.Print", func(fr *Frame, a []any) any {
		return print(fr, func() any { return fr.sprint(sliceArgs(a[0]), false) })
	})
	reg("fmt.Println", func(fr *Frame, a []any) any {
		return print(fr, func() any { return fr.sprint(sliceArgs(a[0]), true) })
	})
	reg(symPkg+"Capture", func(fr *Frame, a []any) any {
		fr.p.capture, fr.p.stdout = true, ""
		return nil
	})
	reg(symPkg+"Output", func(fr *Frame, a []any) any {
		s := fr.p.stdout
		fr.p.stdout = ""
		if s == nil {
			s = ""
		}
		return s
	})
	reg("fmt.Errorf", func(fr *Frame, a []any) any {
		args := sliceArgs(a[1])
		s := fr.sprintf(a[0], args)
		fs, _ := a[0].(string)
		// %w
		var wrapped []Iface
		k := 0
		for i := 0; i+1 < len(fs); i++ {
			if fs[i] != '%' {
				continue
			}
			i++
			for i < len(fs) && strings.IndexByte("+-# 0123456789.", fs[i]) >= 0 {
				i++
			}
			if i >= len(fs) || fs[i] == '%' {
				continue
			}
			if fs[i] == 'w' && k < len(args) {
				iv := args[k].(Iface)
				if iv.t != nil && fr.p.e.methodByName(iv.t, nil, "Error") != nil {
					wrapped = append(wrapped, iv)
				}
			}
			k++
		}
		e := fr.p.e
		mk := func(pkg, n string, s Struct) any {
			c := new(any)
			*c = s
			return Iface{e.canon(types.NewPointer(e.namedType(pkg, n))), c}
		}
		switch len(wrapped) {
		case 0:
			if e.namedType("fmt", "wrapError") != nil && e.namedType("errors", "errorString") == nil {
				return mk("fmt", "wrapError", Struct{s, Iface{}})
			}
			return fr.p.newError(s)
		case 1:
			return mk("fmt", "wrapError", Struct{s, wrapped[0]})
		}
		sl := Slice{}
		for _, w := range wrapped {
			sl = append(sl, w)
		}
		return mk("fmt", "wrapErrors", Struct{s, sl})
	})
}
