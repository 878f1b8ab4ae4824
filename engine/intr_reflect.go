package main

import (
	"fmt"
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// RType stands for *reflect.rtype.
type RType struct{ t types.Type }

// rv stands for a reflect.Value (held in the first field of the struct).
type rv struct {
	t    types.Type
	v    any
	addr *any
	ro   bool
}

func (x *rv) val() any {
	if x.addr != nil {
		return *x.addr
	}
	return x.v
}

func (e *Engine) rtype(t types.Type) *RType {
	t = e.canon(t)
	if r, ok := e.rtypes.Load(t); ok {
		return r.(*RType)
	}
	r, _ := e.rtypes.LoadOrStore(t, &RType{t})
	return r.(*RType)
}

func (e *Engine) rtypeIface(t types.Type) any {
	if t == nil {
		return Iface{}
	}
	nt := e.namedType("reflect", "rtype")
	return Iface{e.canon(types.NewPointer(nt)), e.rtype(t)}
}

func mkRV(t types.Type, v any) any   { return Struct{&rv{t: t, v: v}, UPtr{}, uint64(0)} }
func mkRVA(t types.Type, a *any) any { return Struct{&rv{t: t, addr: a}, UPtr{}, uint64(0)} }
func invalidRV() any                 { return Struct{nilPtr, UPtr{}, uint64(0)} }
func getRV(v any) *rv {
	r, _ := v.(Struct)[0].(*rv)
	return r
}

func kindOf(t types.Type) reflect.Kind {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return reflect.Bool
		case types.Int:
			return reflect.Int
		case types.Int8:
			return reflect.Int8
		case types.Int16:
			return reflect.Int16
		case types.Int32:
			return reflect.Int32
		case types.Int64:
			return reflect.Int64
		case types.Uint:
			return reflect.Uint
		case types.Uint8:
			return reflect.Uint8
		case types.Uint16:
			return reflect.Uint16
		case types.Uint32:
			return reflect.Uint32
		case types.Uint64:
			return reflect.Uint64
		case types.Uintptr:
			return reflect.Uintptr
		case types.Float32:
			return reflect.Float32
		case types.Float64:
			return reflect.Float64
		case types.Complex64:
			return reflect.Complex64
		case types.Complex128:
			return reflect.Complex128
		case types.String:
			return reflect.String
		case types.UnsafePointer:
			return reflect.UnsafePointer
		}
	case *types.Pointer:
		return reflect.Pointer
	case *types.Slice:
		return reflect.Slice
	case *types.Array:
		return reflect.Array
	case *types.Map:
		return reflect.Map
	case *types.Chan:
		return reflect.Chan
	case *types.Signature:
		return reflect.Func
	case *types.Interface:
		return reflect.Interface
	case *types.Struct:
		return reflect.Struct
	}
	return reflect.Invalid
}

func typeElem(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return u.Elem()
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Map:
		return u.Elem()
	case *types.Chan:
		return u.Elem()
	}
	panic(unsupported("reflect Elem of " + t.String()))
}

func typeName(t types.Type) string {
	switch t := types.Unalias(t).(type) {
	case *types.Named:
		return t.Obj().Name()
	case *types.Basic:
		return t.Name()
	}
	return ""
}

func typeString(t types.Type) string {
	s := types.TypeString(t, func(p *types.Package) string { return p.Name() })
	s = strings.ReplaceAll(s, "interface{}", "interface {}")
	if s == "any" {
		s = "interface {}"
	}
	return s
}

// structField builds a reflect.StructField value.
func (p *Path) structField(st *types.Struct, i int) any {
	f := st.Field(i)
	sfT := p.e.namedType("reflect", "StructField")
	s := zeroVal(sfT).(Struct)
	u := sfT.Underlying().(*types.Struct)
	for k := 0; k < u.NumFields(); k++ {
		switch u.Field(k).Name() {
		case "Name":
			s[k] = f.Name()
		case "PkgPath":
			if !f.Exported() && f.Pkg() != nil {
				s[k] = f.Pkg().Path()
			}
		case "Type":
			s[k] = p.e.rtypeIface(f.Type())
		case "Tag":
			s[k] = st.Tag(i)
		case "Index":
			s[k] = Slice{i64(i)}
		case "Anonymous":
			s[k] = f.Anonymous()
		}
	}
	return s
}

func (p *Path) deepEqual(t types.Type, a, b any, depth int) any {
	if depth > 50 {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		x, y := a.(Slice), b.(Slice)
		if (x == nil) != (y == nil) || len(x) != len(y) {
			return false
		}
		var r any = true
		for i := range x {
			r = p.and(r, p.deepEqual(u.Elem(), x[i], y[i], depth+1))
		}
		return r
	case *types.Array:
		x, y := a.(Array), b.(Array)
		var r any = true
		for i := range x {
			r = p.and(r, p.deepEqual(u.Elem(), x[i], y[i], depth+1))
		}
		return r
	case *types.Struct:
		x, y := a.(Struct), b.(Struct)
		var r any = true
		for i := range x {
			r = p.and(r, p.deepEqual(u.Field(i).Type(), x[i], y[i], depth+1))
		}
		return r
	case *types.Pointer:
		x, xok := a.(*any)
		y, yok := b.(*any)
		if !xok || !yok {
			return a == b
		}
		if x == y {
			return true
		}
		if x == nil || y == nil {
			return false
		}
		return p.deepEqual(u.Elem(), *x, *y, depth+1)
	case *types.Interface:
		x, y := a.(Iface), b.(Iface)
		if x.t == nil || y.t == nil {
			return x.t == nil && y.t == nil
		}
		if x.t != y.t {
			return false
		}
		return p.deepEqual(x.t, x.v, y.v, depth+1)
	case *types.Map:
		x, y := a.(*Map), b.(*Map)
		if (x == nil) != (y == nil) {
			return false
		}
		if x == nil {
			return true
		}
		if x.n != y.n {
			return false
		}
		var r any = true
		for i := range x.keys {
			if !x.alive[i] {
				continue
			}
			j := p.mapFind(y, x.keys[i])
			if j < 0 {
				return false
			}
			r = p.and(r, p.deepEqual(u.Elem(), x.vals[i], y.vals[j], depth+1))
		}
		return r
	case *types.Signature:
		return a.(*Closure) == nil && b.(*Closure) == nil
	}
	return p.equals(t, a, b)
}

func (fr *Frame) rvSet(x *rv, v any) {
	if x.addr == nil {
		fr.p.rtPanic("reflect: reflect.Value.Set using unaddressable value")
	}
	if _, isI := x.t.Underlying().(*types.Interface); isI {
		if _, ok := v.(Iface); !ok {
			panic(unsupported("reflect set of interface"))
		}
	}
	storeVal(x.addr, copyVal(v))
}

// rvConvIface gives the value of x for assignment to a location of type t.
func (e *Engine) rvFor(x *rv, t types.Type) any {
	if _, isI := t.Underlying().(*types.Interface); isI {
		if _, already := x.t.Underlying().(*types.Interface); already {
			return x.val()
		}
		return Iface{e.canon(x.t), copyVal(x.val())}
	}
	return x.val()
}

func regRV(name string, f func(fr *Frame, x *rv, a []any) any) {
	reg("(reflect.Value)."+name, func(fr *Frame, a []any) any {
		x := getRV(a[0])
		if x == nil {
			switch name {
			case "IsValid":
				return false
			case "Kind":
				return uint64(0)
			case "String":
				return "<invalid Value>"
			}
			fr.p.rtPanic("reflect: call of reflect.Value." + name + " on zero Value")
		}
		return f(fr, x, a[1:])
	})
}

func regRT(name string, f func(fr *Frame, t types.Type, a []any) any) {
	reg("(*reflect.rtype)."+name, func(fr *Frame, a []any) any {
		r, ok := a[0].(*RType)
		if !ok || r == nil {
			panic(unsupported("reflect.Type." + name + " on a raw type"))
		}
		return f(fr, r.t, a[1:])
	})
}

func errorsUnwrap(fr *Frame, e Iface) []Iface {
	if f := fr.p.e.methodByName(e.t, nil, "Unwrap"); f != nil {
		r := fr.g.call(fr, f, []any{e.v}, nil)
		switch r := r.(type) {
		case Iface:
			if r.t != nil {
				return []Iface{r}
			}
		case Slice:
			var o []Iface
			for _, x := range r {
				if iv := x.(Iface); iv.t != nil {
					o = append(o, iv)
				}
			}
			return o
		}
	}
	return nil
}

func init() {
	reg("reflect.TypeOf", func(fr *Frame, a []any) any { return fr.p.e.rtypeIface(a[0].(Iface).t) })
	reg("internal/reflectlite.TypeOf", func(fr *Frame, a []any) any { return fr.p.e.rtypeIface(a[0].(Iface).t) })
	reg("reflect.ValueOf", func(fr *Frame, a []any) any {
		iv := a[0].(Iface)
		if iv.t == nil {
			return invalidRV()
		}
		return mkRV(iv.t, iv.v)
	})
	reg("internal/reflectlite.ValueOf", intrinsics["reflect.ValueOf"])
	reg("(internal/reflectlite.Value).Len", func(fr *Frame, a []any) any {
		return i64(len(getRV(a[0]).val().(Slice)))
	})
	reg("reflect.Zero", func(fr *Frame, a []any) any {
		t := a[0].(Iface).v.(*RType).t
		return mkRV(t, zeroVal(t))
	})
	reg("reflect.New", func(fr *Frame, a []any) any {
		t := a[0].(Iface).v.(*RType).t
		c := new(any)
		*c = zeroVal(t)
		return mkRV(fr.p.e.canon(types.NewPointer(t)), c)
	})
	reg("reflect.Indirect", func(fr *Frame, a []any) any {
		x := getRV(a[0])
		if pt, ok := x.t.Underlying().(*types.Pointer); ok {
			c := x.val().(*any)
			if c == nil {
				return invalidRV()
			}
			return mkRVA(fr.p.e.canon(pt.Elem()), c)
		}
		return a[0]
	})
	reg("reflect.PtrTo", func(fr *Frame, a []any) any {
		return fr.p.e.rtypeIface(types.NewPointer(a[0].(Iface).v.(*RType).t))
	})
	reg("reflect.PointerTo", intrinsics["reflect.PtrTo"])
	reg("reflect.SliceOf", func(fr *Frame, a []any) any {
		return fr.p.e.rtypeIface(types.NewSlice(a[0].(Iface).v.(*RType).t))
	})
	reg("reflect.MapOf", func(fr *Frame, a []any) any {
		return fr.p.e.rtypeIface(types.NewMap(a[0].(Iface).v.(*RType).t, a[1].(Iface).v.(*RType).t))
	})
	reg("reflect.MakeSlice", func(fr *Frame, a []any) any {
		t := a[0].(Iface).v.(*RType).t
		n, c := fr.int(a[1]), fr.int(a[2])
		s := make(Slice, c)
		for i := range s {
			s[i] = zeroVal(typeElem(t))
		}
		return mkRV(t, s[:n])
	})
	reg("reflect.MakeMap", func(fr *Frame, a []any) any {
		t := a[0].(Iface).v.(*RType).t
		return mkRV(t, newMap(t.Underlying().(*types.Map)))
	})
	reg("reflect.MakeMapWithSize", intrinsics["reflect.MakeMap"])
	reg("reflect.Append", func(fr *Frame, a []any) any {
		x := getRV(a[0])
		et := typeElem(x.t)
		s := x.val().(Slice)
		n := append(Slice(nil), s...)
		if s == nil {
			n = Slice{}
		}
		for _, y := range a[1].(Slice) {
			n = append(n, copyVal(fr.p.e.rvFor(getRV(y), et)))
		}
		return mkRV(x.t, n)
	})
	reg("reflect.DeepEqual", func(fr *Frame, a []any) any {
		x, y := a[0].(Iface), a[1].(Iface)
		if x.t == nil || y.t == nil {
			return x.t == nil && y.t == nil
		}
		if x.t != y.t {
			return false
		}
		return fr.p.deepEqual(x.t, x.v, y.v, 0)
	})
	regRV("IsValid", func(fr *Frame, x *rv, a []any) any { return true })
	regRV("Kind", func(fr *Frame, x *rv, a []any) any { return uint64(kindOf(x.t)) })
	regRV("Type", func(fr *Frame, x *rv, a []any) any { return fr.p.e.rtypeIface(x.t) })
	regRV("CanSet", func(fr *Frame, x *rv, a []any) any { return x.addr != nil && !x.ro })
	regRV("CanAddr", func(fr *Frame, x *rv, a []any) any { return x.addr != nil })
	regRV("CanInterface", func(fr *Frame, x *rv, a []any) any { return !x.ro })
	regRV("Elem", func(fr *Frame, x *rv, a []any) any {
		switch u := x.t.Underlying().(type) {
		case *types.Pointer:
			c, ok := x.val().(*any)
			if !ok {
				panic(unsupported("reflect Elem of opaque pointer"))
			}
			if c == nil {
				return invalidRV()
			}
			return mkRVA(fr.p.e.canon(u.Elem()), c)
		case *types.Interface:
			iv := x.val().(Iface)
			if iv.t == nil {
				return invalidRV()
			}
			return mkRV(iv.t, iv.v)
		}
		fr.p.rtPanic("reflect: call of reflect.Value.Elem on " + x.t.String())
		return nil
	})
	field := func(fr *Frame, x *rv, i int) any {
		st, ok := x.t.Underlying().(*types.Struct)
		if !ok {
			fr.p.rtPanic("reflect: call of reflect.Value.Field on " + x.t.String())
		}
		s := x.val().(Struct)
		f := st.Field(i)
		r := &rv{t: fr.p.e.canon(f.Type()), ro: x.ro || !f.Exported()}
		if x.addr != nil {
			r.addr = &s[i]
		} else {
			r.v = s[i]
		}
		return Struct{r, UPtr{}, uint64(0)}
	}
	regRV("NumField", func(fr *Frame, x *rv, a []any) any { return i64(x.t.Underlying().(*types.Struct).NumFields()) })
	regRV("Field", func(fr *Frame, x *rv, a []any) any { return field(fr, x, fr.int(a[0])) })
	regRV("FieldByName", func(fr *Frame, x *rv, a []any) any {
		st, ok := x.t.Underlying().(*types.Struct)
		if !ok {
			fr.p.rtPanic("reflect: FieldByName on " + x.t.String())
		}
		n := fr.str(a[0])
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == n {
				return field(fr, x, i)
			}
		}
		return invalidRV()
	})
	regRV("Len", func(fr *Frame, x *rv, a []any) any {
		switch v := x.val().(type) {
		case Slice:
			return i64(len(v))
		case Array:
			return i64(len(v))
		case string, *SStr:
			return i64(strLen(v))
		case *Map:
			if v == nil {
				return uint64(0)
			}
			return i64(v.n)
		}
		panic(unsupported("reflect Len"))
	})
	regRV("Index", func(fr *Frame, x *rv, a []any) any {
		i := fr.int(a[0])
		switch v := x.val().(type) {
		case Slice:
			if i < 0 || i >= len(v) {
				fr.p.rtPanic("reflect: slice index out of range")
			}
			return mkRVA(fr.p.e.canon(typeElem(x.t)), &v[i])
		case Array:
			if x.addr != nil {
				return mkRVA(fr.p.e.canon(typeElem(x.t)), &v[i])
			}
			return mkRV(fr.p.e.canon(typeElem(x.t)), v[i])
		case string, *SStr:
			return mkRV(types.Typ[types.Uint8], strAt(v, i))
		}
		panic(unsupported("reflect Index"))
	})
	regRV("MapKeys", func(fr *Frame, x *rv, a []any) any {
		kt := fr.p.e.canon(x.t.Underlying().(*types.Map).Key())
		it := fr.p.newMapIter(x.val().(*Map))
		r := Slice{}
		for {
			k, _, ok := it.next()
			if !ok {
				return r
			}
			r = append(r, mkRV(kt, k))
		}
	})
	regRV("MapIndex", func(fr *Frame, x *rv, a []any) any {
		m := x.val().(*Map)
		i := fr.p.mapFind(m, fr.p.e.rvFor(getRV(a[0]), x.t.Underlying().(*types.Map).Key()))
		if i < 0 {
			return invalidRV()
		}
		return mkRV(fr.p.e.canon(typeElem(x.t)), m.vals[i])
	})
	regRV("SetMapIndex", func(fr *Frame, x *rv, a []any) any {
		mt := x.t.Underlying().(*types.Map)
		k := fr.p.e.rvFor(getRV(a[0]), mt.Key())
		y := getRV(a[1])
		if y == nil {
			fr.p.mapDelete(x.val().(*Map), k)
			return nil
		}
		fr.p.mapSet(x.val().(*Map), k, copyVal(fr.p.e.rvFor(y, mt.Elem())))
		return nil
	})
	regRV("IsNil", func(fr *Frame, x *rv, a []any) any {
		switch v := x.val().(type) {
		case *any:
			return v == nil
		case Slice:
			return v == nil
		case *Map:
			return v == nil
		case Iface:
			return v.t == nil
		case *Closure:
			return v == nil
		case *Chan:
			return v == nil
		}
		return false
	})
	regRV("IsZero", func(fr *Frame, x *rv, a []any) any {
		return fr.p.deepEqual(x.t, x.val(), zeroVal(x.t), 0)
	})
	regRV("Interface", func(fr *Frame, x *rv, a []any) any {
		if _, isI := x.t.Underlying().(*types.Interface); isI {
			return x.val()
		}
		return Iface{fr.p.e.canon(x.t), copyVal(x.val())}
	})
	regRV("Addr", func(fr *Frame, x *rv, a []any) any {
		if x.addr == nil {
			fr.p.rtPanic("reflect.Value.Addr of unaddressable value")
		}
		return mkRV(fr.p.e.canon(types.NewPointer(x.t)), x.addr)
	})
	regRV("String", func(fr *Frame, x *rv, a []any) any {
		switch v := x.val().(type) {
		case string, *SStr:
			return v
		}
		return "<" + typeString(x.t) + " Value>"
	})
	regRV("Bool", func(fr *Frame, x *rv, a []any) any { return x.val() })
	intv := func(fr *Frame, x *rv, a []any) any {
		w, signed, _ := intInfo(x.t)
		switch v := x.val().(type) {
		case uint64:
			if signed {
				return uint64(sextW(v, w))
			}
			return v
		case *Term:
			if signed {
				return fr.p.unterm(fr.p.ctx.Sext(v, 64))
			}
			return fr.p.unterm(fr.p.ctx.Zext(v, 64))
		}
		panic(unsupported("reflect Int"))
	}
	regRV("Int", intv)
	regRV("Uint", intv)
	regRV("Float", func(fr *Frame, x *rv, a []any) any { return x.val() })
	regRV("SetString", func(fr *Frame, x *rv, a []any) any { fr.rvSet(x, a[0]); return nil })
	regRV("SetBool", func(fr *Frame, x *rv, a []any) any { fr.rvSet(x, a[0]); return nil })
	seti := func(fr *Frame, x *rv, a []any) any {
		w, _, _ := intInfo(x.t)
		switch v := a[0].(type) {
		case uint64:
			fr.rvSet(x, v&maskW(w))
		case *Term:
			if w < 64 {
				fr.rvSet(x, fr.p.unterm(fr.p.ctx.Trunc(v, w)))
			} else {
				fr.rvSet(x, v)
			}
		}
		return nil
	}
	regRV("SetInt", seti)
	regRV("SetUint", seti)
	regRV("SetFloat", func(fr *Frame, x *rv, a []any) any { fr.rvSet(x, a[0]); return nil })
	regRV("Set", func(fr *Frame, x *rv, a []any) any {
		fr.rvSet(x, fr.p.e.rvFor(getRV(a[0]), x.t))
		return nil
	})
	regRV("SetLen", func(fr *Frame, x *rv, a []any) any {
		fr.rvSet(x, x.val().(Slice)[:fr.int(a[0])])
		return nil
	})
	regRV("Slice", func(fr *Frame, x *rv, a []any) any {
		i, j := fr.int(a[0]), fr.int(a[1])
		switch v := x.val().(type) {
		case Slice:
			if i < 0 || j < i || j > cap(v) {
				fr.p.rtPanic("reflect.Value.Slice: slice index out of bounds")
			}
			return mkRV(x.t, v[i:j])
		case string, *SStr:
			if i < 0 || j < i || j > strLen(v) {
				fr.p.rtPanic("reflect.Value.Slice: string slice index out of bounds")
			}
			return mkRV(x.t, strSlice(v, i, j))
		}
		panic(unsupported("reflect Slice"))
	})
	regRV("Cap", func(fr *Frame, x *rv, a []any) any {
		if v, ok := x.val().(Slice); ok {
			return i64(cap(v))
		}
		panic(unsupported("reflect Cap"))
	})
	overflow := func(signed bool) func(fr *Frame, x *rv, a []any) any {
		return func(fr *Frame, x *rv, a []any) any {
			w64, _, _ := intInfo(x.t)
			w := uint(w64)
			v, ok := a[0].(uint64)
			if !ok {
				v = fr.p.concInt(a[0], 64)
			}
			if w >= 64 {
				return false
			}
			if signed {
				return uint64(int64(v<<(64-w))>>(64-w)) != v
			}
			return v>>w != 0
		}
	}
	regRV("OverflowInt", overflow(true))
	regRV("OverflowUint", overflow(false))
	regRV("OverflowFloat", func(fr *Frame, x *rv, a []any) any {
		if x.t.Underlying().(*types.Basic).Kind() == types.Float64 {
			return false
		}
		panic(unsupported("reflect OverflowFloat"))
	})
	regRV("NumMethod", func(fr *Frame, x *rv, a []any) any {
		return i64(types.NewMethodSet(x.t).Len())
	})
	regRV("Convert", func(fr *Frame, x *rv, a []any) any {
		t := a[0].(Iface).v.(*RType).t
		if types.Identical(t.Underlying(), x.t.Underlying()) {
			return mkRV(t, x.val())
		}
		if _, isI := t.Underlying().(*types.Interface); isI {
			return mkRV(t, fr.p.e.rvFor(x, t))
		}
		panic(unsupported("reflect Convert"))
	})
	regRV("Call", func(fr *Frame, x *rv, a []any) any {
		sig := x.t.Underlying().(*types.Signature)
		var args []any
		for i, y := range a[0].(Slice) {
			pt := sig.Params().At(min(i, sig.Params().Len()-1)).Type()
			if sig.Variadic() {
				panic(unsupported("reflect Call of variadic"))
			}
			args = append(args, fr.p.e.rvFor(getRV(y), pt))
		}
		r := fr.g.callClosure(fr, x.val().(*Closure), args)
		switch sig.Results().Len() {
		case 0:
			return Slice(nil)
		case 1:
			return Slice{mkRV(fr.p.e.canon(sig.Results().At(0).Type()), r)}
		}
		var out Slice
		for i, y := range r.(Tuple) {
			out = append(out, mkRV(fr.p.e.canon(sig.Results().At(i).Type()), y))
		}
		return out
	})
	regRT("Kind", func(fr *Frame, t types.Type, a []any) any { return uint64(kindOf(t)) })
	regRT("Elem", func(fr *Frame, t types.Type, a []any) any { return fr.p.e.rtypeIface(typeElem(t)) })
	regRT("Key", func(fr *Frame, t types.Type, a []any) any {
		return fr.p.e.rtypeIface(t.Underlying().(*types.Map).Key())
	})
	regRT("Name", func(fr *Frame, t types.Type, a []any) any { return typeName(t) })
	regRT("String", func(fr *Frame, t types.Type, a []any) any { return typeString(t) })
	regRT("PkgPath", func(fr *Frame, t types.Type, a []any) any {
		if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
			return n.Obj().Pkg().Path()
		}
		return ""
	})
	regRT("NumField", func(fr *Frame, t types.Type, a []any) any { return i64(t.Underlying().(*types.Struct).NumFields()) })
	regRT("Field", func(fr *Frame, t types.Type, a []any) any {
		return fr.p.structField(t.Underlying().(*types.Struct), fr.int(a[0]))
	})
	regRT("FieldByName", func(fr *Frame, t types.Type, a []any) any {
		st := t.Underlying().(*types.Struct)
		n := fr.str(a[0])
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == n {
				return Tuple{fr.p.structField(st, i), true}
			}
		}
		return Tuple{zeroVal(fr.p.e.namedType("reflect", "StructField")), false}
	})
	regRT("Comparable", func(fr *Frame, t types.Type, a []any) any { return types.Comparable(t) })
	regRT("Implements", func(fr *Frame, t types.Type, a []any) any {
		return fr.p.e.implements(t, a[0].(Iface).v.(*RType).t)
	})
	regRT("AssignableTo", func(fr *Frame, t types.Type, a []any) any {
		return types.AssignableTo(t, a[0].(Iface).v.(*RType).t)
	})
	regRT("ConvertibleTo", func(fr *Frame, t types.Type, a []any) any {
		return types.ConvertibleTo(t, a[0].(Iface).v.(*RType).t)
	})
	regRT("Len", func(fr *Frame, t types.Type, a []any) any { return i64(int(t.Underlying().(*types.Array).Len())) })
	regRT("NumMethod", func(fr *Frame, t types.Type, a []any) any { return i64(types.NewMethodSet(t).Len()) })
	regRT("NumIn", func(fr *Frame, t types.Type, a []any) any {
		return i64(t.Underlying().(*types.Signature).Params().Len())
	})
	regRT("NumOut", func(fr *Frame, t types.Type, a []any) any {
		return i64(t.Underlying().(*types.Signature).Results().Len())
	})
	regRT("In", func(fr *Frame, t types.Type, a []any) any {
		return fr.p.e.rtypeIface(t.Underlying().(*types.Signature).Params().At(fr.int(a[0])).Type())
	})
	regRT("Out", func(fr *Frame, t types.Type, a []any) any {
		return fr.p.e.rtypeIface(t.Underlying().(*types.Signature).Results().At(fr.int(a[0])).Type())
	})
	regRT("IsVariadic", func(fr *Frame, t types.Type, a []any) any { return t.Underlying().(*types.Signature).Variadic() })

	// ---- errors ----
	var is func(fr *Frame, e, target Iface) bool
	is = func(fr *Frame, e, target Iface) bool {
		if e.t == nil {
			return target.t == nil
		}
		if target.t != nil && types.Comparable(target.t) && e.t == target.t && fr.p.cond(fr.p.ifaceEq(e, target)) {
			return true
		}
		if f := fr.p.e.methodByName(e.t, nil, "Is"); f != nil {
			if fr.p.cond(fr.g.call(fr, f, []any{e.v, target}, nil)) {
				return true
			}
		}
		for _, u := range errorsUnwrap(fr, e) {
			if is(fr, u, target) {
				return true
			}
		}
		return false
	}
	reg("errors.Is", func(fr *Frame, a []any) any { return is(fr, a[0].(Iface), a[1].(Iface)) })
	var as func(fr *Frame, e Iface, tt types.Type, dst *any, target Iface) bool
	as = func(fr *Frame, e Iface, tt types.Type, dst *any, target Iface) bool {
		if e.t == nil {
			return false
		}
		if _, isI := tt.Underlying().(*types.Interface); isI {
			if fr.p.e.implements(e.t, tt) {
				*dst = e
				return true
			}
		} else if types.Identical(e.t, tt) {
			*dst = e.v
			return true
		}
		if f := fr.p.e.methodByName(e.t, nil, "As"); f != nil {
			if fr.p.cond(fr.g.call(fr, f, []any{e.v, target}, nil)) {
				return true
			}
		}
		for _, u := range errorsUnwrap(fr, e) {
			if as(fr, u, tt, dst, target) {
				return true
			}
		}
		return false
	}
	reg("errors.As", func(fr *Frame, a []any) any {
		t := a[1].(Iface)
		return as(fr, a[0].(Iface), fr.p.e.canon(deref(t.t)), t.v.(*any), t)
	})
	_ = fmt.Sprint
	_ = ssa.InstantiateGenerics
}
