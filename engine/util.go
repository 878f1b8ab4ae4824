package main

import (
	"go/types"
	"io"
	"os"
	"unicode/utf8"
	"unsafe"
)

var stderr io.Writer = os.Stderr

func ptrSlice(p any, n int) []any {
	return unsafe.Slice(p.(*any), n)
}

var stdSizes = types.SizesFor("gc", "amd64")

func sizeofT(t types.Type) (n int64) {
	defer func() {
		if recover() != nil {
			n = 8
		}
	}()
	return stdSizes.Sizeof(t)
}

var sizeClasses = []int{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func roundupsize(n int) int {
	if n <= 32768-8 {
		for _, c := range sizeClasses {
			if c >= n {
				return c
			}
		}
	}
	return (n + 8191) &^ 8191
}

// growCap follows the runtime's growslice.
func growCap(oldCap, newLen int, esz int64) int {
	newcap := oldCap
	double := newcap + newcap
	if newLen > double {
		newcap = newLen
	} else if oldCap < 256 {
		newcap = double
	} else {
		for newcap < newLen {
			newcap += (newcap + 3*256) >> 2
		}
	}
	if esz == 0 {
		return newcap
	}
	return roundupsize(newcap*int(esz)) / int(esz)
}

func (p *Path) decodeRune(s any, i int) (any, int) {
	if cs, ok := s.(string); ok {
		r, n := utf8.DecodeRuneInString(cs[i:])
		return uint64(uint32(r)), n
	}
	b := s.(*SStr).b
	switch x := b[i].(type) {
	case uint64:
		if x < 0x80 {
			return x, 1
		}
	case *Term:
		if p.branch(p.ctx.Cmp(OUlt, x, p.ctx.Const(0x80, 8))) {
			return p.unterm(p.ctx.Zext(x, 32)), 1
		}
	}
	// a non-ASCII lead byte: make the sequence concrete
	var buf []byte
	for k := i; k < len(b) && k < i+4; k++ {
		buf = append(buf, byte(p.concInt(b[k], 8)))
		if utf8.FullRune(buf) {
			break
		}
	}
	r, n := utf8.DecodeRune(buf)
	return uint64(uint32(r)), n
}

func (p *Path) encodeRune(r any) []any {
	if t, ok := r.(*Term); ok {
		if p.branch(p.ctx.Cmp(OUlt, t, p.ctx.Const(0x80, t.w))) {
			return []any{p.unterm(p.ctx.Trunc(t, 8))}
		}
		r = p.concInt(t, 32)
	}
	return strBytes(string(rune(int32(uint32(r.(uint64))))))
}
