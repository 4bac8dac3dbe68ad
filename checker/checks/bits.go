package checks

import (
	"strconv"

	"mockeycheck/absint"
)

// bit is a bit of a value: a constant or bit i of an unknown.
type bit struct {
	t *absint.Term
	i int
}

var bit0, bit1 = bit{nil, 0}, bit{nil, 1}

func constBits(v int64) []bit {
	out := make([]bit, 64)
	for i := range out {
		out[i] = bit{nil, int(v >> uint(i) & 1)}
	}
	return out
}

func opaqueBits(t *absint.Term) []bit {
	out := make([]bit, 64)
	for i := range out {
		out[i] = bit{t, i}
	}
	return out
}

// bitsOf gives the 64 bits of an integer term.
func bitsOf(t *absint.Term) []bit {
	if n, ok := t.IsInt(); ok {
		return constBits(n)
	}
	switch t.Op {
	case "byte":
		k, _ := strconv.Atoi(t.Aux)
		in := bitsOf(t.Args[0])
		out := constBits(0)
		if 8*k+8 <= 64 {
			copy(out, in[8*k:8*k+8])
		}
		return out
	case "frombytes":
		out := constBits(0)
		for i, a := range t.Args {
			if 8*i+8 <= 64 {
				copy(out[8*i:8*i+8], bitsOf(a))
			}
		}
		return out
	case "conv":
		n, signed := 0, false
		switch t.Aux {
		case "uint8", "byte":
			n = 8
		case "uint16":
			n = 16
		case "uint32":
			n = 32
		case "uint64", "uint", "uintptr":
			n = 64
		case "int8":
			n, signed = 8, true
		case "int16":
			n, signed = 16, true
		case "int32":
			n, signed = 32, true
		case "int64", "int":
			n = 64
		}
		if n == 0 {
			break
		}
		in := bitsOf(t.Args[0])
		out := constBits(0)
		copy(out[:n], in[:n])
		if signed {
			for i := n; i < 64; i++ {
				out[i] = in[n-1]
			}
		}
		return out
	case "bin&", "bin|", "bin^", "bin&^":
		a, b := bitsOf(t.Args[0]), bitsOf(t.Args[1])
		out := make([]bit, 64)
		for i := range out {
			r, ok := logic(t.Op, a[i], b[i])
			if !ok {
				return opaqueBits(t)
			}
			out[i] = r
		}
		return out
	case "bin<<", "bin>>":
		n, ok := t.Args[1].IsInt()
		if !ok || n < 0 || n > 63 {
			break
		}
		a := bitsOf(t.Args[0])
		out := constBits(0)
		if t.Op == "bin<<" {
			copy(out[n:], a[:64-n])
		} else {
			copy(out, a[n:])
			// an unsigned value is assumed: the type of the operand is not in the term
		}
		return out
	}
	if co, c, ok := absint.LinOf(t); ok && !(len(co) == 1 && co[t] == 1) {
		sum := constBits(c)
		for a, k := range co {
			sh := -1
			for i := 0; i < 63; i++ {
				if k == 1<<uint(i) {
					sh = i
				}
			}
			if sh < 0 {
				return opaqueBits(t)
			}
			in := opaqueBits(a)
			if a != t {
				in = bitsOf(a)
			}
			sl := constBits(0)
			copy(sl[sh:], in[:64-sh])
			for i := range sum {
				switch {
				case sum[i] == bit0:
					sum[i] = sl[i]
				case sl[i] == bit0:
				default:
					return opaqueBits(t) // carries
				}
			}
		}
		return sum
	}
	return opaqueBits(t)
}

func logic(op string, a, b bit) (bit, bool) {
	if op == "bin&^" {
		if b.t != nil {
			return bit{}, false
		}
		b.i = 1 - b.i
		op = "bin&"
	}
	if a.t != nil && b.t == nil {
		a, b = b, a
	}
	switch op {
	case "bin&":
		switch {
		case a == bit0:
			return bit0, true
		case a == bit1 || a == b:
			return b, true
		}
	case "bin|":
		switch {
		case a == bit1:
			return bit1, true
		case a == bit0 || a == b:
			return b, true
		}
	case "bin^":
		switch {
		case a == bit0:
			return b, true
		case a == b:
			return bit0, true
		case a == bit1 && b.t == nil:
			return bit{nil, 1 - b.i}, true
		}
	}
	return bit{}, false
}

// constOf is the value of bits that are all known.
func constOf(b []bit) (v uint64, ok bool) {
	for i, x := range b {
		if x.t != nil {
			return 0, false
		}
		v |= uint64(x.i) << uint(i)
	}
	return v, true
}

// sameBits: the 64 bits are those of the value.
func sameBits(b []bit, v *absint.Term) bool {
	w := bitsOf(v)
	for i := range w {
		if b[i] != w[i] {
			return false
		}
	}
	return true
}
