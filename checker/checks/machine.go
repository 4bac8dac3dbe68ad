package checks

import (
	"fmt"

	"mockeycheck/absint"
)

// jump is what a piece of code made by the library does: where it goes and what it changes.
type jump struct {
	to     []bit         // address jumped to, when it is computed
	at     []bit         // address of the word holding the address jumped to
	lit    []bit         // ... or that word, when it is part of the code
	regs   map[int][]bit // registers changed and their values
	n      int           // bytes used
	wrong  string        // why the code could not be understood
	ldFrom map[int][]bit // registers loaded from memory: the address
	open   bool          // the code need not end with a jump
}

func (j *jump) fail(format string, a ...interface{}) *jump {
	j.wrong = fmt.Sprintf(format, a...)
	return j
}

// decodeJump follows code up to its jump.
func decodeJump(arch string, code []*absint.Term) *jump { return decode(arch, code, false) }

// decodeLoads understands code that only sets registers.
func decodeLoads(arch string, code []*absint.Term) *jump { return decode(arch, code, true) }

func decode(arch string, code []*absint.Term, open bool) *jump {
	j := &jump{regs: map[int][]bit{}, ldFrom: map[int][]bit{}, open: open}
	if arch == "arm64" {
		return j.decodeARM64(code)
	}
	return j.decodeAMD64(code)
}

func constByte(t *absint.Term) (int, bool) {
	b := bitsOf(t)
	v, ok := constOf(b[:8])
	return int(v), ok
}

func word(code []*absint.Term) []bit {
	var out []bit
	for _, t := range code {
		out = append(out, bitsOf(t)[:8]...)
	}
	for len(out) < 64 {
		out = append(out, bit0)
	}
	return out
}

// decodeAMD64 understands NOP, MOV r64, imm64, MOV r64, [r64], JMP r64, JMP [r64] and JMP [RIP+disp].
func (j *jump) decodeAMD64(code []*absint.Term) *jump {
	pos := 0
	next := func() int {
		if pos >= len(code) {
			return -1
		}
		v, ok := constByte(code[pos])
		if !ok {
			return -2
		}
		pos++
		return v
	}
	for {
		start := pos
		op := next()
		rex := 0
		if op >= 0x40 && op <= 0x4f {
			rex = op
			op = next()
		}
		switch {
		case op == -1 && rex == 0 && j.open:
			j.n = pos
			return j
		case op == -1:
			return j.fail("ends without a jump")
		case op == -2:
			return j.fail("an opcode at byte %d depends on an address", pos)
		case op == 0x90:
		case op >= 0xb8 && op <= 0xbf && rex&8 != 0:
			r := op&7 | rex&1<<3
			if pos+8 > len(code) {
				return j.fail("ends within an instruction")
			}
			j.regs[r] = word(code[pos : pos+8])
			delete(j.ldFrom, r)
			pos += 8
		case op == 0x8b && rex&8 != 0:
			m := next()
			if m < 0 || m>>6 != 0 || m&7 == 4 || m&7 == 5 {
				return j.fail("instruction at byte %d is not understood", start)
			}
			dst, src := m>>3&7|rex&4<<1, m&7|rex&1<<3
			v, ok := j.regs[src]
			if !ok || j.ldFrom[src] != nil {
				return j.fail("loads through register %d, which it has not set", src)
			}
			j.ldFrom[dst] = v
			j.regs[dst] = nil
		case op == 0xff:
			m := next()
			if m < 0 || m>>3&7 != 4 {
				return j.fail("instruction at byte %d is not understood", start)
			}
			r := m&7 | rex&1<<3
			switch {
			case m>>6 == 3 && j.ldFrom[r] != nil:
				j.at = j.ldFrom[r]
			case m>>6 == 3 && j.regs[r] != nil:
				j.to = j.regs[r]
			case m>>6 == 0 && m&7 == 5:
				d := 0
				for k := 0; k < 4; k++ {
					b := next()
					if b < 0 {
						return j.fail("ends within an instruction")
					}
					d |= b << uint(8*k)
				}
				d = int(int32(d))
				if d < 0 || pos+d+8 > len(code) {
					return j.fail("jumps through a word that is not part of the code")
				}
				j.lit = word(code[pos+d : pos+d+8])
				pos += d + 8
			case m>>6 == 0 && m&7 != 4 && j.regs[r] != nil:
				j.at = j.regs[r]
			default:
				return j.fail("jumps through register %d, which it has not set", r)
			}
			j.n = pos
			return j
		default:
			return j.fail("instruction at byte %d (opcode %#x) is not understood", start, op)
		}
	}
}

// decodeARM64 understands MOVZ, MOVK, LDR Xt, [Xn], LDR Xt, literal, NOP and BR.
func (j *jump) decodeARM64(code []*absint.Term) *jump {
	for pos := 0; ; pos += 4 {
		if pos == len(code) && j.open {
			j.n = pos
			return j
		}
		if pos+4 > len(code) {
			return j.fail("ends without a jump")
		}
		w := word(code[pos : pos+4])
		field := func(lo, n int) int {
			v, ok := constOf(w[lo : lo+n])
			if !ok {
				return -1
			}
			return int(v)
		}
		switch {
		case field(0, 32) == 0xd503201f:
		case field(23, 9) == 0x1a5 || field(23, 9) == 0x1e5: // MOVZ, MOVK (64 bit)
			rd, hw := field(0, 5), field(21, 2)
			if rd < 0 || hw < 0 {
				return j.fail("the register or shift of the instruction at byte %d depends on an address", pos)
			}
			v := constBits(0)
			if field(23, 9) == 0x1e5 {
				if j.regs[rd] == nil {
					return j.fail("changes part of register %d, which it has not set", rd)
				}
				v = append([]bit(nil), j.regs[rd]...)
			}
			copy(v[16*hw:16*hw+16], w[5:21])
			j.regs[rd] = v
			delete(j.ldFrom, rd)
		case field(10, 22) == 0x3e5000: // LDR Xt, [Xn]
			rt, rn := field(0, 5), field(5, 5)
			if rt < 0 || rn < 0 || j.regs[rn] == nil {
				return j.fail("loads through a register it has not set (byte %d)", pos)
			}
			j.ldFrom[rt] = j.regs[rn]
			j.regs[rt] = nil
		case field(24, 8) == 0x58: // LDR Xt, literal
			rt, off := field(0, 5), field(5, 19)
			if rt < 0 || off < 0 || pos+4*off+8 > len(code) {
				return j.fail("loads a word that is not part of the code (byte %d)", pos)
			}
			j.regs[rt] = word(code[pos+4*off : pos+4*off+8])
			delete(j.ldFrom, rt)
		case field(10, 22) == 0x3587c0 && field(0, 5) == 0: // BR Xn
			rn := field(5, 5)
			switch {
			case rn >= 0 && j.ldFrom[rn] != nil:
				j.at = j.ldFrom[rn]
			case rn >= 0 && j.regs[rn] != nil:
				j.to = j.regs[rn]
			default:
				return j.fail("jumps through a register it has not set")
			}
			j.n = pos + 4
			return j
		default:
			return j.fail("instruction at byte %d is not understood", pos)
		}
	}
}
