package absint

// segment is a part of a sequence: elements lo..hi of a slice, or a single value.
type segment struct {
	base, lo, hi *Term
	elem         *Term
}

func (s *State) segments(t *Term, out []segment) []segment {
	switch t.Op {
	case "cat":
		for _, a := range t.Args {
			out = s.segments(a, out)
		}
	case "list":
		for _, a := range t.Args {
			if a.Op == "init" && a.Args[0].Op == "ia" {
				ia := a.Args[0]
				out = append(out, segment{base: ia.Args[0], lo: ia.Args[1], hi: Add(ia.Args[1], Int(1))})
				continue
			}
			out = append(out, segment{elem: a})
		}
	case "sub":
		if t.Args[0].Op == "cat" || t.Args[0].Op == "list" {
			return append(out, segment{base: t.Args[0], lo: t.Args[1], hi: t.Args[2]})
		}
		out = append(out, segment{base: t.Args[0], lo: t.Args[1], hi: t.Args[2]})
	case "capped":
		return s.segments(t.Args[0], out)
	case "comp":
		// as many elements as the facts tell
		if c := t.Val.(*Comp); len(c.Alts) == 1 && len(c.Alts[0].Guards) == 0 && s.EqualInts(c.N, Int(1)) {
			return s.segments(List(Subst(c.Alts[0].Val, BV, Int(0))), out)
		}
		out = append(out, segment{base: t, lo: Int(0), hi: Len(t)})
	default:
		out = append(out, segment{base: t, lo: Int(0), hi: Len(t)})
	}
	return out
}

// SameSeq reports that two slice values have the same elements, as far as the facts tell.
func (s *State) SameSeq(a, b *Term) bool {
	if a == b {
		return true
	}
	x, y := s.segments(a, nil), s.segments(b, nil)
	empty := func(g segment) bool { return g.elem == nil && s.entails(Sub(g.lo, g.hi)) }
	for {
		for len(x) > 0 && empty(x[0]) {
			x = x[1:]
		}
		for len(y) > 0 && empty(y[0]) {
			y = y[1:]
		}
		if len(x) == 0 || len(y) == 0 {
			return len(x) == 0 && len(y) == 0
		}
		p, q := &x[0], &y[0]
		if (p.elem == nil) != (q.elem == nil) {
			return false
		}
		if p.elem != nil {
			if p.elem != q.elem {
				return false
			}
			x, y = x[1:], y[1:]
			continue
		}
		if p.base != q.base || !s.EqualInts(p.lo, q.lo) {
			return false
		}
		switch {
		case s.EqualInts(p.hi, q.hi):
			x, y = x[1:], y[1:]
		case s.entails(Sub(p.hi, q.hi)):
			p.lo = q.hi
			y = y[1:]
		case s.entails(Sub(q.hi, p.hi)):
			q.lo = p.hi
			x = x[1:]
		default:
			return false
		}
	}
}
