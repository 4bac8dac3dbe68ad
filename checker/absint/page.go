package absint

// Page arithmetic: bin&^(x, pagesize-1) is the canonical form of the page x lies in.

// PageSize is the size of a page.
func PageSize() *Term { return pageSizeT() }

func pageSizeT() *Term { return raw("pagesize", "", nil) }

func pageMask() *Term { return Sub(pageSizeT(), Int(1)) }

// PageOf is the start of the page x lies in.
func PageOf(x *Term) *Term {
	m, c := linOf(x)
	rest, whole := map[*Term]int64{}, map[*Term]int64{}
	for t, k := range m {
		if t.Op == "pagesize" || IsPageOf(t) {
			whole[t] = k
		} else {
			rest[t] = k
		}
	}
	if len(whole) > 0 {
		w := mkLin(whole, 0)
		if len(rest) == 0 && c == 0 {
			return w
		}
		return Add(w, PageOf(mkLin(rest, c)))
	}
	return raw("bin&^", "", nil, x, pageMask())
}

// IsPageOf: the term is the start of a page.
func IsPageOf(t *Term) bool { return t.Op == "bin&^" && t.Args[1] == pageMask() }

func init() {
	simplifiers["bin&^"] = func(aux string, val interface{}, a []*Term) *Term {
		if a[1] == pageMask() {
			return PageOf(a[0])
		}
		return raw("bin&^", aux, val, a...)
	}
	simplifiers["bin&"] = func(aux string, val interface{}, a []*Term) *Term {
		for i := range a {
			x, y := a[i], a[1-i]
			if y == pageMask() {
				return Sub(x, PageOf(x))
			}
			if y == MulC(pageSizeT(), -1) {
				return PageOf(x)
			}
		}
		return raw("bin&", aux, val, a...)
	}
	simplifiers["bin%"] = func(aux string, val interface{}, a []*Term) *Term {
		if a[1] == pageSizeT() {
			return Sub(a[0], PageOf(a[0]))
		}
		return raw("bin%", aux, val, a...)
	}
	simplifiers["bin|"] = func(aux string, val interface{}, a []*Term) *Term {
		for i := range a {
			if a[1-i] == pageMask() {
				return Add(PageOf(a[i]), pageMask())
			}
		}
		return raw("bin|", aux, val, a...)
	}
	simplifiers["bin*"] = func(aux string, val interface{}, a []*Term) *Term {
		for i := range a {
			x, y := a[i], a[1-i]
			if y == pageSizeT() && x.Op == "bin/" && x.Args[1] == pageSizeT() {
				return PageOf(x.Args[0])
			}
		}
		return raw("bin*", aux, val, a...)
	}
}

func init() {
	simplifiers["sliceptr"] = func(aux string, val interface{}, a []*Term) *Term { return SlicePtr(a[0]) }
}
