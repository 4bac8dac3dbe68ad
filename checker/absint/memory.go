package absint

import (
	"go/types"
	"strconv"
	"strings"
)

type valState struct {
	v  *Term
	st *State
}

// FieldAddr is the address of field i of the struct at base.
func FieldAddr(base *Term, st types.Type, i int) *Term {
	s, _ := st.Underlying().(*types.Struct)
	return raw("fa", TypeKey(st)+"#"+strconv.Itoa(i), s, base)
}

func faIndex(t *Term) int {
	i, _ := strconv.Atoi(t.Aux[strings.LastIndex(t.Aux, "#")+1:])
	return i
}

// Cast is the address p seen as the address of a T.
func Cast(p *Term, T types.Type) *Term {
	if p == Nil {
		return Nil
	}
	if p.Op == "cast" {
		return Cast(p.Args[0], T)
	}
	if pt := pointee(p); pt != nil && types.Identical(pt, T) {
		return p
	}
	return raw("cast", TypeKey(T), T, p)
}

// pointee is the type of the memory an address term stands for, when known.
func pointee(p *Term) types.Type {
	switch p.Op {
	case "alloc":
		if t, ok := p.Val.(types.Type); ok {
			return t
		}
	case "fa":
		if s, ok := p.Val.(*types.Struct); ok {
			if i := faIndex(p); i < s.NumFields() {
				return s.Field(i).Type()
			}
		}
	case "glob":
		if g, ok := p.Val.(interface{ Type() types.Type }); ok {
			if pt, ok := g.Type().Underlying().(*types.Pointer); ok {
				return pt.Elem()
			}
		}
	case "ia":
		if p.Args[0].Op == "mkslice" {
			if t, ok := p.Args[0].Val.(types.Type); ok {
				return t
			}
		}
		if bt := pointee(p.Args[0]); bt != nil {
			if a, ok := bt.Underlying().(*types.Array); ok {
				return a.Elem()
			}
		}
		if vt := valueType(p.Args[0]); vt != nil {
			if s, ok := vt.Underlying().(*types.Slice); ok {
				return s.Elem()
			}
		}
	case "init", "param", "sym":
		if vt := valueType(p); vt != nil {
			if q, ok := vt.Underlying().(*types.Pointer); ok {
				return q.Elem()
			}
		}
	}
	return nil
}

// valueType is the type of the value a term stands for, when known.
func valueType(v *Term) types.Type {
	switch v.Op {
	case "init":
		return pointee(v.Args[0])
	case "sub", "capped":
		return valueType(v.Args[0])
	case "param", "sym":
		if t, ok := v.Val.(types.Type); ok {
			return t
		}
	}
	return nil
}

func addrRoot(a *Term) *Term {
	for {
		switch a.Op {
		case "fa", "cast", "ia", "sliceof", "sub", "capped", "mkslice":
			a = a.Args[0]
		default:
			return a
		}
	}
}

func isEntry(t *Term) bool {
	switch t.Op {
	case "param", "glob", "init":
		return true
	}
	return false
}

// mustEq: the two addresses are the same on this path.
func (s *State) mustEq(a, b *Term, d int) bool {
	if a == b {
		return true
	}
	if d > 8 || a.Op != b.Op || a.Aux != b.Aux || len(a.Args) != len(b.Args) {
		return false
	}
	switch a.Op {
	case "ia":
		return s.mustEq(a.Args[0], b.Args[0], d+1) && s.EqualInts(a.Args[1], b.Args[1])
	case "fa", "init":
		for i := range a.Args {
			if !s.mustEq(a.Args[i], b.Args[i], d+1) {
				return false
			}
		}
		return true
	}
	return false
}

// Fresh is a slice in memory nothing else refers to.
func Fresh(name string) *Term { return Sym("rres:" + name) }

// freshRes: the slice a reflect call returned is new memory.
func freshRes(t *Term) bool { return t.Op == "sym" && strings.HasPrefix(t.Aux, "rres:") }

// mayAlias decides whether two different address terms can denote overlapping memory.
func (s *State) mayAlias(a, b *Term) bool {
	if a == b {
		return true
	}
	if a.Op != b.Op {
		// a cell and an enclosing cell are handled by prefix rules
		return false
	}
	ra, rb := addrRoot(a), addrRoot(b)
	if ra.Op == "alloc" && rb.Op == "alloc" && ra != rb {
		if ra.Aux != rb.Aux || len(ra.Args) != len(rb.Args) {
			return false
		}
		// same allocation site in different iterations
		for i := range ra.Args {
			if n, ok := Sub(ra.Args[i], rb.Args[i]).IsInt(); ok && n != 0 {
				return false
			}
		}
	}
	if ra.Op == "alloc" && isEntry(rb) || rb.Op == "alloc" && isEntry(ra) {
		return false
	}
	if (stayed(ra) || stayed(rb)) && ra != rb && !(ra.Op == "alloc" && rb.Op == "alloc") {
		return false
	}
	if ra.Op == "glob" && rb.Op == "glob" && ra != rb {
		return false
	}
	if ra != rb && (freshRes(ra) || freshRes(rb)) && ra.Aux != rb.Aux {
		return false
	}
	switch a.Op {
	case "fa":
		if a.Aux != b.Aux {
			return false
		}
		if a.Args[0] == b.Args[0] {
			return true
		}
		return s.mayAliasBase(a.Args[0], b.Args[0])
	case "ia":
		if a.Args[0] == b.Args[0] {
			if n, ok := Sub(a.Args[1], b.Args[1]).IsInt(); ok && n != 0 {
				return false
			}
			d := Sub(a.Args[1], b.Args[1])
			if s.entails(Sub(d, Int(1))) || s.entails(Sub(Int(-1), d)) {
				return false
			}
			return true
		}
		ta, tb := pointee(a), pointee(b)
		if ta != nil && tb != nil && !types.Identical(ta, tb) {
			return false
		}
		return true
	case "glob":
		return false
	case "alloc":
		return true
	}
	return true
}

func (s *State) mayAliasBase(a, b *Term) bool {
	if a == b {
		return true
	}
	if a.Op == b.Op && (a.Op == "fa" || a.Op == "ia") {
		return s.mayAlias(a, b)
	}
	// embedded struct at different places: addresses of different shape are
	// pointers to the same struct type by typing; they may alias unless roots differ
	return true
}

// hasPrefix reports that address a lies inside the memory at p.
func hasPrefix(a, p *Term) bool {
	for a.Op == "fa" || a.Op == "ia" {
		a = a.Args[0]
		if a == p {
			return true
		}
	}
	return false
}

// ByteOf is byte k of an integer, least significant first.
func ByteOf(v *Term, k int64) *Term {
	if n, ok := v.IsInt(); ok && k < 8 {
		return Int(n >> uint(8*k) & 0xff)
	}
	return Mk("byte", strconv.FormatInt(k, 10), v)
}

// byteView recognises the address of bytes seen as an integer of n bytes.
func (in *Interp) byteView(addr *Term) (base, idx *Term, n int64, ok bool) {
	if addr.Op != "cast" || addr.Args[0].Op != "ia" {
		return
	}
	T, _ := addr.Val.(types.Type)
	et := pointee(addr.Args[0])
	if T == nil || et == nil || !isInt(T) || in.Sizes.Sizeof(et) != 1 {
		return
	}
	return addr.Args[0].Args[0], addr.Args[0].Args[1], in.Sizes.Sizeof(T), true
}

func (in *Interp) storeBytes(st *State, base, idx, v *Term, n int64) {
	for k := int64(0); k < n; k++ {
		in.store(st, IndexAddr(base, Add(idx, Int(k))), ByteOf(v, k))
	}
}

func (in *Interp) store(st *State, addr, v *Term) {
	if base, idx, n, ok := in.byteView(addr); ok {
		in.storeBytes(st, base, idx, v, n)
		return
	}
	if p, off, size, ok := in.punned(addr); ok {
		T := pointee(p)
		old := in.loadNoFork(st, p, T)
		in.store(st, p, in.mkPun(old, off, size, v, T))
		return
	}
	if addr.Op == "cast" && addr.Args[0].Op == "alloc" {
		// whole value through a pointer of another type
		in.store(st, addr.Args[0], Mk("recast", addr.Aux, v))
		return
	}
	for k := range st.cells {
		if k == addr {
			continue
		}
		if hasPrefix(k, addr) {
			delete(st.cells, k)
			continue
		}
		if st.mayAlias(k, addr) || in.aliasSub(st, k, addr) {
			st.cells[k] = in.freshT("clobbered", pointee(k))
		}
	}
	// enclosing whole-value cells: explode
	for p := addr; p.Op == "fa" || p.Op == "ia"; {
		p = p.Args[0]
		if w, ok := st.cells[p]; ok {
			delete(st.cells, p)
			in.explode(st, p, w)
		}
	}
	for i, q := range st.qents {
		var j *Term
		if match(q.addr, addr, &j) && j != nil && (st.entails(Sub(Int(-1), j)) || st.entails(Sub(j, q.bound))) {
			continue
		}
		if q.addr.Op == addr.Op && st.mayAlias(Subst(q.addr, BV, in.anyj()), addr) || hasPrefixPat(q.addr, addr) {
			c := *q
			c.dirty = append(q.dirty[:len(q.dirty):len(q.dirty)], addr)
			st.qents = append([]*qent(nil), st.qents...)
			st.qents[i] = &c
		}
	}
	st.cells[addr] = v
	st.stores = append(st.stores, addr)
}

func (in *Interp) anyj() *Term { return Sym("?anyj", in.iterStack...) }

// hasPrefixPat: the quantified address lies inside memory at a.
func hasPrefixPat(q, a *Term) bool {
	for q.Op == "fa" || q.Op == "ia" {
		q = q.Args[0]
		if q == a {
			return true
		}
	}
	return false
}

// aliasSub: k lies inside something that may alias addr.
func (in *Interp) aliasSub(st *State, k, addr *Term) bool {
	for p := k; p.Op == "fa" || p.Op == "ia"; {
		p = p.Args[0]
		if p == addr {
			return false
		}
		if p.Op == addr.Op && st.mayAlias(p, addr) && pointee(p) != nil && pointee(addr) != nil && types.Identical(pointee(p), pointee(addr)) {
			return true
		}
	}
	return false
}

func (in *Interp) explode(st *State, p, w *Term) {
	T := pointee(p)
	if T == nil {
		return
	}
	switch u := T.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			fa := FieldAddr(p, T, i)
			if _, ok := st.cells[fa]; !ok {
				st.cells[fa] = FieldOf(w, fa.Aux, u)
			}
		}
	case *types.Array:
		for i := int64(0); i < u.Len() && i < 64; i++ {
			ia := IndexAddr(p, Int(i))
			if _, ok := st.cells[ia]; !ok {
				if w.Op == "zero" {
					st.cells[ia] = Zero(u.Elem())
				} else {
					st.cells[ia] = Mk("elem", "", w, Int(i))
				}
			}
		}
	}
}

// punned recognises an address inside memory that is seen as another type; p is the
// real address.
func (in *Interp) punned(addr *Term) (p *Term, off, size int64, ok bool) {
	var o int64
	a := addr
	T := pointee(addr)
	for {
		switch a.Op {
		case "fa":
			s, _ := a.Val.(*types.Struct)
			if s == nil {
				return nil, 0, 0, false
			}
			var fs []*types.Var
			for i := 0; i < s.NumFields(); i++ {
				fs = append(fs, s.Field(i))
			}
			o += in.Sizes.Offsetsof(fs)[faIndex(a)]
			a = a.Args[0]
			continue
		case "cast":
			p := a.Args[0]
			if T == nil {
				T, _ = a.Val.(types.Type)
			}
			// only memory whose own type we know
			for p.Op == "fa" || p.Op == "alloc" {
				if pointee(p) == nil {
					return nil, 0, 0, false
				}
				if T == nil {
					return nil, 0, 0, false
				}
				return p, o, in.Sizes.Sizeof(T), true
			}
			// &local + constant
			if p.Op == "lin" {
				m, c := linOf(p)
				if len(m) == 1 {
					for k, v := range m {
						if v == 1 && k.Op == "alloc" && pointee(k) != nil && T != nil {
							return k, o + c, in.Sizes.Sizeof(T), true
						}
					}
				}
			}
		}
		return nil, 0, 0, false
	}
}

func (in *Interp) mkPun(old *Term, off, size int64, v *Term, T types.Type) *Term {
	aux := strconv.FormatInt(off, 10) + ":" + strconv.FormatInt(size, 10)
	if old.Op == "pun" && old.Aux == aux {
		old = old.Args[0]
	}
	t := raw("pun", aux, T, old, v)
	if in.Text != nil && T != nil && isString(T) {
		if s := in.known(in.Word(t, 0, 8, nil), in.Word(t, 8, 8, nil)); s != nil {
			return s
		}
	}
	if T != nil {
		if _, ok := T.Underlying().(*types.Slice); ok {
			w := map[string]*Term{}
			x := t
			for x.Op == "pun" {
				if _, ok := w[x.Aux]; !ok {
					w[x.Aux] = x.Args[1]
				}
				x = x.Args[0]
			}
			if w["0:8"] != nil && w["8:8"] != nil && w["16:8"] != nil {
				return Mk("bytesOf", "", w["0:8"], w["8:8"], w["16:8"])
			}
		}
	}
	return t
}

// Word is the machine word at a byte offset inside a value.
func (in *Interp) Word(v *Term, off, size int64, T types.Type) *Term {
	aux := strconv.FormatInt(off, 10) + ":" + strconv.FormatInt(size, 10)
	for v.Op == "pun" {
		if v.Aux == aux {
			return v.Args[1]
		}
		v = v.Args[0]
	}
	if st, ok := v.Val.(types.Type); ok && v.Op == "struct" {
		if u, ok := st.Underlying().(*types.Struct); ok {
			var fs []*types.Var
			for i := 0; i < u.NumFields(); i++ {
				fs = append(fs, u.Field(i))
			}
			for i, o := range in.Sizes.Offsetsof(fs) {
				if o == off && in.Sizes.Sizeof(fs[i].Type()) == size && i < len(v.Args) {
					return v.Args[i]
				}
			}
		}
	}
	if T != nil {
		if _, ok := T.Underlying().(*types.Slice); ok {
			switch aux {
			case "0:8":
				return SlicePtr(v)
			case "8:8":
				return Len(v)
			case "16:8":
				return Cap(v)
			}
		}
	}
	return raw("word", aux, nil, v)
}

// SlicePtr is the address of the first element.
func SlicePtr(v *Term) *Term {
	switch v.Op {
	case "bytesOf":
		return v.Args[0]
	case "sub":
		return Add(SlicePtr(v.Args[0]), v.Args[1])
	case "capped":
		return SlicePtr(v.Args[0])
	}
	return raw("sliceptr", "", nil, v)
}

// LoadAt is the value at an address in a state.
func (in *Interp) LoadAt(st *State, addr *Term, T types.Type) *Term {
	return in.loadNoFork(st, addr, T)
}

func (in *Interp) loadNoFork(st *State, addr *Term, T types.Type) *Term {
	vs := in.load(st, addr, T)
	if len(vs) == 1 {
		return vs[0].v
	}
	return in.fresh("load")
}

// load reads memory; it may split the state.
func (in *Interp) load(st *State, addr *Term, T types.Type) []valState {
	one := func(v *Term) []valState { return []valState{{v, st}} }
	if v, ok := st.cells[addr]; ok {
		return one(v)
	}
	if addr.Op == "ia" && addr.Args[0].Op == "copyof" {
		return one(Init(addr)) // a snapshot nobody can change
	}
	if base, idx, n, ok := in.byteView(addr); ok {
		var whole *Term
		var part []*Term
		for k := int64(0); k < n; k++ {
			b := in.loadNoFork(st, IndexAddr(base, Add(idx, Int(k))), pointee(addr.Args[0]))
			part = append(part, b)
			switch {
			case b.Op != "byte" || b.Aux != strconv.FormatInt(k, 10) || k > 0 && whole != b.Args[0]:
				whole = nil
			case k == 0:
				whole = b.Args[0]
			}
		}
		if whole != nil {
			return one(whole)
		}
		return one(Mk("frombytes", "", part...))
	}
	if p, off, size, ok := in.punned(addr); ok {
		w := in.loadNoFork(st, p, pointee(p))
		if in.Text != nil && T != nil && isString(T) {
			if s := in.known(in.Word(w, off, 8, pointee(p)), in.Word(w, off+8, 8, pointee(p))); s != nil {
				return one(s)
			}
		}
		return one(in.Word(w, off, size, pointee(p)))
	}
	if addr.Op == "cast" && addr.Args[0].Op == "alloc" {
		w := in.loadNoFork(st, addr.Args[0], pointee(addr.Args[0]))
		if T != nil && isString(T) && in.Text != nil && w.Op == "struct" && len(w.Args) == 2 {
			if s := in.known(w.Args[0], w.Args[1]); s != nil {
				return one(s)
			}
		}
		return one(Mk("recast", addr.Aux, w))
	}
	// inside a whole value
	for p := addr; p.Op == "fa" || p.Op == "ia"; {
		path := p
		p = p.Args[0]
		if w, ok := st.cells[p]; ok {
			_ = path
			return one(in.project(w, addr, p))
		}
	}
	// a whole value whose parts are known
	if T != nil {
		sub := false
		for k := range st.cells {
			if hasPrefix(k, addr) {
				sub = true
				break
			}
		}
		if sub {
			if u, ok := T.Underlying().(*types.Struct); ok {
				var fs []*Term
				same := true
				var from *Term
				for i := 0; i < u.NumFields(); i++ {
					fa := FieldAddr(addr, T, i)
					v := in.loadNoFork(st, fa, u.Field(i).Type())
					if v.Op == "field" && v.Aux == fa.Aux && (from == nil || from == v.Args[0]) {
						from = v.Args[0]
					} else {
						same = false
					}
					fs = append(fs, v)
				}
				if same && from != nil {
					return one(from)
				}
				return one(raw("struct", TypeKey(T), T, fs...))
			}
		}
	}
	// elements of known slices
	if addr.Op == "ia" {
		if r := in.elemAt(st, addr.Args[0], addr.Args[1]); r != nil {
			return r
		}
	}
	// quantified cells, newest first
	for i := len(st.qents) - 1; i >= 0; i-- {
		q := st.qents[i]
		var j *Term
		if match(q.addr, addr, &j) && j != nil {
			for _, d := range q.dirty {
				if d == addr || st.mayAlias(d, addr) || hasPrefix(addr, d) {
					return one(in.freshT("qdirty", T))
				}
			}
			if st.entails(j) && st.entails(Sub(Sub(q.bound, j), Int(1))) {
				return in.pick(st, q.alts, j, q.absent)
			}
			if st.entails(Sub(Int(-1), j)) || st.entails(Sub(j, q.bound)) {
				continue // not one of them
			}
			// unknown: both
			return one(in.freshT("qload", T))
		}
		// the address may be one of the quantified ones
		if st.mayAlias(Subst(q.addr, BV, in.anyj()), addr) {
			return one(in.freshT("qalias", T))
		}
	}
	// local memory starts as zero
	if r := addrRoot(addr); r.Op == "alloc" && (r == addr || inAlloc(addr)) {
		if T != nil {
			return one(Zero(T))
		}
		return one(in.freshT("zero", T))
	}
	var must *Term
	for _, s := range st.stores {
		if s == addr || !(st.mayAlias(s, addr) || hasPrefix(addr, s)) {
			continue
		}
		if st.mustEq(s, addr, 0) {
			must = s
			continue
		}
		must = nil
		break
	}
	if must != nil {
		if v, ok := st.cells[must]; ok {
			return one(v)
		}
	}
	for _, s := range st.stores {
		if s != addr && (st.mayAlias(s, addr) || hasPrefix(addr, s)) {
			v := in.freshT("aliased", T)
			st.cells[addr] = v
			return one(v)
		}
	}
	if st.epoch > 0 && in.Volatile != nil && in.Volatile(addr) {
		v := Sym("vol@"+strconv.Itoa(st.epoch), append([]*Term{addr}, st.epochIters...)...)
		return one(v)
	}
	if v := in.globalValue(addr); v != nil {
		return one(v)
	}
	if in.InitialT != nil {
		if v := in.InitialT(addr, T); v != nil {
			return one(v)
		}
	}
	if in.Initial != nil {
		if v := in.Initial(addr); v != nil {
			return one(v)
		}
	}
	return one(Init(addr))
}

// inAlloc: the address is a part of an allocation (no pointer followed).
func inAlloc(a *Term) bool {
	for {
		switch a.Op {
		case "fa":
			a = a.Args[0]
		case "ia":
			a = a.Args[0]
			if a.Op == "mkslice" || a.Op == "sliceof" {
				a = a.Args[0]
			}
		case "alloc":
			return true
		default:
			return false
		}
	}
}

// Init is the value memory had at the start of the analysis.
func Init(addr *Term) *Term { return raw("init", "", nil, addr) }

func (in *Interp) project(w, addr, p *Term) *Term {
	var chain []*Term
	for a := addr; a != p; a = a.Args[0] {
		chain = append(chain, a)
	}
	for i := len(chain) - 1; i >= 0; i-- {
		a := chain[i]
		if a.Op == "fa" {
			w = FieldOf(w, a.Aux, a.Val)
		} else {
			if w.Op == "zero" {
				if at, ok := w.Val.(types.Type); ok {
					if arr, ok := at.Underlying().(*types.Array); ok {
						w = Zero(arr.Elem())
						continue
					}
				}
			}
			w = Mk("elem", "", w, a.Args[1])
		}
	}
	return w
}

// pick chooses among alternatives for bound variable j.
func (in *Interp) pick(st *State, alts []Alt, j *Term, absent bool) []valState {
	var out []valState
	for _, a := range alts {
		s2 := st
		if len(alts) > 1 || absent {
			s2 = st.Clone()
		}
		ok := true
		if len(alts) > 1 || absent {
			for _, g := range a.Guards {
				l := (&subster{BV, j, map[*Term]*Term{}}).lit(g)
				if l.T == True || l.T == False {
					if (l.T == True) != l.Pos {
						ok = false
						break
					}
					continue
				}
				if !s2.Assume(l.T, l.Pos) {
					ok = false
					break
				}
			}
		}
		if ok {
			out = append(out, valState{Subst(a.Val, BV, j), s2})
		}
	}
	if absent {
		s2 := st.Clone()
		out = append(out, valState{in.fresh("maybe-unwritten"), s2})
	}
	if len(out) == 0 {
		out = append(out, valState{in.fresh("none"), st})
	}
	return out
}

// elemAt reads element i of a slice whose contents are known; nil when they are not.
func (in *Interp) elemAt(st *State, s, i *Term) []valState {
	switch s.Op {
	case "list":
		if n, ok := i.IsInt(); ok && n >= 0 && n < int64(len(s.Args)) {
			return []valState{{s.Args[n], st}}
		}
		if len(s.Args) > 0 && len(s.Args) <= 6 {
			var out []valState
			for k, e := range s.Args {
				s2 := st.Clone()
				if s2.Assume(Eq(i, Int(int64(k)), true), true) {
					out = append(out, valState{e, s2})
				}
			}
			return out
		}
	case "comp":
		c := s.Val.(*Comp)
		return in.pick(st, c.Alts, i, false)
	case "cat":
		off := Int(0)
		for _, p := range s.Args {
			n := Len(p)
			rel := Sub(i, off)
			if st.entails(rel) && st.entails(Sub(Sub(n, rel), Int(1))) {
				if r := in.elemAt(st, p, rel); r != nil {
					return r
				}
				return in.load(st, IndexAddr(p, rel), nil)
			}
			off = Add(off, n)
		}
		// last part: i beyond everything before it
		last := s.Args[len(s.Args)-1]
		before := Sub(off, Len(last))
		if st.entails(Sub(i, before)) {
			if r := in.elemAt(st, last, Sub(i, before)); r != nil {
				return r
			}
		}
	}
	return nil
}

// Contents makes the elements of a slice value explicit where they are known.
func (in *Interp) Contents(st *State, s *Term) *Term {
	switch s.Op {
	case "capped":
		return in.Contents(st, s.Args[0])
	case "sliceof":
		lo, ok1 := s.Args[1].IsInt()
		hi, ok2 := s.Args[2].IsInt()
		if ok1 && ok2 && hi-lo <= 64 {
			var es []*Term
			for k := lo; k < hi; k++ {
				a := IndexAddr(s.Args[0], Int(k))
				var et types.Type
				if bt := pointee(s.Args[0]); bt != nil {
					if arr, ok := bt.Underlying().(*types.Array); ok {
						et = arr.Elem()
					}
				}
				es = append(es, in.loadNoFork(st, a, et))
			}
			return List(es...)
		}
	case "mkslice":
		base, n := s.Args[0], s.Args[1]
		if k, ok := n.IsInt(); ok && k <= 64 {
			var es []*Term
			for i := int64(0); i < k; i++ {
				et, _ := s.Val.(types.Type)
				es = append(es, in.loadNoFork(st, IndexAddr(s, Int(i)), et))
			}
			return List(es...)
		}
		// written as a whole by one copy, or element by element in a loop, possibly
		// after a few leading elements
		if c := in.regions(st, s, base, n); c != nil {
			return c
		}
	case "cat":
		var ps []*Term
		for _, p := range s.Args {
			ps = append(ps, in.Contents(st, p))
		}
		return Cat(ps...)
	case "sub":
		b := in.Contents(st, s.Args[0])
		if b != s.Args[0] {
			return SubSlice(b, s.Args[1], s.Args[2])
		}
	}
	return s
}

// regions reconstructs the contents of a made slice from the writes to it.
func (in *Interp) regions(st *State, s, base, n *Term) *Term {
	pos := Int(0)
	var parts []*Term
	for step := 0; step < 16; step++ {
		if st.EqualInts(pos, n) {
			return Cat(parts...)
		}
		moved := false
		// a single element
		if v, ok := st.cells[IndexAddr(s, pos)]; ok {
			parts = append(parts, List(v))
			pos = Add(pos, Int(1))
			continue
		}
		for a, v := range st.cells {
			if a.Op == "ia" && a.Args[0] == s && st.EqualInts(a.Args[1], pos) {
				parts = append(parts, List(v))
				pos = Add(pos, Int(1))
				moved = true
				break
			}
		}
		if moved {
			continue
		}
		for _, q := range st.qents {
			if q.absent || q.addr.Op != "ia" || q.addr.Args[0] != s {
				continue
			}
			off := Sub(q.addr.Args[1], BV)
			if off.bv || !st.EqualInts(off, pos) {
				continue
			}
			parts = append(parts, mkComp(q.alts, q.bound))
			pos = Add(pos, q.bound)
			moved = true
			break
		}
		if moved {
			continue
		}
		for k, v := range st.cells {
			if k.Op == "region" && k.Args[0] == s && st.EqualInts(k.Args[1], pos) {
				parts = append(parts, v)
				pos = Add(pos, Len(v))
				moved = true
				break
			}
		}
		if !moved {
			return nil
		}
	}
	return nil
}
