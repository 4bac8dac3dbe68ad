package absint

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

// stayed: memory whose address never leaves the function that allocates it, except
// as an argument of functions that do not keep it.
func stayed(t *Term) bool { return t.Op == "alloc" && strings.HasSuffix(t.Aux, "!") }

func (in *Interp) stays(a *ssa.Alloc) bool {
	if v, ok := in.stay[a]; ok {
		return v
	}
	if in.stay == nil {
		in.stay = map[ssa.Value]bool{}
	}
	in.stay[a] = false
	r := in.staysIn(a, 0)
	in.stay[a] = r
	return r
}

func (in *Interp) staysIn(v ssa.Value, depth int) bool {
	if depth > 12 || v.Referrers() == nil {
		return false
	}
	for _, u := range *v.Referrers() {
		switch u := u.(type) {
		case *ssa.Store:
			if u.Val == v {
				return false
			}
		case *ssa.UnOp, *ssa.DebugRef, *ssa.Index:
		case *ssa.IndexAddr:
			if !in.staysIn(u, depth+1) {
				return false
			}
		case *ssa.FieldAddr:
			if !in.staysIn(u, depth+1) {
				return false
			}
		case *ssa.Slice:
			if !in.staysIn(u, depth+1) {
				return false
			}
		case *ssa.Call:
			if b, ok := u.Call.Value.(*ssa.Builtin); ok {
				switch b.Name() {
				case "len", "cap":
					continue
				case "append", "copy":
					// the elements are copied
					if len(u.Call.Args) == 2 && u.Call.Args[1] == v && u.Call.Args[0] != v {
						continue
					}
				}
				return false
			}
			if f := u.Call.StaticCallee(); f != nil && in.NonRetaining[f] {
				continue
			}
			return false
		default:
			return false
		}
	}
	return true
}
