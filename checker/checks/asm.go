package checks

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"

	"mockeycheck/load"
)

// ---- assembly files ----

// asmFunc is a function of an assembly file.
type asmFunc struct {
	Name  string // without the middle dot
	Frame int64
	Args  int64 // -1: not stated
	File  string
	Line  int
	Ins   []asmIns
	Label map[string]int
}

type asmIns struct {
	Op   string
	Args []string
	Line int
	Size int64 // of data, in bytes; 0 for instructions
}

var (
	asmComment = regexp.MustCompile(`(?s)/\*.*?\*/`)
	asmWord    = regexp.MustCompile(`[A-Za-z_][A-Za-z0-9_]*`)
	asmLabel   = regexp.MustCompile(`^([A-Za-z_][A-Za-z0-9_]*):`)
	asmFrame   = regexp.MustCompile(`^\$(-?\d+)(?:-(\d+))?$`)
	asmFP      = regexp.MustCompile(`^([A-Za-z_0-9]+)\+(\d+)\(FP\)$`)
	asmSP      = regexp.MustCompile(`^(?:([A-Za-z_0-9]+)([+-]\d+)|(-?\d*))\((SP|RSP)\)$`)
)

// parseAsm reads an assembly file as the assembler does for a platform.
func parseAsm(file string, cfg load.Config) ([]*asmFunc, error) {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil, err
	}
	src := asmComment.ReplaceAllStringFunc(string(b), func(s string) string { return strings.Repeat("\n", strings.Count(s, "\n")) })
	defs := map[string]string{"GOOS_" + cfg.GOOS: "1", "GOARCH_" + cfg.GOARCH: "1"}
	var expand func(s string, depth int) (string, error)
	expand = func(s string, depth int) (string, error) {
		if depth > 40 {
			return "", fmt.Errorf("macros do not end")
		}
		var bad error
		out := asmWord.ReplaceAllStringFunc(s, func(w string) string {
			if d, ok := defs[w]; ok && bad == nil {
				var r string
				r, bad = expand(d, depth+1)
				return r
			}
			return w
		})
		return out, bad
	}
	var out []*asmFunc
	var cur *asmFunc
	var skip []bool
	lines := strings.Split(src, "\n")
	for n := 0; n < len(lines); n++ {
		line, no := lines[n], n+1
		if i := strings.Index(line, "//"); i >= 0 {
			line = line[:i]
		}
		for strings.HasSuffix(strings.TrimRight(line, " \t"), "\\") && n+1 < len(lines) {
			line = strings.TrimSuffix(strings.TrimRight(line, " \t"), "\\")
			n++
			line += " " + lines[n]
		}
		line = strings.TrimSpace(line)
		if strings.HasPrefix(line, "#") {
			fs := strings.Fields(line)
			switch fs[0] {
			case "#ifdef", "#ifndef":
				if len(fs) < 2 {
					return nil, fmt.Errorf("%s:%d: %s", file, no, line)
				}
				_, ok := defs[fs[1]]
				skip = append(skip, ok != (fs[0] == "#ifdef"))
			case "#else":
				if len(skip) == 0 {
					return nil, fmt.Errorf("%s:%d: %s", file, no, line)
				}
				skip[len(skip)-1] = !skip[len(skip)-1]
			case "#endif":
				if len(skip) == 0 {
					return nil, fmt.Errorf("%s:%d: %s", file, no, line)
				}
				skip = skip[:len(skip)-1]
			case "#include":
			case "#define":
				if anyTrue(skip) {
					continue
				}
				rest := strings.TrimSpace(strings.TrimPrefix(line, "#define"))
				name := asmWord.FindString(rest)
				body := strings.TrimPrefix(rest, name)
				if name == "" || strings.HasPrefix(body, "(") {
					return nil, fmt.Errorf("%s:%d: macros with parameters are not understood", file, no)
				}
				defs[name] = strings.TrimSpace(body)
			case "#undef":
				if len(fs) > 1 && !anyTrue(skip) {
					delete(defs, fs[1])
				}
			default:
				return nil, fmt.Errorf("%s:%d: %s is not understood", file, no, fs[0])
			}
			continue
		}
		if anyTrue(skip) || line == "" {
			continue
		}
		x, err := expand(line, 0)
		if err != nil {
			return nil, fmt.Errorf("%s:%d: %v", file, no, err)
		}
		for _, s := range strings.Split(x, ";") {
			s = strings.TrimSpace(s)
			for {
				m := asmLabel.FindStringSubmatch(s)
				if m == nil {
					break
				}
				if cur != nil {
					cur.Label[m[1]] = len(cur.Ins)
				}
				s = strings.TrimSpace(s[len(m[0]):])
			}
			if s == "" {
				continue
			}
			op := strings.Fields(s)[0]
			rest := strings.TrimSpace(s[len(op):])
			var args []string
			depth, last := 0, 0
			for i, r := range rest {
				switch r {
				case '(', '[':
					depth++
				case ')', ']':
					depth--
				case ',':
					if depth == 0 {
						args = append(args, strings.TrimSpace(rest[last:i]))
						last = i + 1
					}
				}
			}
			if t := strings.TrimSpace(rest[last:]); t != "" {
				args = append(args, t)
			}
			switch op {
			case "TEXT":
				if len(args) < 2 {
					return nil, fmt.Errorf("%s:%d: %s", file, no, s)
				}
				cur = &asmFunc{File: file, Line: no, Args: -1, Label: map[string]int{}}
				cur.Name = strings.TrimSuffix(strings.TrimSuffix(args[0], "(SB)"), "<ABIInternal>")
				cur.Name = strings.TrimPrefix(cur.Name, "\u00b7")
				m := asmFrame.FindStringSubmatch(strings.ReplaceAll(args[len(args)-1], " ", ""))
				if m == nil {
					return nil, fmt.Errorf("%s:%d: frame %s", file, no, args[len(args)-1])
				}
				cur.Frame, _ = strconv.ParseInt(m[1], 10, 64)
				if m[2] != "" {
					cur.Args, _ = strconv.ParseInt(m[2], 10, 64)
				}
				out = append(out, cur)
				continue
			case "GLOBL", "DATA":
				continue
			}
			if cur == nil {
				return nil, fmt.Errorf("%s:%d: %s outside of a function", file, no, op)
			}
			in := asmIns{Op: op, Args: args, Line: no}
			switch op {
			case "BYTE":
				in.Size = 1
			case "WORD":
				in.Size = 4
				if cfg.GOARCH == "amd64" {
					in.Size = 2
				}
			case "LONG":
				in.Size = 4
			case "QUAD", "DWORD":
				in.Size = 8
			}
			cur.Ins = append(cur.Ins, in)
		}
	}
	return out, nil
}

func anyTrue(bs []bool) bool {
	for _, b := range bs {
		if b {
			return true
		}
	}
	return false
}

// asmConst evaluates an immediate operand.
func asmConst(s string) (int64, bool) {
	if !strings.HasPrefix(s, "$") {
		return 0, false
	}
	tv, err := types.Eval(token.NewFileSet(), nil, 0, strings.TrimPrefix(s, "$"))
	if err != nil || tv.Value == nil {
		return 0, false
	}
	k := constant.ToInt(tv.Value)
	if v, ok := constant.Int64Val(k); ok {
		return v, true
	}
	v, ok := constant.Uint64Val(k)
	return int64(v), ok
}

// ---- argument layout ----

// slot is a parameter or result, or a word of one.
type slot struct {
	name string
	off  int64
	size int64
	res  bool
}

// frameOf lays parameters and results out as Go does for assembly functions.
func frameOf(sig *types.Signature, sizes types.Sizes) (slots []slot, total int64) {
	word := sizes.Sizeof(types.Typ[types.Uintptr])
	align := func(o, a int64) int64 { return (o + a - 1) / a * a }
	off := int64(0)
	add := func(name string, t types.Type, res bool) {
		off = align(off, sizes.Alignof(t))
		part := func(suffix string, d, n int64) {
			slots = append(slots, slot{name + suffix, off + d, n, res})
		}
		part("", 0, sizes.Sizeof(t))
		switch u := t.Underlying().(type) {
		case *types.Slice:
			part("_base", 0, word)
			part("_len", word, word)
			part("_cap", 2*word, word)
		case *types.Basic:
			if u.Kind() == types.String {
				part("_base", 0, word)
				part("_len", word, word)
			}
		case *types.Interface:
			part("_type", 0, word)
			part("_data", word, word)
		}
		off += sizes.Sizeof(t)
	}
	for i := 0; i < sig.Params().Len(); i++ {
		v := sig.Params().At(i)
		n := v.Name()
		if n == "" || n == "_" {
			n = "arg"
			if i > 0 {
				n += strconv.Itoa(i)
			}
		}
		add(n, v.Type(), false)
	}
	off = align(off, word)
	for i := 0; i < sig.Results().Len(); i++ {
		v := sig.Results().At(i)
		n := v.Name()
		if n == "" || n == "_" {
			n = "ret"
			if i > 0 {
				n += strconv.Itoa(i)
			}
		}
		add(n, v.Type(), true)
	}
	return slots, align(off, word)
}

// ---- execution ----

// asmEvent is something an assembly function does.
type asmEvent struct {
	kind string // "syscall", "call"
	what string // number or symbol
	args []string
	res  string // its result
	at   int    // index of the instruction
}

// asmPath is one way through an assembly function.
type asmPath struct {
	regs   map[string]string
	out    map[int64]string // words of outgoing arguments, from their start
	ret    map[int64]string // result words by frame offset
	conds  []string         // "x=0" and "x!=0"
	evs    []asmEvent
	cmp    [2]string
	wrong  string
	steps  int
	fresh  int
	forked int
}

func (p *asmPath) clone() *asmPath {
	n := *p
	n.regs, n.out, n.ret = map[string]string{}, map[int64]string{}, map[int64]string{}
	for k, v := range p.regs {
		n.regs[k] = v
	}
	for k, v := range p.out {
		n.out[k] = v
	}
	for k, v := range p.ret {
		n.ret[k] = v
	}
	n.conds = append([]string(nil), p.conds...)
	n.evs = append([]asmEvent(nil), p.evs...)
	return &n
}

func (p *asmPath) knows(c string) bool {
	for _, x := range p.conds {
		if x == c {
			return true
		}
	}
	return false
}

// asmRun follows all ways through a function.
type asmRun struct {
	f     *asmFunc
	cfg   load.Config
	slots []slot
	total int64
	bad   []string // layout errors
	seen  map[string]bool
	ends  []*asmPath
}

func (r *asmRun) complain(i int, format string, a ...interface{}) {
	msg := fmt.Sprintf("line %d: ", r.f.Ins[i].Line) + fmt.Sprintf(format, a...)
	if !r.seen[msg] {
		r.seen[msg] = true
		r.bad = append(r.bad, msg)
	}
}

func runAsm(f *asmFunc, sig *types.Signature, sizes types.Sizes, cfg load.Config) *asmRun {
	r := &asmRun{f: f, cfg: cfg, seen: map[string]bool{}}
	r.slots, r.total = frameOf(sig, sizes)
	if f.Args >= 0 && f.Args != r.total {
		r.bad = append(r.bad, fmt.Sprintf("line %d: states %d bytes of arguments and results, Go passes %d", f.Line, f.Args, r.total))
	}
	// the layout is checked in all of the code, whether it is reached or not
	for i, in := range f.Ins {
		for _, a := range in.Args {
			r.slot(i, a)
		}
	}
	r.run(&asmPath{regs: map[string]string{}, out: map[int64]string{}, ret: map[int64]string{}}, 0)
	return r
}

// slot finds the parameter or result an operand names.
func (r *asmRun) slot(i int, a string) *slot {
	m := asmFP.FindStringSubmatch(strings.TrimPrefix(a, "$"))
	if m == nil {
		if strings.Contains(a, "(FP)") {
			r.complain(i, "undecided: operand %s", a)
		}
		return nil
	}
	off, _ := strconv.ParseInt(m[2], 10, 64)
	// only the offset counts for the assembler
	var at *slot
	for k := range r.slots {
		s := &r.slots[k]
		if s.off == off && (at == nil || s.size <= at.size) {
			at = s
		}
	}
	if at == nil {
		r.complain(i, "there is no parameter or result at offset %d (%s)", off, m[1])
	}
	return at
}

// outSlot gives the place of an outgoing stack argument.
func (r *asmRun) outSlot(a string) (int64, bool) {
	m := asmSP.FindStringSubmatch(a)
	if m == nil {
		return 0, false
	}
	base := int64(0)
	if r.cfg.GOARCH == "arm64" {
		base = 8 // the link register is saved below the arguments
	}
	if m[1] != "" { // relative to the top of the frame
		d, _ := strconv.ParseInt(m[2], 10, 64)
		return r.f.Frame + d, d < 0 && r.f.Frame+d >= 0
	}
	d := int64(0)
	if m[3] != "" {
		d, _ = strconv.ParseInt(m[3], 10, 64)
	}
	return d - base, d-base >= 0 && d-base+8 <= r.f.Frame
}

// canon names 64 bit registers.
func (r *asmRun) reg(a string) (string, bool) {
	if r.cfg.GOARCH == "arm64" {
		switch {
		case a == "g" || a == "R28":
			return "g", true
		case a == "ZR":
			return "ZR", true
		case a == "LR":
			return "R30", true
		}
		if strings.HasPrefix(a, "R") {
			if n, err := strconv.Atoi(a[1:]); err == nil && n <= 30 {
				return a, true
			}
		}
		return "", false
	}
	for _, x := range []string{"AX", "BX", "CX", "DX", "SI", "DI", "BP", "R8", "R9", "R10", "R11", "R12", "R13", "R14", "R15"} {
		if a == x {
			return a, true
		}
	}
	return "", false
}

func (r *asmRun) read(p *asmPath, i int, a string) string {
	if v, ok := asmConst(a); ok {
		return strconv.FormatInt(v, 10)
	}
	if x, ok := r.reg(a); ok {
		switch {
		case x == "g":
			return "g"
		case x == "ZR":
			return "0"
		}
		if v := p.regs[x]; v != "" {
			return v
		}
		return "?" + x
	}
	if r.cfg.GOARCH == "amd64" {
		if a == "(TLS)" || regexp.MustCompile(`^(0)?\(\w+\)\(TLS\*1\)$`).MatchString(a) {
			return "g"
		}
		if a == "TLS" {
			return "tls"
		}
	}
	if s := r.slot(i, a); s != nil && !strings.HasPrefix(a, "$") {
		if s.res {
			if v := p.ret[s.off]; v != "" {
				return v
			}
			return "?" + s.name
		}
		if s.size != 8 {
			r.complain(i, "%s has %d bytes and not 8", s.name, s.size)
		}
		return s.name
	}
	if o, ok := r.outSlot(a); ok {
		if v := p.out[o]; v != "" {
			return v
		}
		return "?stack"
	}
	p.wrong = fmt.Sprintf("line %d: operand %s is not understood", r.f.Ins[i].Line, a)
	return "?"
}

func (r *asmRun) write(p *asmPath, i int, a, v string) {
	if x, ok := r.reg(a); ok {
		if x == "g" || r.cfg.GOARCH == "arm64" && x == "R18" {
			r.complain(i, "changes %s, which is not the function's to change", a)
		}
		if x != "ZR" {
			p.regs[x] = v
		}
		return
	}
	if s := r.slot(i, a); s != nil {
		if !s.res {
			r.complain(i, "changes the parameter %s", s.name)
		}
		if s.size != 8 {
			r.complain(i, "%s has %d bytes and not 8", s.name, s.size)
		}
		p.ret[s.off] = v
		return
	}
	if o, ok := r.outSlot(a); ok {
		p.out[o] = v
		return
	}
	p.wrong = fmt.Sprintf("line %d: destination %s is not understood", r.f.Ins[i].Line, a)
}

func (r *asmRun) value(p *asmPath) string {
	p.fresh++
	return fmt.Sprintf("result%d", p.fresh)
}

// clobber forgets all registers.
func (p *asmPath) clobber(res, v string) {
	p.regs = map[string]string{res: v}
}

func (r *asmRun) run(p *asmPath, i int) {
	arm := r.cfg.GOARCH == "arm64"
	jump := func(l string) int {
		if n, ok := r.f.Label[l]; ok {
			return n
		}
		p.wrong = fmt.Sprintf("line %d: no label %s", r.f.Ins[i].Line, l)
		return -1
	}
	branch := func(x, l string, onZero bool) {
		t := jump(l)
		if p.wrong != "" {
			r.ends = append(r.ends, p)
			return
		}
		for k, c := range []string{x + "=0", x + "!=0"} {
			zero := k == 0
			if p.knows(x+"=0") && !zero || p.knows(x+"!=0") && zero || x == "0" && !zero {
				continue
			}
			if n, err := strconv.Atoi(x); err == nil && n != 0 && zero {
				continue
			}
			q := p.clone()
			if !q.knows(c) {
				q.conds = append(q.conds, c)
			}
			if zero == onZero {
				r.run(q, t)
			} else {
				r.run(q, i+1)
			}
		}
	}
	for ; ; i++ {
		if p.wrong != "" {
			r.ends = append(r.ends, p)
			return
		}
		p.steps++
		if i >= len(r.f.Ins) {
			p.wrong = "runs past the end of the function"
			continue
		}
		if p.steps > 200000 {
			p.wrong = "the code does not end"
			continue
		}
		in := r.f.Ins[i]
		n := len(in.Args)
		switch in.Op {
		case "MOVQ", "MOVD":
			if n != 2 || (in.Op == "MOVD") != arm {
				p.wrong = fmt.Sprintf("line %d: %s is not understood", in.Line, in.Op)
				continue
			}
			r.write(p, i, in.Args[1], r.read(p, i, in.Args[0]))
		case "MOVL", "MOVW", "MOVWU":
			if v, ok := asmConst(in.Args[0]); ok && n == 2 && v >= 0 && v < 1<<31 {
				r.write(p, i, in.Args[1], strconv.FormatInt(v, 10))
				continue
			}
			p.wrong = fmt.Sprintf("line %d: %s is not understood", in.Line, in.Op)
		case "XORQ", "XORL", "EOR":
			if n >= 2 && in.Args[0] == in.Args[1] {
				r.write(p, i, in.Args[n-1], "0")
				continue
			}
			p.wrong = fmt.Sprintf("line %d: %s is not understood", in.Line, in.Op)
		case "CMPQ", "CMP", "TESTQ":
			if n != 2 {
				p.wrong = fmt.Sprintf("line %d: %s is not understood", in.Line, in.Op)
				continue
			}
			p.cmp = [2]string{r.read(p, i, in.Args[0]), r.read(p, i, in.Args[1])}
			if in.Op == "TESTQ" {
				if p.cmp[0] != p.cmp[1] {
					p.wrong = fmt.Sprintf("line %d: TESTQ of two values is not understood", in.Line)
				}
				p.cmp[1] = "0"
			}
		case "JMP", "B":
			if n != 1 {
				p.wrong = fmt.Sprintf("line %d: %s is not understood", in.Line, in.Op)
				continue
			}
			i = jump(in.Args[0]) - 1
		case "JZ", "JEQ", "BEQ", "JNZ", "JNE", "BNE":
			x := ""
			switch {
			case n != 1:
			case p.cmp[1] == "0":
				x = p.cmp[0]
			case p.cmp[0] == "0":
				x = p.cmp[1]
			}
			if x == "" {
				p.wrong = fmt.Sprintf("line %d: the comparison of %s and %s is not understood", in.Line, p.cmp[0], p.cmp[1])
				continue
			}
			branch(x, in.Args[0], in.Op == "JZ" || in.Op == "JEQ" || in.Op == "BEQ")
			return
		case "CBZ", "CBNZ":
			if n != 2 {
				p.wrong = fmt.Sprintf("line %d: %s is not understood", in.Line, in.Op)
				continue
			}
			branch(r.read(p, i, in.Args[0]), in.Args[1], in.Op == "CBZ")
			return
		case "SYSCALL", "SVC":
			if (in.Op == "SVC") != arm {
				p.wrong = fmt.Sprintf("line %d: %s on %s", in.Line, in.Op, r.cfg.GOARCH)
				continue
			}
			regs := []string{"DI", "SI", "DX", "R10", "R8", "R9"}
			nr, res := "AX", "AX"
			if arm {
				regs = []string{"R0", "R1", "R2", "R3", "R4", "R5"}
				nr, res = "R8", "R0"
				want := "0"
				if r.cfg.GOOS == "darwin" {
					nr, want = "R16", "128"
				}
				if n != 1 || r.read(p, i, in.Args[0]) != want {
					r.complain(i, "does not enter the kernel with SVC %s", want)
				}
			}
			e := asmEvent{kind: "syscall", what: r.read(p, i, nr), res: r.value(p), at: i}
			for _, x := range regs {
				e.args = append(e.args, r.read(p, i, x))
			}
			p.evs = append(p.evs, e)
			p.regs[res] = e.res
			if !arm {
				p.regs["CX"], p.regs["R11"] = "?CX", "?R11"
				if r.cfg.GOOS == "darwin" {
					p.regs["DX"] = "?DX"
				}
			} else if r.cfg.GOOS == "darwin" {
				p.regs["R1"] = "?R1"
			}
		case "CALL", "BL":
			if n != 1 || !strings.HasSuffix(in.Args[0], "(SB)") {
				p.wrong = fmt.Sprintf("line %d: call of %v", in.Line, in.Args)
				continue
			}
			sym := strings.TrimSuffix(in.Args[0], "(SB)")
			e := asmEvent{kind: "call", what: sym, res: r.value(p), at: i}
			res := "AX"
			if arm {
				res = "R0"
			}
			if strings.Contains(sym, "\u00b7") {
				for o := int64(0); o < 6; o++ {
					e.args = append(e.args, p.out[8*o])
				}
			} else {
				regs := []string{"DI", "SI", "DX", "CX", "R8", "R9"}
				if arm {
					regs = []string{"R0", "R1", "R2", "R3", "R4", "R5"}
				}
				for _, x := range regs {
					e.args = append(e.args, r.read(p, i, x))
				}
			}
			p.evs = append(p.evs, e)
			p.clobber(res, e.res)
			p.out = map[int64]string{}
		case "RET":
			r.ends = append(r.ends, p)
			return
		case "NOP", "PCALIGN", "FUNCDATA", "PCDATA", "NO_LOCAL_POINTERS":
		case "BYTE", "WORD", "LONG":
			v, ok := int64(0), false
			if n == 1 {
				v, ok = asmConst(in.Args[0])
			}
			if ok && (in.Op == "BYTE" && v == 0x90 || arm && in.Op == "WORD" && v == 0xd503201f) {
				continue
			}
			p.wrong = fmt.Sprintf("line %d: runs into data", in.Line)
		default:
			p.wrong = fmt.Sprintf("line %d: %s is not understood", in.Line, in.Op)
		}
	}
}

// ---- the functions of the module ----

// asmDecl is a function without body and what implements it.
type asmDecl struct {
	Obj *types.Func
	Cfg load.Config
	Run *asmRun
	Err string
	Pos string
	Pkg string
}

// asmDecls resolves every function without a body in a configuration.
func (c *Ctx) asmDecls(cfg load.Config) []*asmDecl {
	p := c.Prog(cfg)
	var out []*asmDecl
	for _, pkg := range p.Pkgs {
		impl := map[string][]*asmFunc{}
		perr := ""
		for _, o := range pkg.OtherFiles {
			if filepath.Ext(o) != ".s" {
				continue
			}
			fs, err := parseAsm(o, cfg)
			if err != nil {
				perr = err.Error()
			}
			for _, f := range fs {
				impl[f.Name] = append(impl[f.Name], f)
			}
		}
		links := linknames(pkg)
		for _, fd := range bodyless(pkg) {
			obj, _ := pkg.TypesInfo.Defs[fd.Name].(*types.Func)
			if obj == nil {
				continue
			}
			if links[obj.Name()] != "" {
				continue // rule runtime-symbols
			}
			d := &asmDecl{Obj: obj, Cfg: cfg, Pos: p.Pos(fd.Pos()), Pkg: strings.TrimPrefix(pkg.PkgPath, p.Module+"/")}
			fs := impl[obj.Name()]
			switch {
			case perr != "":
				d.Err = "undecided: " + strings.TrimPrefix(perr, load.Repo+"/")
			case len(fs) == 0:
				d.Err = "has neither a body nor an implementation in assembly"
			case len(fs) > 1:
				d.Err = "is implemented twice in assembly"
			default:
				d.Run = runAsm(fs[0], obj.Type().(*types.Signature), p.Sizes, cfg)
			}
			out = append(out, d)
		}
	}
	return out
}

// bodyless are the functions of a package that are declared without a body.
func bodyless(pkg *packages.Package) (out []*ast.FuncDecl) {
	for _, f := range pkg.Syntax {
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Body == nil {
				out = append(out, fd)
			}
		}
	}
	return
}

// linknames gives the symbols the functions of a package are linked to.
func linknames(pkg *packages.Package) map[string]string {
	out := map[string]string{}
	for _, f := range pkg.Syntax {
		for _, cg := range f.Comments {
			for _, cm := range cg.List {
				w := strings.Fields(cm.Text)
				if len(w) == 3 && w[0] == "//go:linkname" {
					out[w[1]] = w[2]
				}
			}
		}
	}
	return out
}

// asmPlatforms are the configurations whose functions without bodies are checked.
var asmPlatforms = []load.Config{
	{GOOS: "linux", GOARCH: "amd64"},
	{GOOS: "linux", GOARCH: "arm64"},
	{GOOS: "darwin", GOARCH: "amd64"},
	{GOOS: "darwin", GOARCH: "arm64"},
	{GOOS: "windows", GOARCH: "amd64"},
	{GOOS: "linux", GOARCH: "amd64", Tags: "race"},
	{GOOS: "linux", GOARCH: "amd64", Tags: "mockey_stw"},
	{GOOS: "linux", GOARCH: "arm64", Tags: "mockey_stw"},
}

func init() {
	rule("asm-layout", "every function without a body has one implementation in assembly, which finds parameters and results where Go puts them and gives all results", 4, ruleAsmLayout)
	rule("asm-write", "the page writer makes the page writable, copies, restores the protection and reports every failure", 3, ruleAsmWrite)
	decides("C30", "asm-layout", "asm-write")
	decides("C18", "asm-layout")
	decides("C03", "asm-write")
	decides("C28", "asm-write")
}

func ruleAsmLayout(c *Ctx, r *Report) {
	for _, cfg := range asmPlatforms {
		r.Config = cfg.String()
		for _, d := range c.asmDecls(cfg) {
			key := d.Pkg
			if d.Obj != nil {
				key += "." + d.Obj.Name()
			}
			pos := strings.TrimPrefix(d.Pos, load.Repo+"/")
			r.Functions[key+" "+cfg.String()] = true
			r.Ob(key + " on " + cfg.String())
			if d.Err != "" {
				r.Bad(key, pos, d.Err)
				continue
			}
			pos = fmt.Sprintf("%s:%d", strings.TrimPrefix(d.Run.f.File, load.Repo+"/"), d.Run.f.Line)
			for _, b := range d.Run.bad {
				r.Bad(key, pos, b)
			}
			if len(d.Run.ends) == 0 {
				r.Bad(key, pos, "never returns")
			}
			for _, e := range d.Run.ends {
				r.Paths++
				if e.wrong != "" {
					r.Bad(key, pos, "undecided: "+e.wrong)
					continue
				}
				for _, s := range d.Run.slots {
					switch {
					case s.res && e.ret[s.off] == "":
						r.Bad(key, pos, fmt.Sprintf("returns without having set %s", s.name), e.conds...)
					case s.res && len(d.Run.slots) == 1 && d.Pkg == "internal/tool" && e.ret[s.off] != "g":
						// what goroutine-number takes it for
						r.Bad(key, pos, "does not give the g of the goroutine", e.conds...)
					}
				}
			}
		}
	}
	r.Config = ""
}

// ruleAsmWrite: the routine that changes code.
func ruleAsmWrite(c *Ctx, r *Report) {
	for _, cfg := range asmPlatforms {
		if cfg.GOOS == "windows" || cfg.Tags != "" {
			continue
		}
		r.Config = cfg.String()
		var d *asmDecl
		for _, x := range c.asmDecls(cfg) {
			if x.Obj != nil && x.Pkg == "internal/monkey/mem" && x.Obj.Type().(*types.Signature).Params().Len() == 6 {
				need(d == nil, "one function of internal/monkey/mem in assembly with six parameters")
				d = x
			}
		}
		need(d != nil, "mem.write, implemented in assembly, with six parameters")
		key := d.Pkg + "." + d.Obj.Name()
		r.Functions[key+" "+cfg.String()] = true
		if d.Run == nil {
			r.Bad(key, d.Pos, d.Err)
			continue
		}
		writeContract(d, r, key)
	}
	r.Config = ""
}

func writeContract(d *asmDecl, r *Report, key string) {
	run := d.Run
	cfg := d.Cfg
	pos := fmt.Sprintf("%s:%d", strings.TrimPrefix(run.f.File, load.Repo+"/"), run.f.Line)
	sig := d.Obj.Type().(*types.Signature)
	name := func(i int) string {
		v := sig.Params().At(i)
		return v.Name()
	}
	target, data, n, page, size, prot := name(0), name(1), name(2), name(3), name(4), name(5)
	nr := map[string]string{"linux/amd64": "10", "linux/arm64": "226", "darwin/amd64": "33554506", "darwin/arm64": "33554506"}[cfg.GOOS+"/"+cfg.GOARCH]
	rw := map[string]bool{"3": true}
	if cfg.GOOS == "darwin" {
		rw["19"] = true // and a copy
	}
	edge := int64(4096)
	if cfg.GOARCH == "arm64" {
		edge = 16384
	}
	resOff := int64(-1)
	for _, s := range run.slots {
		if s.res {
			resOff = s.off
		}
	}
	bad := func(p *asmPath, format string, a ...interface{}) {
		var det []string
		for _, e := range p.evs {
			det = append(det, fmt.Sprintf("line %d: %s %s(%s) = %s", run.f.Ins[e.at].Line, e.kind, e.what, strings.Join(e.args, ", "), e.res))
		}
		r.Bad(key, pos, fmt.Sprintf(format, a...), append(det, p.conds...)...)
	}
	protect := func(e asmEvent) bool { return e.kind == "syscall" && e.what == nr }
	for _, p := range run.ends {
		r.Paths++
		r.Ob(fmt.Sprintf("%s on %s when %s", key, cfg, strings.Join(p.conds, ", ")))
		if p.wrong != "" {
			bad(p, "undecided: %s", p.wrong)
			continue
		}
		ret := p.ret[resOff]
		fails := ret != "" && (p.knows(ret+"!=0") || ret != "0" && asmNumber(ret))
		succeeds := ret == "0" || p.knows(ret+"=0")
		evs := p.evs
		if len(evs) == 0 || !protect(evs[0]) || evs[0].args[0] != page || evs[0].args[1] != size || !rw[evs[0].args[2]] {
			bad(p, "does not begin with making the page readable and writable")
			continue
		}
		first := evs[0].at
		open := p.knows(evs[0].res + "=0")
		evs = evs[1:]
		if !open && cfg.GOOS == "darwin" && len(evs) >= 2 && evs[0].kind == "call" && evs[0].what == "mach_task_self" && p.knows(p.evs[0].res+"!=0") {
			e := evs[1]
			whole := len(e.args) > 4 && (e.args[1] == page && e.args[2] == size || e.args[1] == target && e.args[2] == n)
			if e.what != "mach_vm_protect" || e.args[0] != evs[0].res || !whole || e.args[3] != "0" || !rw[e.args[4]] {
				bad(p, "the second attempt to make the page writable is not one")
				continue
			}
			open = p.knows(e.res + "=0")
			evs = evs[2:]
			if !open && !p.knows(e.res+"!=0") {
				bad(p, "goes on whether or not the page became writable")
				continue
			}
		} else if !open && !p.knows(p.evs[0].res+"!=0") {
			bad(p, "goes on whether or not the page became writable")
			continue
		}
		if !open {
			if len(evs) > 0 {
				bad(p, "does more after the page could not be made writable")
			}
			if !fails {
				bad(p, "reports %s when the page could not be made writable", ret)
			}
			continue
		}
		if len(evs) == 0 || evs[0].kind != "call" || evs[0].what != "runtime\u00b7memmove" || evs[0].args[0] != target || evs[0].args[1] != data || evs[0].args[2] != n {
			bad(p, "does not copy the data to the target when the page is writable")
			continue
		}
		if len(evs) < 2 || !protect(evs[1]) || evs[1].args[0] != page || evs[1].args[1] != size || evs[1].args[2] != prot {
			bad(p, "does not give the page the protection asked for after writing")
			continue
		}
		if len(evs) > 2 {
			bad(p, "does more than to write the page")
			continue
		}
		last := evs[1].at
		switch res := evs[1].res; {
		case ret == res:
		case p.knows(res+"=0") && succeeds, p.knows(res+"!=0") && fails:
		default:
			bad(p, "reports %s and not whether the protection was restored", ret)
		}
		before, after := int64(0), int64(0)
		for i, in := range run.f.Ins {
			if i < first {
				before += in.Size
			}
			if i > last {
				after += in.Size
			}
		}
		// what runs while the page cannot be executed must not lie in it
		if before < edge || after < edge {
			bad(p, "the code between the changes of protection has %d bytes of padding before and %d behind it: it may lie in the page that cannot be executed (%d bytes)", before, after, edge)
		}
	}
}

func asmNumber(s string) bool {
	_, err := strconv.ParseInt(s, 10, 64)
	return err == nil
}

// asmNames are the functions an assembly file may define.
func asmNames(file string, cfg load.Config) (map[string]bool, error) {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil, err
	}
	out := map[string]bool{}
	for _, m := range regexp.MustCompile(`(?m)^\s*TEXT\s+[^\s(]*\x{b7}([A-Za-z0-9_]+)`).FindAllStringSubmatch(string(b), -1) {
		out[m[1]] = true
	}
	return out, nil
}
