package main

// Obligations.  Each property is decided by a list of obligations; an obligation
// names the rule, the construct it is about and where that construct is.  An
// obligation that cannot be decided is left open.

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

type Ob struct {
	Rule      string `json:"rule"`
	Construct string `json:"construct"`
	Where     string `json:"where"`
	OK        bool   `json:"ok"`
	Open      bool   `json:"open,omitempty"` // neither proved nor refuted
	Detail    string `json:"detail,omitempty"`
}

type Check struct {
	L       *Loaded
	ID      string
	Tier    string
	obs     []*Ob
	fns     map[string]bool
	sites   int
	facts   map[string]int // measured quantities for the evidence
	explain string
	rules   map[string]string
	assume  []string
	curFn   *ssa.Function
	only    map[string]*Ob

	leaves   bool                                     // runs change variables of the packages
	binds    []Value                                  // of the function the next run starts with
	then     func(in *Interp, st *State, res []Value) // what follows it
	carrying bool                                     // each run starts from what the one before left in them
	carried  map[*Term]Value                          // that
	calls    int
}

type abort struct{}

func newCheck(l *Loaded, id, tier string) *Check {
	return &Check{L: l, ID: id, Tier: tier, fns: map[string]bool{}, facts: map[string]int{}, rules: map[string]string{}}
}

func (c *Check) rule(name, text string) { c.rules[name] = text }

func (c *Check) ob(rule, construct, where string, ok bool, detail string) {
	if ok {
		detail = ""
	} else {
		if firstOnly {
			fmt.Printf("VIOLATION property=%s %s | %s | %s | %s\n", c.ID, rule, construct, where, detail)
			os.Exit(1)
		}
		hurry()
	}
	detail, construct = printable(detail), printable(construct)
	c.obs = append(c.obs, &Ob{Rule: rule, Construct: construct, Where: where, OK: ok, Detail: detail})
}

// open records an obligation that the analysis can neither prove nor refute.
func (c *Check) open(rule, construct, where, detail string) {
	c.obs = append(c.obs, &Ob{Rule: rule, Construct: printable(construct), Where: where, Open: true, Detail: printable(detail)})
}

func (c *Check) fail(rule, construct, where, detail string) {
	c.ob(rule, construct, where, false, detail)
}

// try runs one obligation (or group); when the analysis cannot continue it is left open.
func (c *Check) try(rule, construct string, f func()) {
	if c.leaveOut(construct) {
		return
	}
	tickCount = 0
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		if _, ok := r.(abort); ok {
			return
		}
		where := ""
		if c.curFn != nil {
			where = c.L.where(c.curFn, nil)
		}
		switch e := r.(type) {
		case undecided:
			if os.Getenv("TRACE") != "" {
				fmt.Fprintf(os.Stderr, "%s\n%s\n", e, debug.Stack())
			}
			c.open(rule, construct, where, "undecided: "+string(e))
		case budgetExceeded:
			c.open(rule, construct, where, "undecided: the analysis budget is exhausted")
		default:
			d := fmt.Sprint(r)
			if os.Getenv("TRACE") != "" {
				d += "\n" + string(debug.Stack())
			}
			c.open(rule, construct, where, "undecided: analysis stopped: "+d)
		}
	}()
	f()
}

// fillMode, if not 0, makes the free bytes of a stream constants.
var fillMode int

// refill repeats the obligations that could not be decided for free bytes with
// constants in their place; what fails then is a violation.
func (c *Check) refill(run func(c *Check)) {
	open, known := map[string]*Ob{}, map[string]bool{}
	for _, o := range c.obs {
		k := o.Rule + "\x00" + o.Construct
		known[k] = true
		if o.Open {
			open[k] = o
		}
	}
	if _, ok := usesFill[c.ID]; len(open) == 0 || !ok {
		return
	}
	for fillMode = 1; fillMode <= 3 && len(open) > 0; fillMode++ {
		s := newCheck(c.L, c.ID, c.Tier)
		s.only = open
		s.try("check", c.ID, func() { run(s) })
		for _, o := range s.obs {
			k := o.Rule + "\x00" + o.Construct
			if x := open[k]; x != nil && !o.OK && !o.Open {
				*x = *o
				delete(open, k)
			} else if !known[k] && !o.OK && !o.Open {
				// a part of an obligation whose analysis stopped before it
				known[k] = true
				c.obs = append(c.obs, o)
			}
		}
	}
	fillMode = 0
}

// usesFill tells which checks have free bytes; those marked false leave out by
// the name of the construct what need not be decided again.
var usesFill = map[string]bool{"C20": true, "C33": true, "C35": true, "C21": false,
	"C23": false, "C24": false, "C25": false, "C26": false, "C27": false, "C28": false, "C29": false, "C30": false, "C31": false, "C32": false, "C34": false, "C39": false}

// leaveOut tells that nothing below a construct need be decided again.
func (c *Check) leaveOut(construct string) bool {
	if all, ok := usesFill[c.ID]; c.only == nil || !ok || all || construct == c.ID {
		return false
	}
	construct = printable(construct)
	for k := range c.only {
		if strings.HasPrefix(k[strings.IndexByte(k, 0)+1:], construct) {
			return false
		}
	}
	return true
}

// skip tells that an obligation need not be decided again.
func (c *Check) skip(rule, construct string) bool {
	return c.only != nil && c.only[rule+"\x00"+printable(construct)] == nil
}

func (c *Check) use(f *ssa.Function) {
	c.fns[f.RelString(nil)] = true
}

func (c *Check) mustPkg(rel string) *ssa.Package {
	p := c.L.pkg(rel)
	if p == nil {
		c.open("anchor", rel, rel, "package not found")
		panic(abort{})
	}
	return p
}

// fn resolves a function or method of a repository package by name, or failing
// that by a signature no other function of the package has.
func (c *Check) fn(rel, name string) *ssa.Function {
	f := c.lookupFn(rel, name)
	if f == nil {
		c.open("anchor", rel+"."+name, rel, "function not found")
		panic(abort{})
	}
	c.curFn = f
	c.use(f)
	return f
}

func (c *Check) pkgFuncs(rel string) []*ssa.Function {
	p := c.mustPkg(rel)
	var out []*ssa.Function
	for f := range c.L.repoFuncs() {
		if f.Pkg == p && f.Parent() == nil && f.Synthetic == "" {
			out = append(out, f)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].RelString(nil) < out[j].RelString(nil) })
	return out
}

func sigString(f *ssa.Function) string {
	q := func(p *types.Package) string { return "" }
	var ps, rs []string
	s := f.Signature
	for i := 0; i < s.Params().Len(); i++ {
		ps = append(ps, types.TypeString(s.Params().At(i).Type(), q))
	}
	for i := 0; i < s.Results().Len(); i++ {
		rs = append(rs, types.TypeString(s.Results().At(i).Type(), q))
	}
	return "(" + strings.Join(ps, ",") + ")(" + strings.Join(rs, ",") + ")"
}

var anchorSigs = map[string]string{
	"recovery/ibdata.parseFile":                "(string)([]Page,error)",
	"recovery/ibdata.parseFilHeader":           "([]byte)(Page,error)",
	"recovery/ibdata.makeReplaceIntoStatement": "([][]Columns,string,string)()",
	"recovery/ibdata.moveColumns2First":        "([]*Fields,[]Columns)([]Columns)",
	"recovery/ibdata.getTableColumnsFromDict":  "(string,string)([]Columns,error)",
	"recovery/ibdata.parsePage":                "([]byte,int,[]Columns,bool,uint64)([][]Columns)",
	"recovery/ibdata.parseRecords":             "([]byte,[]byte,[]uint64,[]Columns)([]Columns,uint64)",
	"recovery/ibdata.ibRecInitOffsetsOld":      "([]byte,uint64,[]byte,*[]uint64,uint64)()",
	"recovery/ibdata.ibRecInitOffsetsNew":      "([]byte,uint64,[]byte,*[]uint64,Tables)(bool)",
	"recovery/redo.parseRedoBlockData":         "([]byte)(error)",
	"recovery/redo.readRedoBlockHeader":        "([]byte)(BlockHeader,error)",
	"recovery/redo.makeSQL":                    "(Tables,[]*Fields,[]*Columns)()",
	"recovery/redo.validateLogHeader":          "(uint64,uint64)(bool)",
}

func (c *Check) lookupFn(rel, name string) *ssa.Function {
	fs := c.pkgFuncs(rel)
	var hit []*ssa.Function
	for _, f := range fs {
		if f.Name() == name {
			hit = append(hit, f)
		}
	}
	if len(hit) == 1 {
		return hit[0]
	}
	if len(hit) > 1 { // methods of several types: prefer Parse
		for _, f := range hit {
			if r := f.Signature.Recv(); r != nil {
				if n := namedOf(r.Type()); n != nil && n.Obj().Name() == "Parse" {
					return f
				}
			}
		}
		return nil
	}
	if s, ok := anchorSigs[rel+"."+name]; ok {
		for _, f := range fs {
			if sigString(f) == s {
				hit = append(hit, f)
			}
		}
		if len(hit) == 1 {
			return hit[0]
		}
	}
	return nil
}

func (c *Check) spec(name string) *ssa.Function {
	f := c.L.Spec.Func(name)
	if f == nil {
		panic(undecided("no reference function " + name))
	}
	return f
}

// ---- running ---------------------------------------------------------------------

type run struct {
	in  *Interp
	st  *State
	res []Value
	fn  *ssa.Function
}

func (c *Check) exec(fn *ssa.Function, args []Value, mem *Mem, opt func(*Interp)) *run {
	return c.execG(fn, args, mem, nTrue, opt)
}

func (c *Check) execG(fn *ssa.Function, args []Value, mem *Mem, g *Node, opt func(*Interp)) *run {
	in := newInterp(c.L)
	if opt != nil {
		opt(in)
	}
	m := newMem()
	if mem != nil {
		for k, v := range mem.all() {
			m.set(k, v)
		}
	}
	if c.carrying {
		c.calls++
		in.path0 = fmt.Sprintf("%scall %d ", in.path0, c.calls)
		for k, v := range c.carried {
			if _, ok := m.look(k); !ok {
				m.set(k, v)
			}
		}
	}
	c.L.startMem(m)
	st := &State{g: g, mem: m}
	if len(args) != len(fn.Params) {
		panic(undecided(fmt.Sprintf("%s takes %d arguments, the rule passes %d", fn.RelString(nil), len(fn.Params), len(args))))
	}
	res := in.Call(fn, args, c.binds, st, in.path0, nil)
	if c.then != nil {
		c.then(in, st, res)
	}
	for f := range in.fns {
		if c.L.isRepo(f) {
			c.use(f)
		}
	}
	c.keepState(st.mem)
	return &run{in, st, res, fn}
}

// keepState notes what a run leaves in variables of the packages.
func (c *Check) keepState(m *Mem) {
	if len(c.L.start) == 0 || m == nil {
		return
	}
	for k, v := range c.L.start {
		if w, ok := m.look(k); ok && !sameV(v, w) {
			c.leaves = true
		}
	}
	if !c.carrying || !c.leaves {
		return
	}
	c.carried = map[*Term]Value{}
	for k, v := range m.all() {
		if _, ok := c.L.start[k]; ok || k.k == KAlloc {
			c.carried[k] = v
		}
	}
}

// carries tells which checks judge functions that may be called again in the
// same process.
var carries = map[string]bool{"C03": true, "C09": true, "C10": true, "C11": true, "C12": true, "C13": true,
	"C14": true, "C15": true, "C16": true, "C32": true, "C35": true}

// again repeats a check whose runs leave something in variables of the packages,
// each run starting from what the one before left.
func (c *Check) again(run func(c *Check)) {
	if !c.leaves || !carries[c.ID] {
		return
	}
	s := newCheck(c.L, c.ID, c.Tier)
	s.carrying = true
	s.try("check", c.ID, func() { run(s) })
	for _, o := range s.obs {
		if !o.OK {
			o.Construct += " (in a later call)"
			c.obs = append(c.obs, o)
		}
	}
}

func sym(name string, t types.Type) Value { return atomVal(mkSym(name, 0), t) }

var (
	tBytes  = types.NewSlice(types.Typ[types.Byte])
	tU64    = types.Typ[types.Uint64]
	tInt    = types.Typ[types.Int]
	tString = types.Typ[types.String]
	tBool   = types.Typ[types.Bool]
	tAny    = types.NewInterfaceType(nil, nil)
)

func nilness(n *Node) *Node {
	return apply1(n, func(t *Term) *Node {
		if t.k == KNil {
			return nTrue
		}
		if t.k == KIface && t.s != "" {
			return nFalse
		}
		return eqT(t, nNil.leaf)
	})
}

func isErrorT(t types.Type) bool { return types.TypeString(t, nil) == "error" }

// view is the observable form of a value: text of a byte slice, printed form of
// an interface, nil-ness of an error.
func view(m *Mem, v Value, t types.Type) *Node {
	n, ok := v.(*Node)
	if !ok {
		return packV(v)
	}
	switch u := t.Underlying().(type) {
	case *types.Interface:
		if isErrorT(t) {
			return nilness(n)
		}
		return apply1(n, func(x *Term) *Node {
			r := fmtVal(m, "%v", x)
			if x.k == KIface {
				// a number and a text of the same form print alike; keep them so
				return r
			}
			return r
		})
	case *types.Slice:
		if isByteSlice(u) {
			return apply1(n, func(x *Term) *Node { return bytesStr(m, x) })
		}
	}
	return n
}

func (c *Check) eq(rule, construct, where string, got, want *Node, g *Node) {
	c.sites++
	if g == nil {
		g = nTrue
	}
	if g != nTrue {
		a := leafN(mkSym("⊥", 0))
		if got == nTrue || got == nFalse || got.leaf == nil {
			// conditions and values alike
		}
		got, want = iteN(g, got, a), iteN(g, want, a)
	}
	c.decide(rule, construct, where, got, want)
}

// decide settles an equality: proved, refuted by a witness, or open.
func (c *Check) decide(rule, construct, where string, got, want *Node) {
	ok, why := equalN(got, want, emptyCtx)
	if !ok {
		w, shown := refuted(got, want)
		if !shown {
			c.open(rule, construct, where, "not proved, no witness: "+why+diffParts(got, want))
			return
		}
		why += "\n      for example " + w
	}
	c.ob(rule, construct, where, ok, why)
}

// equiv compares the results of a function with those of its reference.
func (c *Check) equiv(rule, construct string, got, want *run) {
	where := c.L.where(got.fn, nil)
	if len(got.res) != len(want.res) {
		c.open(rule, construct, where, "number of results changed")
		return
	}
	c.eq(rule, construct+": returns", where, got.st.g, want.st.g, nil)
	for i := range got.res {
		gt := got.fn.Signature.Results().At(i).Type()
		wt := want.fn.Signature.Results().At(i).Type()
		c.eq(rule, fmt.Sprintf("%s: result %d", construct, i), where,
			view(got.st.mem, got.res[i], gt), view(want.st.mem, want.res[i], wt), andN(got.st.g, want.st.g))
	}
}

// evNamed filters events.
func (r *run) evNamed(pred func(*Event) bool) []*Event {
	var out []*Event
	for _, e := range r.in.events {
		if e.G != nFalse && pred(e) {
			out = append(out, e)
		}
	}
	return out
}

func (c *Check) posOf(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	q := c.L.Prog.Fset.Position(p)
	return fmt.Sprintf("%s:%d", relPath(c.L.Dir, q.Filename), q.Line)
}

// zero reports a rule that matched nothing.
func (c *Check) atLeast(rule, what string, got, min int) {
	c.facts[what] = got
	if got < min {
		c.open(rule, what, "", fmt.Sprintf("only %d found, at least %d expected", got, min))
	}
}

// printable shows control characters and invalid bytes as escapes.
func printable(s string) string {
	var b strings.Builder
	for i, r := range s {
		if r == '\n' || r >= 32 && r != 0x7f && r != utf8.RuneError {
			b.WriteRune(r)
		} else {
			fmt.Fprintf(&b, "\\x%02x", s[i])
		}
	}
	return b.String()
}

// diffParts names the first part in which two texts differ.
func diffParts(a, b *Node) string {
	if a.leaf == nil || b.leaf == nil {
		return ""
	}
	x, y := catParts(a.leaf), catParts(b.leaf)
	for i := range x {
		if i >= len(y) || x[i] != y[i] {
			o := "nothing"
			if i < len(y) {
				o = y[i].String()
			}
			return fmt.Sprintf("\n      first difference: %s and %s", x[i], o)
		}
	}
	return ""
}
