package main

// C08: what may reach standard output.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

func init() {
	prop("C08", techReach+"; guards of the command's own output by abstract interpretation",
		"Every function a recovery command can run is searched for references to the printing functions and to os.Stdout. Outside the functions that print the statements there may be none whose text is not a statement; inside them the text printed for rows and updates of several shapes is compared with their statement lines, and every constant text is a piece of a statement; in the command functions themselves output may only happen when a stage has failed.",
		checkC08, "the logging library does not write to standard output")
}

// stmtLike reports whether a text starts a recovered statement.
func stmtLike(s string) bool {
	s = strings.ToLower(s)
	return strings.HasPrefix(s, "replace into `") || strings.HasPrefix(s, "update `")
}

// stmtPart reports whether a text can be a piece of a statement line.
func stmtPart(s string) bool {
	for _, w := range strings.FieldsFunc(strings.ToLower(s), func(r rune) bool { return !unicode.IsLetter(r) }) {
		switch w {
		case "values", "set", "where", "and", "null", "unhex", "b":
		default:
			return false
		}
	}
	return true
}

type outSite struct {
	fn   *ssa.Function
	ins  ssa.Instruction
	what string
}

// outSites are the references of a function to standard output.
func outSites(f *ssa.Function) []outSite {
	var out []outSite
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			for _, op := range ins.Operands(nil) {
				switch x := (*op).(type) {
				case *ssa.Function:
					if pkgOf(x) == "fmt" && (x.Name() == "Print" || x.Name() == "Println" || x.Name() == "Printf") {
						out = append(out, outSite{f, ins, "fmt." + x.Name()})
					}
				case *ssa.Global:
					if x.Pkg != nil && x.Pkg.Pkg.Path() == "os" && x.Name() == "Stdout" {
						// the instructions that use the loaded value
						if u, ok := ins.(*ssa.UnOp); ok && u.Op == token.MUL {
							uses := stdoutUses(u)
							for _, s := range uses {
								out = append(out, outSite{f, s, "os.Stdout"})
							}
							if len(uses) == 0 {
								out = append(out, outSite{f, ins, "os.Stdout"})
							}
						} else {
							out = append(out, outSite{f, ins, "os.Stdout"})
						}
					}
				}
			}
		}
	}
	return out
}

func stdoutUses(v ssa.Value) []ssa.Instruction {
	var out []ssa.Instruction
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.MakeInterface:
			out = append(out, stdoutUses(x)...)
		case *ssa.ChangeInterface:
			out = append(out, stdoutUses(x)...)
		default:
			out = append(out, r)
		}
	}
	return out
}

// leading is the first constant piece of a text value; kind is "const",
// "param" (a parameter of the function) or "".
func leading(v ssa.Value, depth int) (text string, kind string, param int) {
	if depth > 8 {
		return "", "", 0
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value != nil && x.Value.Kind() == constant.String {
			return constant.StringVal(x.Value), "const", 0
		}
		if x.Value != nil {
			return x.Value.String(), "const", 0
		}
	case *ssa.MakeInterface:
		if _, ok := x.X.Type().Underlying().(*types.Basic); ok {
			if b := x.X.Type().Underlying().(*types.Basic); b.Info()&types.IsString == 0 {
				return "<" + b.String() + ">", "const", 0
			}
		}
		return leading(x.X, depth+1)
	case *ssa.ChangeType:
		return leading(x.X, depth+1)
	case *ssa.Convert:
		return leading(x.X, depth+1)
	case *ssa.BinOp:
		if x.Op == token.ADD {
			t, k, p := leading(x.X, depth+1)
			if k == "const" && t == "" {
				return leading(x.Y, depth+1)
			}
			return t, k, p
		}
	case *ssa.Parameter:
		for i, q := range x.Parent().Params {
			if q == x {
				return "", "param", i
			}
		}
	case *ssa.Phi:
		var first string
		for i, e := range x.Edges {
			t, k, _ := leading(e, depth+1)
			if k != "const" {
				return "", "", 0
			}
			if i == 0 || !stmtLike(t) {
				first = t
			}
		}
		return first, "const", 0
	case *ssa.Call:
		if f := x.Call.StaticCallee(); f != nil && pkgOf(f) == "fmt" && strings.HasPrefix(f.Name(), "Sprint") {
			return leadingArgs(f.Name(), x.Call.Args, depth+1)
		}
	}
	return "", "", 0
}

// leadingArgs is the leading text of a print call's arguments.
func leadingArgs(name string, args []ssa.Value, depth int) (string, string, int) {
	if len(args) == 0 {
		return "", "", 0
	}
	if strings.HasSuffix(name, "f") {
		return leading(args[0], depth+1)
	}
	// element 0 of the variadic slice
	sl, ok := args[len(args)-1].(*ssa.Slice)
	if !ok {
		if c, ok := args[len(args)-1].(*ssa.Const); ok && c.IsNil() {
			return "\n", "const", 0
		}
		if p, ok := args[len(args)-1].(*ssa.Parameter); ok {
			return leading(p, depth+1)
		}
		return "", "", 0
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return "", "", 0
	}
	for _, r := range *al.Referrers() {
		ia, ok := r.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		if k, ok := constInt(ia.Index); !ok || k != 0 {
			continue
		}
		for _, s := range *ia.Referrers() {
			if st, ok := s.(*ssa.Store); ok && st.Addr == ia {
				return leading(st.Val, depth+1)
			}
		}
	}
	return "", "", 0
}

// siteText is the leading text written at a site.
func siteText(s outSite) (string, string, int) {
	ci, ok := s.ins.(ssa.CallInstruction)
	if !ok {
		return "", "", 0
	}
	cc := ci.Common()
	f := cc.StaticCallee()
	if f == nil {
		return "", "", 0
	}
	name := f.Name()
	switch {
	case pkgOf(f) == "fmt" && strings.HasPrefix(name, "Print"):
		return leadingArgs(name, cc.Args, 0)
	case pkgOf(f) == "fmt" && strings.HasPrefix(name, "Fprint"):
		return leadingArgs(name, cc.Args[1:], 0)
	case pkgOf(f) == "os" && (name == "WriteString" || name == "Write"):
		return leading(cc.Args[1], 0)
	case pkgOf(f) == "io" && name == "WriteString":
		return leading(cc.Args[1], 0)
	}
	return "", "", 0
}

func checkC08(c *Check) {
	c.rule("silent", "outside the statement printers no reference to standard output writes anything but a statement")
	c.rule("statement", "the statement printers write one complete line for each statement and nothing else")
	c.rule("command", "a command function itself writes to standard output only when a stage has failed")
	makers := map[*ssa.Function]bool{}
	for _, u := range [][2]string{{pIB, "makeReplaceIntoStatement"}, {pRedo, "makeSQL"}} {
		c.try("silent", u[1], func() { makers[c.fn(u[0], u[1])] = true })
	}
	var roots []*ssa.Function
	cmds := map[*ssa.Function]bool{}
	for _, name := range []string{"FromDataFile", "FromRedoFile"} {
		name := name
		c.try("command", name, func() {
			cr := c.runCommand(name)
			for _, f := range cr.fns {
				roots = append(roots, f)
				cmds[f] = true
			}
			fail := nFalse
			for _, e := range cr.errs {
				fail = orN(fail, failedN(e))
			}
			out := unionG(cr.r.evNamed(func(e *Event) bool { return e.Name == "stdout" }))
			c.decide2("command", name, c.L.where(cr.r.fn, nil), andN(out, notN(fail)), "writes to standard output although no stage has failed")
		})
	}
	c.atLeast("silent", "command functions", len(roots), 2)
	ri := c.L.reach(roots, makers)
	callers := map[*ssa.Function][]*ssa.Call{}
	for _, f := range ri.sorted() {
		c.use(f)
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if cl, ok := ins.(*ssa.Call); ok {
					if g := cl.Call.StaticCallee(); g != nil {
						callers[g] = append(callers[g], cl)
					}
				}
			}
		}
	}
	n := 0
	// the command package's own functions are judged by the guards above
	var check func(s outSite, text, kind string, p int, depth int)
	check = func(s outSite, text, kind string, p int, depth int) {
		construct := s.fn.RelString(nil) + ": " + s.what
		where := c.posOf(s.ins.Pos()) + " (" + s.fn.RelString(nil) + ")"
		switch {
		case kind == "const" && stmtLike(text):
			c.ob("silent", construct, where, true, "")
		case kind == "const":
			c.fail("silent", construct, where, fmt.Sprintf("writes the text %q to standard output, reached by %s", text, ri.path(s.fn)))
		case kind == "param" && depth < 4 && len(callers[s.fn]) > 0:
			for _, cl := range callers[s.fn] {
				if p >= len(cl.Call.Args) {
					c.open("silent", construct, where, "text passed in an unexpected way")
					continue
				}
				a := cl.Call.Args[p]
				var t, k string
				var q int
				if _, isSlice := a.Type().Underlying().(*types.Slice); isSlice {
					t, k, q = leadingArgs("Println", []ssa.Value{a}, 0)
				} else {
					t, k, q = leading(a, 0)
				}
				check(outSite{cl.Parent(), cl, s.what + " through " + s.fn.Name()}, t, k, q, depth+1)
			}
		case strings.HasSuffix(pkgOf(s.fn), "/logs"):
			c.fail("silent", construct, where, "the log is written to standard output")
		default:
			c.open("silent", construct, where, "the text written to standard output is not known")
		}
	}
	for _, f := range ri.sorted() {
		if f.Pkg != nil && f.Pkg == c.L.pkg(pMain) || f.Parent() != nil && f.Parent().Pkg == c.L.pkg(pMain) {
			continue
		}
		for _, s := range outSites(f) {
			n++
			t, k, p := siteText(s)
			check(s, t, k, p, 0)
		}
	}
	c.facts["functions searched"] = len(ri.funcs)
	c.facts["references to standard output outside the statement printers"] = n
	if len(ri.funcs) < 40 {
		c.open("silent", "reachable functions", "", "fewer functions than expected")
	} else {
		c.ob("silent", fmt.Sprintf("%d functions reachable from the commands", len(ri.funcs)), pMain, true, "")
	}
	// the statement printers
	I := func(n string) colSpec { return colSpec{n, "uint64", mtLong, false} }
	V := func(n string) colSpec { return colSpec{n, "text", mtVarchar, false} }
	N := func(n string) colSpec { return colSpec{n, "NULL", mtVarchar, false} }
	X := func(n string) colSpec { return colSpec{n, "text", 252, true} }
	c.replaceShape("statement", "lines of two rows", [][]colSpec{{I("a"), V("b"), N("c")}, {I("a"), X("b"), V("c")}})
	c.replaceShape("statement", "lines of no row", nil)
	c.updateShape("statement", "line of an update", []colSpec{I("id"), V("k")}, []colSpec{V("a"), N("b"), X("c")})
	c.updateShape("statement", "no line without a change", []colSpec{I("id")}, nil)
	c.updateShape("statement", "no line without a key", nil, []colSpec{V("a")})
	for m := range makers {
		r := c.L.reach([]*ssa.Function{m}, nil)
		for _, f := range r.sorted() {
			for _, s := range outSites(f) {
				t, k, p := siteText(s)
				construct := f.RelString(nil) + ": " + s.what
				where := c.posOf(s.ins.Pos()) + " (" + f.RelString(nil) + ")"
				if k == "const" && !stmtLike(t) && !stmtPart(t) {
					c.fail("statement", construct, where, fmt.Sprintf("writes the text %q to standard output", t))
				} else if strings.HasSuffix(pkgOf(f), "/logs") {
					c.fail("statement", construct, where, "the log is written to standard output")
				} else {
					_ = p
					c.ob("statement", construct, where, true, "")
				}
			}
		}
	}
}
