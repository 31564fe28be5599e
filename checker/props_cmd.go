package main

// The commands: C04 (a failed stage ends the command), C05 (options reach their
// stage), C06 (log levels), C07 (logs are flushed).

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	prop("C04", techVal,
		"Each command function is analysed with every stage replaced by a call with an unknown error; the conditions under which a stage starts, the message is printed and the process exits with a non-zero status are compared with those of the errors. The error results of the parse functions are followed from each file operation to the command, for one and for several redo files, and the result of the command library to the exit status of main.",
		checkC04)
	prop("C05", techVal,
		"The command tree is built from the constructors' calls to the flag library; all functions the library calls for a command (initialisation, pre-run, run and post-run functions) are then interpreted in its order, and the variable bound to each option is followed to the argument of the stage that option names, for an unknown value and for texts that are easily altered; the stages are followed to the calls that open files.",
		checkC05)
	prop("C06", techVal,
		"The logging functions are analysed with the threshold the initialisation sets for each level name; a message is handed to the logging library, with its arguments unchanged, exactly under that threshold.",
		checkC06, "the logging library writes what is handed to it when its verbosity is at least the level asked for")
	prop("C07", techVal,
		"Each command function is analysed with unknown stage errors; behind every stage that has run there is a flush before the function returns or the process exits.",
		checkC07, "the parse stage itself does not end the process (checked: no exit is reachable from it)")
}

type stageEv struct {
	name string
	err  *Node // the unknown error, nil when it has none
	ev   *Event
}

// cmdRun is one analysed command function.
type cmdRun struct {
	r      *run
	name   string
	errs   map[string]*Node
	order  []string
	stages map[string][]*Event
	fns    []*ssa.Function // the functions the command library calls
	failed *Node           // when one of them returns an error
	ret    []*Node         // these errors
}

// hook is a function the command library calls for a command.
type hook struct {
	fn    *ssa.Function
	binds []Value
	path  string
}

var cmdStages = map[string][][3]string{
	"FromDataFile": {{"log", pLogs, "InitLogs"}, {"dict", pIB, "ParseDictPage"}, {"data", pIB, "ParseDataPage"}},
	"FromRedoFile": {{"log", pLogs, "InitLogs"}, {"dict", pIB, "ParseDictPage"}, {"redo", pRedo, "ParseRedoLogs"}},
}

func symErr(name string) *Node { return leafN(mkSym(name, 0)) }

// chain lists the functions the command library calls for a command, in order.
func (c *Check) chain(name string) []*hook {
	var d *cmdDef
	err := c.attempt(func() {
		for _, x := range c.commands() {
			if x.name == name && x.parent != nil {
				d = x
			}
		}
	})
	if d == nil || d.run == nil {
		f := c.L.pkg(pMain).Func(name)
		if f == nil {
			if err == "" {
				err = "command function not found"
			}
			c.open("anchor", name, pMain, err)
			panic(abort{})
		}
		if err == "" {
			err = "the function is not the one of a command"
		}
		c.open("anchor", name, pMain, err)
		return []*hook{{fn: f, path: name}}
	}
	var hs []*hook
	own := func(d *cmdDef, k string) bool {
		for _, x := range []string{k + "E", k} {
			if h := d.hooks[x]; h != nil {
				hs = append(hs, &hook{h.fn, h.binds, x})
				return true
			}
		}
		return false
	}
	up := func(k string) {
		for p := d; p != nil; p = p.parent {
			if own(p, k) {
				return
			}
		}
	}
	for i, h := range d.inits {
		hs = append(hs, &hook{h.fn, h.binds, fmt.Sprintf("OnInitialize%d", i)})
	}
	up("PersistentPreRun")
	own(d, "PreRun")
	own(d, "Run")
	own(d, "PostRun")
	up("PersistentPostRun")
	return hs
}

// attempt runs f and says why it could not finish.
func (c *Check) attempt(f func()) (why string) {
	defer func() {
		switch e := recover().(type) {
		case nil:
		case undecided:
			why = string(e)
		case abort:
			why = "stopped"
		default:
			panic(e)
		}
	}()
	f()
	return ""
}

func (c *Check) runCommand(name string) *cmdRun { return c.runCommandIn(name, nil) }

// runCommandIn analyses a command function in a memory.
func (c *Check) runCommandIn(name string, mem *Mem) *cmdRun {
	hs := c.chain(name)
	cr := &cmdRun{name: name, errs: map[string]*Node{}, stages: map[string][]*Event{}, failed: nFalse}
	argsOf := func(f *ssa.Function) (args []Value) {
		for i, p := range f.Params {
			args = append(args, sym(fmt.Sprintf("arg%d", i), p.Type()))
		}
		return args
	}
	returned := func(st *State, f *ssa.Function, res []Value) {
		if f.Signature.Results().Len() == 1 {
			e := asNode(res[0])
			cr.failed = orN(cr.failed, andN(st.g, failedN(e)))
			cr.ret = append(cr.ret, e)
			st.g = andN(st.g, nilness(e))
		}
	}
	f := hs[0].fn
	for _, h := range hs {
		cr.fns = append(cr.fns, h.fn)
		c.use(h.fn)
		if strings.HasPrefix(h.path, "Run") || h.path == name {
			f = h.fn
		}
	}
	c.curFn = f
	c.binds = hs[0].binds
	c.then = func(in *Interp, st *State, res []Value) {
		returned(st, hs[0].fn, res)
		for _, h := range hs[1:] {
			returned(st, h.fn, in.Call(h.fn, argsOf(h.fn), h.binds, st, in.path0+h.path+" ", nil))
		}
	}
	defer func() { c.binds, c.then = nil, nil }()
	cr.r = c.exec(hs[0].fn, argsOf(hs[0].fn), mem, func(in *Interp) {
		for _, s := range cmdStages[name] {
			s := s
			fn := c.fn(s[1], s[2])
			e := symErr("error of stage " + s[0])
			cr.errs[s[0]] = e
			cr.order = append(cr.order, s[0])
			in.prims[fnName(fn)] = func(p *PrimCall) Value {
				p.event("stage:"+s[0], e)
				if len(p.In.loopStk) > 0 {
					panic(undecided("stage " + s[0] + " runs in a loop"))
				}
				if s[0] == "dict" {
					// the dictionary the later stages have to use
					recv := asNode(p.Args[0])
					if recv.leaf != nil {
						fillField(p.St, recv.leaf, deref(fn.Signature.Recv().Type()), "TableMap", "dictionary")
					}
				}
				return e
			}
		}
	})
	cr.r.fn = f
	c.curFn = f
	for _, e := range cr.r.in.events {
		if strings.HasPrefix(e.Name, "stage:") && e.G != nFalse {
			n := strings.TrimPrefix(e.Name, "stage:")
			cr.stages[n] = append(cr.stages[n], e)
		}
	}
	return cr
}

// fillField stores an unknown value into a field of the object at addr.
func fillField(st *State, addr *Term, t types.Type, field, name string) {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == field {
			st.mem = st.mem.own()
			storeAddr(st.mem, fldAddr(addr, i, field), sym(name, s.Field(i).Type()))
		}
	}
}

// fieldOf reads a field of the object at addr.
func fieldOf(m *Mem, addr *Node, t types.Type, field string) Value {
	s, ok := t.Underlying().(*types.Struct)
	if !ok || addr.leaf == nil {
		panic(undecided("no field " + field))
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == field {
			return loadAddr(m, fldAddr(addr.leaf, i, field), s.Field(i).Type())
		}
	}
	panic(undecided("no field " + field))
}

func failedN(e *Node) *Node { return notN(nilness(e)) }

func (e *Event) nonZeroExit() bool {
	switch e.Name {
	case "logs.Fatal", "logs.Fatalf":
		return true
	case "os.Exit":
		v, ok := isConstN(asNode(e.Args[0]))
		return ok && v != 0
	case "panic":
		return true
	}
	return false
}

func unionG(es []*Event) *Node {
	g := nFalse
	for _, e := range es {
		g = orN(g, e.G)
	}
	return g
}

func nodeMentions(n *Node, s *Term) bool {
	for _, t := range leaves(n) {
		if t == s || mentions(t, s) {
			return true
		}
	}
	return false
}

func checkC04(c *Check) {
	c.rule("stage", "a stage starts only when every stage before it has succeeded")
	c.rule("exit", "the process exits with a non-zero status exactly when a stage has failed")
	c.rule("message", "the error of the failed stage is printed before the process exits")
	c.rule("pass up", "the error of a failed file operation is a non-nil error of the parse function")
	c.rule("dictionary", "a data dictionary that cannot be loaded is a non-nil error")
	c.rule("main", "the process ends with a non-zero status exactly when the command library reports an error")
	c.dictMissing("dictionary")
	for _, name := range []string{"FromDataFile", "FromRedoFile"} {
		c.try("exit", name, func() {
			cr := c.runCommand(name)
			where := c.L.where(cr.r.fn, nil)
			anyFail := nFalse
			before := nFalse
			for _, s := range cr.order {
				g := unionG(cr.stages[s])
				c.decide("stage", name+": "+s, where, g, notN(before))
				before = orN(before, failedN(cr.errs[s]))
			}
			anyFail = before
			exit := orN(cr.failed, unionG(cr.r.evNamed(func(e *Event) bool { return e.nonZeroExit() })))
			c.decide("exit", name+": exits with non-zero status", where, exit, anyFail)
			zero := unionG(cr.r.evNamed(func(e *Event) bool { return e.Name == "os.Exit" && !e.nonZeroExit() }))
			c.decide2("exit", name+": no success after a failure", where, andN(orN(zero, cr.r.st.g), anyFail), "a failed stage ends in success")
			prev := nTrue
			for _, s := range cr.order {
				e := cr.errs[s]
				cond := andN(prev, failedN(e))
				prev = andN(prev, notN(failedN(e)))
				printed := unionG(cr.r.evNamed(func(ev *Event) bool {
					if ev.Name == "panic" {
						return len(ev.Args) > 0 && nodeMentions(asNode(ev.Args[0]), e.leaf)
					}
					return (ev.Name == "stdout" || ev.Name == "stderr") && nodeMentions(asNode(ev.Args[0]), e.leaf)
				}))
				for _, r := range cr.ret { // printed by main
					if nodeMentions(r, e.leaf) {
						printed = orN(printed, failedN(r))
					}
				}
				c.decide2("message", name+": error of "+s, where, andN(cond, notN(printed)), "the error of stage "+s+" is not printed")
			}
		})
	}
	c.try("main", "main: any result", func() { c.mainExit("any result", symErr("error of the command library")) })
	c.try("main", "main: an error", func() { c.mainExit("an error", errVal(mkStr("refused"))) })
	c.try("main", "main: no error", func() { c.mainExit("no error", nNil) })
	fail := func(msg string) *Node { return errVal(mkStr(msg)) }
	// a failing file operation of the parse functions
	type up struct{ pkg, fn, callee, calleePkg string }
	for _, u := range []up{
		{pIB, "ParseDictPage", "parseFile", pIB},
		{pIB, "ParseDataPage", "parseFile", pIB},
	} {
		c.try("pass up", u.fn, func() {
			callee := c.fn(u.calleePkg, u.callee)
			f := c.fn(u.pkg, u.fn)
			n := 0
			r := c.exec(f, symArgs(f), nil, func(in *Interp) {
				in.prims[fnName(callee)] = func(p *PrimCall) Value {
					n++
					return &Agg{F: []Value{zeroVal(callee.Signature.Results().At(0).Type()), fail(u.callee)}}
				}
			})
			c.atLeast("pass up", "calls of "+u.callee+" in "+u.fn, n, 1)
			last := len(r.res) - 1
			c.decide2("pass up", u.fn+" when "+u.callee+" fails", c.L.where(f, nil), andN(r.st.g, nilness(asNode(r.res[last]))), "the error is dropped")
		})
	}
	// opening a file
	for _, u := range [][2]string{{pIB, "parseFile"}, {pRedo, "ParseRedoLogs"}} {
		c.try("pass up", u[1]+" open", func() {
			f := c.fn(u[0], u[1])
			n := 0
			args := symArgs(f)
			m := newMem()
			if u[1] == "ParseRedoLogs" {
				args[1] = strList(m, "log files", "f1")
			}
			r := c.exec(f, args, m, func(in *Interp) {
				open := func(p *PrimCall) Value {
					n++
					return &Agg{F: []Value{nNil, fail("open")}}
				}
				in.prims["os.Open"] = open
				in.prims["os.OpenFile"] = open
			})
			c.atLeast("pass up", "files opened in "+u[1], n, 1)
			last := len(r.res) - 1
			c.decide2("pass up", u[1]+" when a file cannot be opened", c.L.where(f, nil), andN(r.st.g, nilness(asNode(r.res[last]))), "the error is dropped")
		})
	}
	// one of several redo files cannot be opened
	for k := 0; k < 3; k++ {
		for _, l := range []struct {
			name string
			lens []int
		}{{"with records", []int{512, 300}}, {"without records", nil}, {"ended by a block of length 0", []int{512, 0}}} {
			l := l
			what := fmt.Sprintf("ParseRedoLogs when file %d of 3 cannot be opened, the others %s", k+1, l.name)
			c.try("pass up", what, func() {
				var xs []*device
				var lens [][]int
				for i := 0; i < 3; i++ {
					xs = append(xs, &device{name: fmt.Sprintf("f%d", i+1), total: (4 + len(l.lens)) * blockSize, errAt: -1, lost: i == k})
					lens = append(lens, l.lens)
				}
				rr := c.runRedoLogs(xs, lens)
				c.decide2("pass up", what, c.L.where(rr.r.fn, nil), andN(rr.r.st.g, nilness(asNode(rr.r.res[0]))), "the error is dropped")
			})
		}
	}
	// the records cannot be parsed
	for _, l := range [][][]int{{{512, 300}}, {{512}, {300, 512}}, {{512, 0}}} {
		l := l
		what := fmt.Sprintf("ParseRedoLogs when the records of %d files with blocks of lengths %v cannot be parsed", len(l), l)
		c.try("pass up", what, func() {
			var xs []*device
			for i := range l {
				xs = append(xs, &device{name: fmt.Sprintf("f%d", i+1), total: (4 + len(l[i])) * blockSize, errAt: -1})
			}
			rr := c.runRedoLogsErr(xs, l, fail("records"))
			c.atLeast("pass up", "record parses of ParseRedoLogs", len(rr.data), 1)
			c.decide2("pass up", what, c.L.where(rr.r.fn, nil), andN(rr.r.st.g, nilness(asNode(rr.r.res[0]))), "the error is dropped")
		})
	}
	// an error of the dictionary read by the redo parse
	c.try("pass up", "redo ParseDictPage", func() {
		callee := c.fn(pIB, "ParseDictPage")
		f := c.fn(pRedo, "ParseDictPage")
		e := symErr("error of the dictionary")
		n := 0
		r := c.exec(f, symArgs(f), nil, func(in *Interp) {
			in.prims[fnName(callee)] = func(p *PrimCall) Value { n++; return e }
		})
		c.atLeast("pass up", "dictionary reads in redo", n, 1)
		c.decide("pass up", "redo ParseDictPage", c.L.where(f, nil), nilness(asNode(r.res[0])), nilness(e))
	})
	// the errors of the redo file's own headers
	c.try("pass up", "redo headers", func() {
		f := c.fn(pRedo, "ParseRedoLogs")
		for _, h := range []string{"readRedoLogFileHeader", "readRedoLogFileCheckpoint"} {
			hf := c.fn(pRedo, h)
			other := map[string]string{"readRedoLogFileHeader": "readRedoLogFileCheckpoint", "readRedoLogFileCheckpoint": "readRedoLogFileHeader"}[h]
			of := c.fn(pRedo, other)
			m := newMem()
			args := symArgs(f)
			args[1] = strList(m, "log files", "f1")
			n := 0
			r := c.exec(f, args, m, func(in *Interp) {
				in.prims["os.Open"] = func(p *PrimCall) Value { return &Agg{F: []Value{leafN(mkSym("file", 0)), nNil}} }
				in.prims[fnName(hf)] = func(p *PrimCall) Value { n++; return fail(h) }
				in.prims[fnName(of)] = func(p *PrimCall) Value { return nNil }
				stubReads(c, in)
			})
			c.atLeast("pass up", "calls of "+h, n, 1)
			c.decide2("pass up", "ParseRedoLogs when "+h+" fails", c.L.where(f, nil), andN(r.st.g, nilness(asNode(r.res[0]))), "the error is dropped")
		}
	})
}

// mainExit analyses main with a result of the command library.
func (c *Check) mainExit(what string, e *Node) {
	f := c.fn(pMain, "main")
	where := c.L.where(f, nil)
	root := leafN(mkSym("root command", 0))
	n := 0
	r := c.exec(f, nil, nil, func(in *Interp) {
		in.panics = true
		in.prims[fnName(c.fn(pMain, "NewRootCommand"))] = func(p *PrimCall) Value { return root }
		for _, k := range []string{"Execute", "ExecuteC"} {
			k := k
			in.prims["(*github.com/spf13/cobra.Command)."+k] = func(p *PrimCall) Value {
				n++
				p.event("Execute", nil)
				if k == "ExecuteC" {
					return &Agg{F: []Value{leafN(mkSym("command", 0)), e}}
				}
				return e
			}
		}
	})
	c.atLeast("main", "calls of the command library", n, 1)
	ran := unionG(r.evNamed(func(ev *Event) bool { return ev.Name == "Execute" }))
	c.decide("main", "main runs the command: "+what, where, ran, nTrue)
	ok := orN(r.st.g, unionG(r.evNamed(func(ev *Event) bool { return ev.Name == "os.Exit" && !ev.nonZeroExit() })))
	c.decide("main", "main succeeds after "+what, where, ok, nilness(e))
}

// stubReads makes every block read end the file.
func stubReads(c *Check, in *Interp) {
	rn := c.fn(pUtils, "ReadNextBytes")
	eof := in.L.Prog.ImportedPackage("io").Var("EOF")
	in.prims[fnName(rn)] = func(p *PrimCall) Value {
		return &Agg{F: []Value{nNil, asNode(loadAddr(p.St.mem, globT(eof), eof.Type().(*types.Pointer).Elem()))}}
	}
}

func symArgs(f *ssa.Function) []Value {
	var args []Value
	for i, p := range f.Params {
		if pt, ok := p.Type().Underlying().(*types.Pointer); ok && f.Signature.Recv() != nil && i == 0 {
			cell := newAlloc("receiver")
			noteCell(cell, pt.Elem())
			args = append(args, leafN(cell))
			continue
		}
		args = append(args, sym(p.Name(), p.Type()))
	}
	return args
}

// mkArr builds a slice of the given values in memory.
func mkArr(m *Mem, name string, elem types.Type, vals ...Value) *Node {
	root := newAlloc(name)
	noteCell(root, types.NewArray(elem, int64(len(vals))))
	a := &Arr{k: aZero, elem: elem}
	for i, v := range vals {
		a = &Arr{k: aWrite, elem: elem, under: a, idx: constN(uint64(i)), val: v}
	}
	m.set(root, a)
	return leafN(mkSlice(root, mkConst(0), mkConst(uint64(len(vals))), nil))
}

func strList(m *Mem, name string, vals ...string) *Node {
	var vs []Value
	for _, v := range vals {
		vs = append(vs, strN(v))
	}
	return mkArr(m, name, tString, vs...)
}

func checkC07(c *Check) {
	c.rule("flush", "behind every stage that has run, logs are flushed before the command returns or exits")
	c.rule("flushes", "the flush function flushes the logging library on every path")
	c.rule("no exit", "no other function of the repository ends the process")
	isFlush := func(e *Event) bool {
		return e.Name == "logs.FlushLogs" || e.Name == "github.com/golang/glog.Flush" ||
			e.Name == "logs.Fatal" || e.Name == "logs.Fatalf" // the logging library flushes before it exits
	}
	for _, name := range []string{"FromDataFile", "FromRedoFile"} {
		c.try("flush", name, func() {
			cr := c.runCommand(name)
			where := c.L.where(cr.r.fn, nil)
			evs := cr.r.in.events
			n := 0
			for i, e := range evs {
				isMsg := strings.HasPrefix(e.Name, "logs.") && !isFlush(e)
				if e.G == nFalse || !strings.HasPrefix(e.Name, "stage:") && !isMsg {
					continue
				}
				after := nFalse
				for _, f := range evs[i+1:] {
					if isFlush(f) {
						after = orN(after, f.G)
					}
				}
				n++
				g := e.G
				// logging is set up
				g = andN(g, nilness(cr.errs["log"]))
				what := strings.TrimPrefix(e.Name, "stage:")
				if what == "log" {
					continue
				}
				c.decide2("flush", fmt.Sprintf("%s: behind %s", name, what), c.posOf(e.Pos), andN(g, notN(after)), "the command ends without a flush behind "+what)
			}
			c.atLeast("flush", "stages and messages in "+name, n, 2)
			_ = where
		})
	}
	c.try("flushes", "FlushLogs", func() {
		f := c.fn(pLogs, "FlushLogs")
		r := c.exec(f, nil, nil, func(in *Interp) { in.inLogs = true })
		g := unionG(r.evNamed(func(e *Event) bool { return e.Name == "github.com/golang/glog.Flush" }))
		c.decide("flushes", "FlushLogs", c.L.where(f, nil), g, nTrue)
	})
	c.try("no exit", "stages", func() {
		var roots []*ssa.Function
		for _, s := range [][2]string{{pIB, "ParseDictPage"}, {pIB, "ParseDataPage"}, {pRedo, "ParseRedoLogs"}, {pRedo, "ParseDictPage"}} {
			roots = append(roots, c.fn(s[0], s[1]))
		}
		r := c.L.reach(roots, nil)
		n := 0
		for _, f := range r.sorted() {
			n++
			c.use(f)
			_ = f
		}
		bad := 0
		for _, f := range sortedFns(r.ext) {
			switch f.RelString(nil) {
			case "os.Exit", "syscall.Exit", "runtime.Goexit", "log.Fatal", "log.Fatalf", "log.Fatalln":
				for _, e := range r.ext[f] {
					bad++
					c.fail("no exit", c.refWhere(e), c.refWhere(e), f.RelString(nil)+" is reachable from a parse stage")
				}
			}
		}
		c.ob("no exit", fmt.Sprintf("%d functions reachable from the parse stages", n), "", bad == 0, "the process can end inside a stage")
	})
}

// ---- C05 --------------------------------------------------------------------------

type cmdDef struct {
	alloc    *Term
	name     string
	run      *ssa.Function
	flags    map[string]*Term // option → bound variable
	required map[string]bool
	parent   *cmdDef
	pflags   map[string]*Term
	hooks    map[string]*hook // functions of the command, by field
	inits    []*hook          // functions called before any command runs
	unparsed bool             // the library leaves the options alone
	empty    map[*Term]string // default of each bound variable, "?" when unknown
}

// commands analyses the constructors and returns the command tree.
func (c *Check) commands() []*cmdDef {
	f := c.fn(pMain, "NewRootCommand")
	const cob = "(*github.com/spf13/cobra.Command)."
	r := c.exec(f, symArgs2(f), nil, func(in *Interp) {
		in.prims[cob+"Flags"] = func(p *PrimCall) Value {
			return apply1(asNode(p.Args[0]), func(t *Term) *Node { return leafN(mkOp("flags", 0, t)) })
		}
		in.prims[cob+"LocalFlags"] = in.prims[cob+"Flags"]
		in.prims[cob+"PersistentFlags"] = func(p *PrimCall) Value {
			return apply1(asNode(p.Args[0]), func(t *Term) *Node { return leafN(mkOp("pflags", 0, t)) })
		}
		for _, k := range []string{"AddCommand", "MarkFlagRequired", "MarkPersistentFlagRequired"} {
			k := k
			in.prims[cob+k] = func(p *PrimCall) Value { p.event(k, nil); return nNil }
		}
		in.prims["github.com/spf13/cobra.OnInitialize"] = func(p *PrimCall) Value { p.event("OnInitialize", nil); return nNil }
		in.prims["github.com/spf13/cobra.MarkFlagRequired"] = func(p *PrimCall) Value { p.event("MarkFlagRequired", nil); return nNil }
		for _, k := range []string{"StringVar", "StringVarP"} {
			at := map[string]int{"StringVar": 3, "StringVarP": 4}[k]
			in.prims["(*github.com/spf13/pflag.FlagSet)."+k] = func(p *PrimCall) Value {
				p.event("StringVar", nil)
				if v := asNode(p.Args[1]); v.leaf != nil {
					p.St.mem = p.St.mem.own()
					storeAddr(p.St.mem, v.leaf, p.Args[at])
				}
				return nNil
			}
		}
	})
	defs := map[*Term]*cmdDef{}
	get := func(t *Term) *cmdDef {
		if t.k == KOp && (t.s == "flags" || t.s == "pflags") {
			t = t.args[0]
		}
		d := defs[t]
		if d == nil {
			d = &cmdDef{alloc: t, flags: map[string]*Term{}, pflags: map[string]*Term{}, required: map[string]bool{}}
			defs[t] = d
		}
		return d
	}
	var inits []*hook
	for _, e := range r.in.events {
		if e.G != nTrue {
			if e.Name == "StringVar" || e.Name == "AddCommand" || e.Name == "MarkFlagRequired" || e.Name == "OnInitialize" {
				panic(undecided("conditional option or command"))
			}
			continue
		}
		switch e.Name {
		case "OnInitialize":
			va, ok := varargs(e.Mem, e.Args[0])
			if !ok {
				panic(undecided("initialisation functions of unknown number"))
			}
			for _, v := range va {
				inits = append(inits, asHook(r.in, v, "initialisation"))
			}
		case "StringVar":
			fs, v, nm := asNode(e.Args[0]), asNode(e.Args[1]), asNode(e.Args[2])
			s, ok := strConst(nm)
			if !ok || fs.leaf == nil || v.leaf == nil || fs.leaf.k != KOp {
				panic(undecided("option of unknown name or set"))
			}
			if fs.leaf.s == "pflags" {
				get(fs.leaf).pflags[s] = v.leaf
			} else {
				get(fs.leaf).flags[s] = v.leaf
			}
		case "MarkFlagRequired", "MarkPersistentFlagRequired":
			s, ok := strConst(asNode(e.Args[1]))
			if cm := asNode(e.Args[0]); ok && cm.leaf != nil {
				get(cm.leaf).required[s] = true
			} else {
				panic(undecided("required option of unknown name"))
			}
		case "AddCommand":
			va, ok := varargs(e.Mem, e.Args[1])
			if !ok {
				panic(undecided("sub commands of unknown number"))
			}
			p := get(asNode(e.Args[0]).leaf)
			for _, v := range va {
				if v.leaf == nil {
					panic(undecided("sub command"))
				}
				get(v.leaf).parent = p
			}
		}
	}
	var out []*cmdDef
	root := asNode(r.res[0])
	if root.leaf != nil {
		get(root.leaf)
	}
	ct := deref(f.Signature.Results().At(0).Type())
	for _, d := range defs {
		if u, ok := strConst(asNode(fieldOf(r.st.mem, leafN(d.alloc), ct, "Use"))); ok {
			d.name = strings.Fields(u + " ")[0]
		}
		d.hooks, d.inits, d.empty = map[string]*hook{}, inits, map[*Term]string{}
		for _, k := range []string{"PersistentPreRun", "PreRun", "Run", "PostRun", "PersistentPostRun"} {
			for _, fld := range []string{k, k + "E"} {
				if v := asNode(fieldOf(r.st.mem, leafN(d.alloc), ct, fld)); v != nNil {
					d.hooks[fld] = asHook(r.in, v, fld)
				}
			}
		}
		if h := d.hooks["RunE"]; h != nil {
			d.run = h.fn
		} else if h := d.hooks["Run"]; h != nil {
			d.run = h.fn
		}
		d.unparsed = asNode(fieldOf(r.st.mem, leafN(d.alloc), ct, "DisableFlagParsing")) != nFalse
		for _, fs := range []map[string]*Term{d.flags, d.pflags} {
			for _, v := range fs {
				d.empty[v] = "?"
				if s, ok := strConst(asNode(loadAddr(r.st.mem, v, tString))); ok {
					d.empty[v] = s
				}
			}
		}
		out = append(out, d)
	}
	return out
}

func asHook(in *Interp, n *Node, what string) *hook {
	if n.leaf != nil && n.leaf.k == KFunc {
		if fn, ok := n.leaf.aux.(*ssa.Function); ok {
			return &hook{fn, in.closures[n.leaf], what}
		}
	}
	panic(undecided("unknown " + what + " function"))
}

func symArgs2(f *ssa.Function) []Value {
	var args []Value
	for _, p := range f.Params {
		if isString(p.Type()) {
			args = append(args, strN("root"))
		} else {
			args = append(args, sym(p.Name(), p.Type()))
		}
	}
	return args
}

func (d *cmdDef) bound(opt string) *Term {
	if v := d.flags[opt]; v != nil {
		return v
	}
	for p := d; p != nil; p = p.parent {
		if v := p.pflags[opt]; v != nil {
			return v
		}
	}
	return nil
}

func checkC05(c *Check) {
	c.rule("option", "the command has the option and requires it when it must")
	c.rule("route", "the value of the option is the argument of the stage it names")
	c.rule("parse", "the process arguments are read once")
	c.rule("open", "each stage opens the files it was given, in order, under the names it was given")
	c.rule("names", "nothing reachable changes the directory that relative names start from")
	c.opened()
	c.sameDir()
	c.try("option", "command tree", func() {
		defs := c.commands()
		want := map[string]map[string]bool{
			"FromDataFile": {"SysDataFile": true, "TableDataFile": true, "DBName": true, "TableName": true, "OpType": false, "LogPath": false, "LogLevel": false},
			"FromRedoFile": {"SysDataFile": true, "RedoFile": true, "DBName": false, "TableName": false, "LogPath": false, "LogLevel": false},
		}
		for _, name := range []string{"FromDataFile", "FromRedoFile"} {
			var d *cmdDef
			for _, x := range defs {
				if x.name == name {
					d = x
				}
			}
			where := pMain
			if d == nil {
				c.open("option", name, where, "no such sub command found")
				continue
			}
			if d.run != nil {
				where = c.L.where(d.run, nil)
			}
			c.ob("option", name+" is a sub command of recovery", where, d.parent != nil && d.parent.name == "recovery" && d.parent.parent != nil, "not below the root's recovery command")
			for p := d; p != nil; p = p.parent {
				c.ob("option", name+": options of "+p.name+" are parsed", where, !p.unparsed, "the command library leaves the options unparsed")
			}
			for _, opt := range []string{"DBName", "TableName", "OpType"} {
				for p := d; p != nil; p = p.parent {
					for _, fs := range []map[string]*Term{p.flags, p.pflags} {
						v := fs[opt]
						if v == nil || d.required[opt] {
							continue
						}
						if p.empty[v] == "?" {
							c.open("option", name+" without option "+opt, where, "the default is unknown")
							continue
						}
						c.ob("option", name+" without option "+opt, where, p.empty[v] == "", fmt.Sprintf("%q is taken for the option", p.empty[v]))
					}
				}
			}
			seen := map[*Term]string{}
			for _, opt := range sortedOpts(want[name]) {
				v := d.bound(opt)
				c.ob("option", name+" option "+opt, where, v != nil, "the command has no such option")
				if want[name][opt] {
					c.ob("option", name+" requires "+opt, where, d.required[opt], "the option is not required")
				} else {
					c.ob("option", name+" does not require "+opt, where, !d.required[opt], "the option is required")
				}
				if v != nil {
					c.ob("option", name+" option "+opt+" has a variable of its own", where, seen[v] == "", "shares its variable with "+seen[v])
					seen[v] = opt
				}
			}
			c.try("route", name, func() { c.route(name, d) })
		}
	})
}

// oddNames are file names that are easily altered on the way.
var oddNames = []string{"/data/ibdata1", "t.ibd", " a", "a ", "a b", "./x/../y.ibd", "d//t.ibd", "T.IBD", "%41", "'a'", "\"a\"", "~/x", "$HOME/x", "a\\b", "a.", "é", "-", "a,b", "d/", "*.ibd", "a\n"}

// opened follows the file names from the stages to the calls that open files.
func (c *Check) opened() {
	record := func(in *Interp) {
		open := func(p *PrimCall) Value {
			p.event("open", nil)
			return &Agg{F: []Value{nNil, errVal(mkStr("open"))}}
		}
		in.prims["os.Open"] = open
		in.prims["os.OpenFile"] = open
	}
	for _, u := range [][2]string{{pIB, "ParseDictPage"}, {pIB, "ParseDataPage"}, {pRedo, "ParseDictPage"}} {
		u := u
		for i := -1; i < len(oddNames); i++ {
			what := u[1] + " in " + u[0][strings.LastIndex(u[0], "/")+1:]
			path := asNode(sym("path", tString))
			if i >= 0 {
				what += fmt.Sprintf(" of %q", oddNames[i])
				path = strN(oddNames[i])
			}
			c.try("open", what, func() {
				f := c.fn(u[0], u[1])
				args := symArgs(f)
				args[1] = path
				r := c.exec(f, args, nil, record)
				es := r.evNamed(func(e *Event) bool { return e.Name == "open" })
				c.atLeast("open", "files opened by "+what, len(es), 1)
				for _, e := range es {
					c.eq("open", what, c.posOf(e.Pos), asNode(e.Args[0]), path, e.G)
				}
			})
		}
	}
	for _, l := range [][]string{oddNames, {"b", "a"}, {"a", "b", "a"}, {"ib_logfile10", "ib_logfile9"}, {"one"}, {"a", "a"}} {
		l := l
		what := fmt.Sprintf("ParseRedoLogs of %d files from %q", len(l), l[0])
		c.try("open", what, func() {
			f := c.fn(pRedo, "ParseRedoLogs")
			m := newMem()
			args := symArgs(f)
			args[1] = strList(m, "log files", l...)
			r := c.exec(f, args, m, func(in *Interp) {
				open := func(p *PrimCall) Value {
					p.event("open", nil)
					return &Agg{F: []Value{leafN(mkSym("file", 0)), nNil}}
				}
				in.prims["os.Open"] = open
				in.prims["os.OpenFile"] = open
				in.prims["(*os.File).Close"] = func(p *PrimCall) Value { return nNil }
				for _, h := range []string{"readRedoLogFileHeader", "readRedoLogFileCheckpoint"} {
					in.prims[fnName(c.fn(pRedo, h))] = func(p *PrimCall) Value { return nNil }
				}
				in.prims[fnName(c.fn(pRedo, "parseRedoBlockData"))] = func(p *PrimCall) Value { return nNil }
				stubReads(c, in)
			})
			var got []string
			for _, e := range r.evNamed(func(e *Event) bool { return e.Name == "open" }) {
				n, ok := strConst(asNode(e.Args[0]))
				if !ok || e.G != nTrue {
					panic(undecided("which files are opened depends on the input"))
				}
				got = append(got, n)
			}
			c.ob("open", what, c.L.where(f, nil), fmt.Sprintf("%q", got) == fmt.Sprintf("%q", l), fmt.Sprintf("opens %q instead of %q", got, l))
		})
	}
}

// sameDir looks for calls that give relative names another meaning.
func (c *Check) sameDir() {
	r := c.L.reach(c.roots(), nil)
	bad := 0
	for _, f := range sortedFns(r.ext) {
		switch f.RelString(nil) {
		case "os.Chdir", "(*os.File).Chdir", "syscall.Chdir", "syscall.Fchdir", "syscall.Chroot":
			for _, e := range r.ext[f] {
				bad++
				c.fail("names", f.RelString(nil)+" in "+e.from.RelString(nil), c.refWhere(e), "changes the directory of relative names; reached by "+r.path(e.from))
			}
		}
	}
	c.ob("names", "external functions referenced", pMain, bad == 0, "some change the working directory")
	c.atLeast("names", "external functions referenced", len(r.ext), 20)
}

func sortedOpts(m map[string]bool) []string {
	k := map[string]int{}
	for x := range m {
		k[x] = 1
	}
	return sortedKeys(k)
}

func (c *Check) route(name string, d *cmdDef) {
	if d.run == nil {
		panic(undecided("no run function"))
	}
	val := func(opt string) *Node {
		v := d.bound(opt)
		if v == nil {
			panic(undecided("no option " + opt))
		}
		return asNode(loadAddr(newMem(), v, tString))
	}
	c.try("route", name+": any option values", func() { c.routeAny(name, val) })
	if v := d.bound("OpType"); v != nil && name == "FromDataFile" {
		// The operation type for texts that are easily confused.
		for _, op := range []string{"", "RecoveryData", "RecoveryStruct", "PrintData", "recoverydata", "RECOVERYDATA", "Recovery", "RecoveryDat", "RecoveryData2", " RecoveryData", "RecoveryData ", "Data", "NoRecoveryData"} {
			c.try("route", name+": operation type "+op, func() {
				m := newMem()
				storeAddr(m, v, strN(op))
				want := nFalse
				if op == "RecoveryData" {
					want = nTrue
				}
				for _, e := range c.runCommandIn(name, m).stages["data"] {
					c.eq("route", fmt.Sprintf("%s: operation type %q", name, op), c.posOf(e.Pos), boolTerm(asNode(e.Args[4])), boolTerm(want), e.G)
				}
			})
		}
	}
	// The other options for texts that are easily altered.
	type at struct {
		stage string
		arg   int
		field string
	}
	to := map[string]at{"SysDataFile": {"dict", 1, ""}, "TableDataFile": {"data", 1, ""}, "DBName": {"data", 2, ""}, "TableName": {"data", 3, ""}}
	if name == "FromRedoFile" {
		to = map[string]at{"SysDataFile": {"dict", 1, ""}, "DBName": {"redo", 0, "DBName"}, "TableName": {"redo", 0, "TableName"}}
	}
	for _, opt := range []string{"SysDataFile", "TableDataFile", "DBName", "TableName"} {
		v, w := d.bound(opt), to[opt]
		if v == nil || w.stage == "" {
			continue
		}
		for _, text := range append([]string{"Shop", "shop.orders", "a`b", "%", "x#p#p0", "A_b", "`q`", "null", "0", "db1;db2"}, oddNames...) {
			what := fmt.Sprintf("%s: option %s %q", name, opt, text)
			c.try("route", what, func() {
				m := newMem()
				storeAddr(m, v, strN(text))
				for _, e := range c.runCommandIn(name, m).stages[w.stage] {
					got := asNode(e.Args[w.arg])
					if w.field != "" {
						got = asNode(fieldOf(e.Mem, got, deref(c.fn(pRedo, "ParseRedoLogs").Signature.Recv().Type()), w.field))
					}
					c.eq("route", what, c.posOf(e.Pos), got, strN(text), e.G)
				}
			})
		}
	}
	if v := d.bound("RedoFile"); v != nil && name == "FromRedoFile" {
		long := make([]string, 40)
		for i := range long {
			long[i] = fmt.Sprintf("/redo/ib_logfile%d", i)
		}
		for i, l := range [][]string{{"/data/ib_logfile0"}, {"b", "a"}, {"a", "b", "a"}, {"./A-b.c_1", "x;y:z|w", "in dir/r 1", "r\t2"}, {"é,"[:2], "r%d"}, long, {" a", "b"}, {"a ", " b"}, {"a", "b "}, {"a b"}, {"./a", "../b/./c//d"}, {"A", "a"}, {"~/a", "$HOME/b", "*.c"}, {"'a'", "\"b\""}, {"a'", "`b`", "\\c"}, {"/", "a/"}, {"a=b", "#c", "-d"}} {
			list := l
			what := fmt.Sprintf("%s: list %d of %d redo files", name, i, len(list))
			c.try("route", what, func() {
				m := newMem()
				storeAddr(m, v, strN(strings.Join(list, ",")))
				for _, e := range c.runCommandIn(name, m).stages["redo"] {
					got := asNode(e.Args[1])
					n := nTrue
					if got.leaf == nil || got.leaf.k != KSlice {
						panic(undecided("the list of files is not determined"))
					}
					if k, ok := isConst(got.leaf.args[2]); !ok {
						panic(undecided("the number of files is not determined"))
					} else {
						n = boolN(int(k) == len(list))
					}
					arr := arrOf(e.Mem, got.leaf.args[0], tString)
					for j := range list {
						if n == nFalse {
							break
						}
						n = andN(n, eqN(asNode(readArr(arr, leafN(addT(got.leaf.args[1], mkConst(uint64(j)))))), strN(list[j])))
					}
					c.eq("route", what, c.posOf(e.Pos), boolTerm(n), boolTerm(nTrue), e.G)
				}
			})
		}
	}
}

// routeAny follows the options of unknown value.
func (c *Check) routeAny(name string, val func(opt string) *Node) {
	cr := c.runCommand(name)
	where := c.L.where(cr.r.fn, nil)
	ok := nTrue
	for _, s := range cr.order {
		es := cr.stages[s]
		c.decide("route", name+": stage "+s+" runs", where, unionG(es), ok)
		for _, e := range es {
			a := e.Args
			pos := c.posOf(e.Pos)
			arg := func(what string, got, want *Node) {
				c.eq("route", name+": "+what, pos, got, want, e.G)
			}
			switch s {
			case "log":
				arg("log directory", asNode(a[0]), val("LogPath"))
				arg("log level", asNode(a[1]), val("LogLevel"))
			case "dict":
				arg("system file", asNode(a[1]), val("SysDataFile"))
			case "data":
				arg("table file", asNode(a[1]), val("TableDataFile"))
				arg("database", asNode(a[2]), val("DBName"))
				arg("table", asNode(a[3]), val("TableName"))
				arg("operation type", boolTerm(asNode(a[4])), boolTerm(eqN(val("OpType"), strN("RecoveryData"))))
				c.sameParse(cr, e, name)
			case "redo":
				rt := deref(c.fn(pRedo, "ParseRedoLogs").Signature.Recv().Type())
				arg("database", asNode(fieldOf(e.Mem, asNode(a[0]), rt, "DBName")), val("DBName"))
				arg("table", asNode(fieldOf(e.Mem, asNode(a[0]), rt, "TableName")), val("TableName"))
				arg("dictionary", packV(fieldOf(e.Mem, asNode(a[0]), rt, "TableMap")), leafN(mkSym("dictionary", 0)))
				got, want := asNode(a[1]), apply1(val("RedoFile"), func(t *Term) *Node { return leafN(splitT(t, mkStr(","))) })
				c.eq("route", name+": redo files", pos, got, want, e.G)
			}
		}
		ok = andN(ok, nilness(cr.errs[s]))
	}
	for _, e := range cr.r.evNamed(func(e *Event) bool { return e.Name == "flag.Parse" }) {
		c.fail("parse", name, c.posOf(e.Pos), "flag.Parse reads the process arguments again and stops at the first option of the command")
	}
	c.ob("parse", name+": options are parsed by the command library alone", where, true, "")
}

// sameParse: the dictionary is read into the object that parses the table file.
func (c *Check) sameParse(cr *cmdRun, e *Event, name string) {
	for _, d := range cr.stages["dict"] {
		c.eq("route", name+": dictionary", c.posOf(e.Pos), asNode(e.Args[0]), asNode(d.Args[0]), e.G)
	}
}

func boolTerm(n *Node) *Node { return iteN(n, constN(1), constN(0)) }

// ---- C06 --------------------------------------------------------------------------

func checkC06(c *Check) {
	c.rule("level", "the message is handed to the logging library, arguments unchanged, exactly when the level allows")
	c.rule("name", "the level name sets the threshold, without regard to case, unknown names mean info")
	c.rule("directory", "the log directory is the chosen one")
	order := []string{"fatal", "error", "warn", "info", "debug", "trace"}
	setFlag := func(name string) (map[string]*Node, *run) {
		f := c.fn(pLogs, "InitLogs")
		var nm Value = strN(name)
		if name == "*" {
			nm = sym("level", tString)
		}
		r := c.exec(f, []Value{sym("path", tString), nm}, nil, func(in *Interp) {
			in.inLogs = true
			in.prims["flag.Set"] = func(p *PrimCall) Value { p.event("flag.Set", nil); return nNil }
		})
		out := map[string]*Node{}
		for _, e := range r.evNamed(func(e *Event) bool { return e.Name == "flag.Set" }) {
			k, ok := strConst(asNode(e.Args[0]))
			if !ok {
				panic(undecided("flag of unknown name"))
			}
			v := asNode(e.Args[1])
			if old, ok := out[k]; ok {
				v = iteN(e.G, v, old)
			} else if e.G != nTrue {
				v = iteN(e.G, v, leafN(mkSym("default of "+k, 0)))
			}
			out[k] = v
		}
		return out, r
	}
	thresholds := map[string]uint64{}
	c.try("name", "InitLogs", func() {
		f := c.fn(pLogs, "InitLogs")
		where := c.L.where(f, nil)
		for _, lv := range order {
			fs, _ := setFlag(lv)
			v, ok := fs["v"]
			if !ok {
				c.fail("name", "InitLogs sets the threshold for "+lv, where, "the verbosity of the logging library is not set")
				continue
			}
			s, ok := strConst(v)
			if !ok {
				panic(undecided("threshold of " + lv + " is " + v.String()))
			}
			var n uint64
			if _, err := fmt.Sscan(s, &n); err != nil || n > 100 {
				c.fail("name", "InitLogs sets the threshold for "+lv, where, "the threshold is "+s)
				continue
			}
			thresholds[lv] = n
			for _, alt := range []string{strings.ToUpper(lv), strings.ToUpper(lv[:1]) + lv[1:], lv[:2] + strings.ToUpper(lv[2:])} {
				g, _ := setFlag(alt)
				c.decide("name", "level name "+alt, where, orNone(g["v"]), v)
			}
			c.decide("directory", "log directory at level "+lv, where, orNone(fs["log_dir"]), asNode(sym("path", tString)))
		}
		info, _ := setFlag("info")
		for _, alt := range []string{"", "verbose", "information", "warning", "0", "5", " info"} {
			g, _ := setFlag(alt)
			c.decide("name", fmt.Sprintf("unknown level name %q", alt), where, orNone(g["v"]), orNone(info["v"]))
		}
	})
	fns := map[string]string{"Trace": "trace", "Debug": "debug", "Debugf": "debug", "Info": "info", "Infof": "info", "Warn": "warn", "Warnf": "warn",
		"Error": "error", "Errorf": "error", "Fatal": "fatal", "Fatalf": "fatal"}
	rank := map[string]int{}
	for i, lv := range order {
		rank[lv] = i
	}
	nFn := 0
	keys := map[string]int{}
	for k := range fns {
		keys[k] = 1
	}
	for _, fname := range sortedKeys(keys) {
		fname := fname
		lv := fns[fname]
		c.try("level", fname, func() {
			f := c.lookupFn(pLogs, fname)
			if f == nil {
				return
			}
			nFn++
			c.use(f)
			c.curFn = f
			where := c.L.where(f, nil)
			for _, cfg := range order {
				th, ok := thresholds[cfg]
				if !ok {
					continue
				}
				for n := 0; n <= 3; n++ {
					if n == 0 && len(f.Params) < 2 {
						continue
					}
					m := newMem()
					var va []Value
					for i := 0; i < n; i++ {
						va = append(va, leafN(mkSym(fmt.Sprintf("value%d", i+1), 0)))
					}
					nodes := make([]*Node, n)
					for i := range va {
						nodes[i] = asNode(va[i])
					}
					list := mkArr(m, "message", tAny, va...)
					format := "ab"
					if n > 0 {
						format = "a%vb" + strings.Repeat(", %v", n-1)
					}
					args := []Value{list}
					want := lineText(sprint(m, nodes, true))
					if len(f.Params) == 2 {
						args = []Value{strN(format), list}
						want = sprintf(m, format, nodes)
					}
					r := c.exec(f, args, m, func(in *Interp) {
						in.inLogs = true
						in.prims["github.com/golang/glog.V"] = func(p *PrimCall) Value {
							return apply1(asNode(p.Args[0]), func(t *Term) *Node { return notN(ltInt(mkConst(th), asInt(t), true)) })
						}
					})
					written, text := nFalse, strN("")
					for _, e := range r.evNamed(func(e *Event) bool {
						return strings.Contains(e.Name, "golang/glog") && !strings.HasSuffix(e.Name, "Flush")
					}) {
						g := e.G
						a := e.Args
						if strings.HasPrefix(e.Name, "(github.com/golang/glog.Verbose)") {
							g = andN(g, asNode(a[0]))
							a = a[1:]
						}
						g = andN(g, notN(written)) // a second copy would be another message
						text = iteN(g, glogText(e, a), text)
						written = orN(written, g)
					}
					goal := boolN(rank[cfg] >= rank[lv])
					c.decide("level", fmt.Sprintf("%s at level %s, %d values", fname, cfg, n), where, written, goal)
					if goal == nTrue {
						c.eq("level", fmt.Sprintf("%s at level %s, text of %d values", fname, cfg, n), where, text, want, written)
					}
				}
			}
		})
	}
	c.atLeast("level", "logging functions", nFn, 6)
}

func orNone(n *Node) *Node {
	if n == nil {
		return strN("<not set>")
	}
	return n
}

// glogText is the line the logging library writes for a call.
func glogText(e *Event, a []Value) *Node {
	name := e.Name[strings.LastIndex(e.Name, ".")+1:]
	vs := func(v Value) []*Node {
		l, ok := varargs(e.Mem, v)
		if !ok {
			panic(undecided("arguments of " + e.Name))
		}
		return l
	}
	switch {
	case strings.HasSuffix(name, "Depth"):
		return lineText(sprint(e.Mem, vs(a[1]), false))
	case strings.HasSuffix(name, "ln"):
		return lineText(sprint(e.Mem, vs(a[0]), true))
	case strings.HasSuffix(name, "f"):
		f, ok := strConst(asNode(a[0]))
		if !ok {
			panic(undecided("format of " + e.Name))
		}
		return lineText(sprintf(e.Mem, f, vs(a[1])))
	}
	return lineText(sprint(e.Mem, vs(a[0]), false))
}

// lineText drops one final newline, which the library adds when it is missing.
func lineText(n *Node) *Node {
	return apply1(n, func(t *Term) *Node {
		ps := catParts(t)
		if len(ps) > 0 {
			if l := ps[len(ps)-1]; l.k == KStr && strings.HasSuffix(l.s, "\n") {
				ps = append(append([]*Term{}, ps[:len(ps)-1]...), mkStr(strings.TrimSuffix(l.s, "\n")))
				return leafN(catT(ps...))
			}
		}
		return leafN(t)
	})
}
