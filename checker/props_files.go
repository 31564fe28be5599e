package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const techReach = "effect analysis over the references reachable from main (go/ssa)"

func init() {
	prop("C01", techReach,
		"All functions reachable by reference from the command (calls, function values, closures, methods of values that become interfaces, initialisers) are collected; every reference they make to a function or variable outside the repository is checked against the effects it may have: files may only be opened read-only, written streams may only be standard output and error, and nothing may create, change or delete files, start programs or use the network. The logging and command-line libraries are the only ones trusted to have effects of their own.",
		checkC01, "the logging library writes only below its log directory and to standard error", "the command-line library has no effect on files beyond its explicit file generators")
	prop("C02", "typestate analysis of opened files on the SSA control-flow graph",
		"Every call that opens a file is followed along all control-flow paths: before any return, and before any instruction that may panic, the file must have been closed, handed to a deferred close (directly, in a function literal or in a helper that closes it), or returned to a caller, which then has the same duty.",
		checkC02, "calls into the standard library and the log do not panic")
}

// effectOf says why a function outside the repository is not allowed, or "".
func effectOf(f *ssa.Function) string {
	pkg, name := pkgOf(f), f.Name()
	if strings.HasPrefix(f.Synthetic, "package init") {
		return "" // importing has no effect of interest
	}
	recv := ""
	if r := f.Signature.Recv(); r != nil {
		if n := namedOf(r.Type()); n != nil {
			recv = n.Obj().Name()
		}
	}
	has := func(list string) bool {
		for _, x := range strings.Fields(list) {
			if x == name {
				return true
			}
		}
		return false
	}
	first := strings.SplitN(pkg, "/", 2)[0]
	switch {
	case pkg == "os" && recv == "":
		if has("Create CreateTemp WriteFile Remove RemoveAll Rename Mkdir MkdirAll MkdirTemp Truncate Chmod Chown Lchown Chtimes Link Symlink CopyFS") {
			return "changes the file system"
		}
		if has("NewFile") {
			return "makes a writable file of a descriptor"
		}
		if has("StartProcess") {
			return "starts a program"
		}
		if has("OpenRoot") {
			return "gives write access to a directory"
		}
	case pkg == "os" && recv == "File":
		if has("Write WriteAt WriteString WriteTo Truncate Chmod Chown ReadFrom SyscallConn Fd") && name != "WriteTo" {
			return "file:" + name
		}
	case pkg == "os" && recv == "Root":
		return "gives write access to a directory"
	case pkg == "os" && recv == "Process":
		return "controls a process"
	case pkg == "os/exec":
		return "runs a program"
	case pkg == "net" || strings.HasPrefix(pkg, "net/") && pkg != "net/url" && pkg != "net/netip" && pkg != "net/textproto" && pkg != "net/mail":
		return "uses the network"
	case pkg == "syscall" || strings.HasPrefix(pkg, "golang.org/x/sys"):
		if recv != "" || has("Getpid Getppid Getuid Geteuid Getgid Getegid Getpagesize Getenv Environ") {
			return ""
		}
		return "calls the operating system directly"
	case pkg == "plugin":
		return "loads code"
	case pkg == "io/ioutil":
		if has("WriteFile TempFile TempDir") {
			return "changes the file system"
		}
	case pkg == "log/syslog":
		return "uses the network"
	case pkg == "runtime/debug" && name == "WriteHeapDump":
		return "writes a file"
	case strings.HasSuffix(pkg, "spf13/cobra"):
		if strings.HasPrefix(name, "Gen") && strings.HasSuffix(name, "File") || strings.HasSuffix(name, "Tree") {
			return "writes a file"
		}
	case first == "C":
		return "calls foreign code"
	}
	return ""
}

// stdStream reports whether v is os.Stdout or os.Stderr.
func stdStream(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.UnOp:
		if g, ok := x.X.(*ssa.Global); ok && g.Pkg.Pkg.Path() == "os" {
			return g.Name() == "Stdout" || g.Name() == "Stderr"
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !stdStream(e) {
				return false
			}
		}
		return len(x.Edges) > 0
	case *ssa.Extract, *ssa.Parameter:
		return false
	}
	return false
}

func constInt(v ssa.Value) (int64, bool) {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value != nil {
			return constant.Int64Val(constant.ToInt(x.Value))
		}
	case *ssa.BinOp:
		a, ok1 := constInt(x.X)
		b, ok2 := constInt(x.Y)
		if ok1 && ok2 && x.Op.String() == "|" {
			return a | b, true
		}
	}
	return 0, false
}

func isOSFile(t types.Type) bool {
	p, ok := t.(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := p.Elem().(*types.Named)
	return ok && n.Obj().Name() == "File" && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "os"
}

func checkC01(c *Check) {
	c.rule("effect", "no reachable reference to an external function that writes, creates, renames or deletes files, starts programs or uses the network")
	c.rule("open", "every reachable open of a file asks for reading only")
	c.rule("stream", "only standard output and error become a written stream")
	c.rule("body", "every reachable repository function has Go source")
	r := c.L.reach(c.roots(), nil)
	for f := range r.funcs {
		if c.L.isRepo(f) {
			c.use(f)
		}
	}
	sites := 0
	for _, f := range sortedFns(r.ext) {
		refs := r.ext[f]
		sites += len(refs)
		if c.L.isRepo(f) && len(f.Blocks) == 0 {
			c.fail("body", f.RelString(nil), c.refWhere(refs[0]), "the function has no Go body")
			continue
		}
		why := effectOf(f)
		if strings.HasPrefix(why, "file:") {
			for _, e := range refs {
				ok := false
				if ci, isCall := e.ins.(ssa.CallInstruction); isCall && e.call && len(ci.Common().Args) > 0 {
					ok = stdStream(ci.Common().Args[0])
				}
				c.ob("stream", f.RelString(nil)+" in "+e.from.RelString(nil), c.refWhere(e), ok,
					"writes to a file that is not standard output or error; reached by "+r.path(e.from))
			}
			continue
		}
		if pkgOf(f) == "os" && f.Name() == "OpenFile" && f.Signature.Recv() == nil {
			for _, e := range refs {
				ok := false
				if ci, isCall := e.ins.(ssa.CallInstruction); isCall && e.call {
					if k, known := constInt(ci.Common().Args[1]); known && k == 0 {
						ok = true
					}
				}
				c.ob("open", "os.OpenFile in "+e.from.RelString(nil), c.refWhere(e), ok, "the flags are not the constant os.O_RDONLY; reached by "+r.path(e.from))
			}
			continue
		}
		if why != "" {
			for _, e := range refs {
				c.fail("effect", f.RelString(nil)+" in "+e.from.RelString(nil), c.refWhere(e), why+"; reached by "+r.path(e.from))
			}
			continue
		}
		rule := "effect"
		if pkgOf(f) == "os" && strings.HasPrefix(f.Name(), "Open") {
			rule = "open"
		}
		c.ob(rule, f.RelString(nil), c.refWhere(refs[0]), true, "")
	}
	for _, f := range r.sorted() {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				mi, ok := ins.(*ssa.MakeInterface)
				if !ok || !isOSFile(mi.X.Type()) {
					continue
				}
				it, ok := mi.Type().Underlying().(*types.Interface)
				if !ok {
					continue
				}
				writes := it.NumMethods() == 0 && false
				for i := 0; i < it.NumMethods(); i++ {
					switch it.Method(i).Name() {
					case "Write", "WriteAt", "WriteString", "ReadFrom":
						writes = true
					}
				}
				if writes {
					c.ob("stream", fmt.Sprintf("%s becomes %s", mi.X.Name(), mi.Type()), c.L.where(f, ins), stdStream(mi.X), "a file that is not standard output or error is written through an interface")
				}
			}
		}
	}
	// assigning the standard streams would turn printing into file output
	for g, refs := range r.glob {
		if g.Pkg.Pkg.Path() != "os" {
			continue
		}
		for _, e := range refs {
			if st, ok := e.ins.(*ssa.Store); ok && st.Addr == g {
				c.fail("stream", "assignment to "+g.String(), c.refWhere(e), "redirects a standard stream")
			}
		}
	}
	c.facts["reachable repository functions"] = len(r.funcs)
	c.facts["external references checked"] = sites
	c.atLeast("effect", "external functions referenced", len(r.ext), 20)
}

// ---- C02 ----------------------------------------------------------------------

type fileState struct {
	c       *Check
	r       *reachInfo
	closers map[string]bool
	panics  map[*ssa.Function]int
}

// opens says whether a call opens a file and which result holds it.
func (fs *fileState) opens(call *ssa.Call, openers map[*ssa.Function]bool) bool {
	f := call.Call.StaticCallee()
	if f == nil {
		return false
	}
	if openers[f] {
		return true
	}
	if pkgOf(f) == "os" && (f.Name() == "Open" || f.Name() == "OpenFile" || f.Name() == "OpenInRoot" || f.Name() == "Create") && f.Signature.Recv() == nil {
		return true
	}
	return false
}

// aliases of a file value inside one function, cells holding it included.
func aliases(f *ssa.Function, seeds []ssa.Value) (vals map[ssa.Value]bool, cells map[ssa.Value]bool) {
	vals, cells = map[ssa.Value]bool{}, map[ssa.Value]bool{}
	for _, s := range seeds {
		vals[s] = true
	}
	for changed := true; changed; {
		changed = false
		set := func(m map[ssa.Value]bool, v ssa.Value) {
			if !m[v] {
				m[v] = true
				changed = true
			}
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.Store:
					if vals[x.Val] {
						set(cells, x.Addr)
					}
				case *ssa.UnOp:
					if cells[x.X] {
						set(vals, x)
					}
				case *ssa.Phi:
					for _, e := range x.Edges {
						if vals[e] {
							set(vals, x)
						}
					}
				case *ssa.ChangeType:
					if vals[x.X] {
						set(vals, x)
					}
				case *ssa.MakeInterface:
					if vals[x.X] {
						set(vals, x)
					}
				case *ssa.ChangeInterface:
					if vals[x.X] {
						set(vals, x)
					}
				}
			}
		}
	}
	return
}

func isClose(cc *ssa.CallCommon, vals map[ssa.Value]bool) bool {
	if cc.IsInvoke() {
		return cc.Method.Name() == "Close" && vals[cc.Value]
	}
	f := cc.StaticCallee()
	return f != nil && f.Name() == "Close" && pkgOf(f) == "os" && len(cc.Args) > 0 && vals[cc.Args[0]]
}

// alwaysCloses: on every path of f (except where the file is nil) the given
// parameter or captured cell is closed, before anything that may panic.
func (fs *fileState) alwaysCloses(f *ssa.Function, v ssa.Value, isCell bool, depth int) bool {
	if depth > 4 || len(f.Blocks) == 0 {
		return false
	}
	var seeds []ssa.Value
	var vals, cells map[ssa.Value]bool
	if isCell {
		vals, cells = aliases(f, nil)
		cells[v] = true
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if u, ok := ins.(*ssa.UnOp); ok && u.X == v {
					seeds = append(seeds, u)
				}
			}
		}
		vals, _ = aliases(f, seeds)
	} else {
		vals, cells = aliases(f, []ssa.Value{v})
	}
	bad := ""
	fs.walk(f, f.Blocks[0], 0, vals, cells, nil, &bad, depth, false)
	return bad == ""
}

// takesOver: a (deferred or plain) call that closes the file for sure.
func (fs *fileState) takesOver(cc *ssa.CallCommon, vals, cells map[ssa.Value]bool, depth int) bool {
	if isClose(cc, vals) {
		return true
	}
	switch fv := cc.Value.(type) {
	case *ssa.MakeClosure:
		fn := fv.Fn.(*ssa.Function)
		if strings.HasPrefix(fn.Synthetic, "bound") && len(fv.Bindings) == 1 && vals[fv.Bindings[0]] {
			return strings.HasPrefix(fn.Name(), "Close")
		}
		for i, b := range fv.Bindings {
			if vals[b] && fs.alwaysCloses(fn, fn.FreeVars[i], false, depth+1) {
				return true
			}
			if cells[b] && fs.alwaysCloses(fn, fn.FreeVars[i], true, depth+1) {
				return true
			}
		}
		for i, a := range cc.Args {
			if vals[a] && i < len(fn.Params) && fs.alwaysCloses(fn, fn.Params[i], false, depth+1) {
				return true
			}
		}
	case *ssa.Function:
		if fs.c.L.isRepo(fv) {
			for i, a := range cc.Args {
				if vals[a] && i < len(fv.Params) && fs.alwaysCloses(fv, fv.Params[i], false, depth+1) {
					return true
				}
			}
		}
	}
	return false
}

func nilConst(v ssa.Value) bool {
	k, ok := v.(*ssa.Const)
	return ok && k.Value == nil
}

// walk follows all paths from instruction i of block b until the file is taken
// care of; bad names the first construct that leaves it open.
func (fs *fileState) walk(f *ssa.Function, b *ssa.BasicBlock, i int, vals, cells map[ssa.Value]bool, errv map[ssa.Value]bool, bad *string, depth int, own bool) (returned bool) {
	type at struct {
		b *ssa.BasicBlock
	}
	seen := map[*ssa.BasicBlock]bool{}
	var rec func(b *ssa.BasicBlock, i int)
	rec = func(b *ssa.BasicBlock, i int) {
		for ; i < len(b.Instrs); i++ {
			if *bad != "" {
				return
			}
			ins := b.Instrs[i]
			switch x := ins.(type) {
			case *ssa.Defer:
				if fs.takesOver(&x.Call, vals, cells, depth) {
					return
				}
			case *ssa.Call:
				if fs.takesOver(&x.Call, vals, cells, depth) {
					return
				}
				if why := fs.callPanics(&x.Call); why != "" {
					*bad = fs.c.L.where(f, ins) + ": may panic in " + why + " with the file open"
					return
				}
			case *ssa.Return:
				for _, r := range x.Results {
					if vals[r] {
						returned = true
						return
					}
				}
				*bad = fs.c.L.where(f, ins) + ": returns with the file open"
				return
			case *ssa.Panic:
				*bad = fs.c.L.where(f, ins) + ": panics with the file open"
				return
			case *ssa.If:
				if bo, ok := x.Cond.(*ssa.BinOp); ok && (bo.Op.String() == "!=" || bo.Op.String() == "==") {
					v, k := bo.X, bo.Y
					if nilConst(v) {
						v, k = k, v
					}
					if nilConst(k) {
						ne := bo.Op.String() == "!="
						if errv[v] { // the open failed on the != branch
							t := 1
							if !ne {
								t = 0
							}
							if !seen[b.Succs[t]] {
								seen[b.Succs[t]] = true
								rec(b.Succs[t], 0)
							}
							return
						}
						if vals[v] { // no file on the == branch
							t := 0
							if !ne {
								t = 1
							}
							if !seen[b.Succs[t]] {
								seen[b.Succs[t]] = true
								rec(b.Succs[t], 0)
							}
							return
						}
					}
				}
			default:
				if why := mayPanic(ins); why != "" {
					*bad = fs.c.L.where(f, ins) + ": " + why + " may panic with the file open"
					return
				}
			}
		}
		for _, s := range b.Succs {
			if !seen[s] {
				seen[s] = true
				rec(s, 0)
			}
		}
	}
	rec(b, i)
	return
}

func mayPanic(ins ssa.Instruction) string {
	switch x := ins.(type) {
	case *ssa.IndexAddr:
		if _, ok := constInt(x.Index); ok {
			if _, ok := x.X.(*ssa.Alloc); ok {
				return "" // variadic argument arrays
			}
		}
		return "indexing"
	case *ssa.Index, *ssa.Lookup:
		if l, ok := x.(*ssa.Lookup); ok {
			if _, m := l.X.Type().Underlying().(*types.Map); m {
				return ""
			}
		}
		return "indexing"
	case *ssa.Slice:
		if _, ok := x.X.(*ssa.Alloc); ok && x.Low == nil && x.High == nil {
			return ""
		}
		return "slicing"
	case *ssa.TypeAssert:
		if !x.CommaOk {
			return "a type assertion"
		}
	case *ssa.BinOp:
		if x.Op.String() == "/" || x.Op.String() == "%" {
			if k, ok := constInt(x.Y); !ok || k == 0 {
				return "a division"
			}
		}
	case *ssa.SliceToArrayPointer:
		return "a conversion"
	}
	return ""
}

// callPanics: a repository function (other than the log) that may panic.
func (fs *fileState) callPanics(cc *ssa.CallCommon) string {
	f := cc.StaticCallee()
	if f == nil {
		if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
			f = mc.Fn.(*ssa.Function)
		}
	}
	if f == nil || !fs.c.L.isRepo(f) {
		return ""
	}
	if pkgOf(f) == fs.c.L.Mod+"/"+pLogs {
		return ""
	}
	if fs.fnPanics(f) {
		return f.RelString(nil)
	}
	return ""
}

func (fs *fileState) fnPanics(f *ssa.Function) bool {
	if v, ok := fs.panics[f]; ok {
		return v == 1
	}
	fs.panics[f] = 0
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			bad := mayPanic(ins) != ""
			if ci, ok := ins.(ssa.CallInstruction); ok && fs.callPanics(ci.Common()) != "" {
				bad = true
			}
			if _, ok := ins.(*ssa.Panic); ok {
				bad = true
			}
			if bad {
				fs.panics[f] = 1
				return true
			}
		}
	}
	return false
}

func checkC02(c *Check) {
	c.rule("closed", "from the opening call every path reaches a close (deferred, in a helper, or explicit) before it returns or may panic, or returns the file to its caller")
	c.rule("own cell", "a deferred closure inside a loop closes the file of its own turn")
	r := c.L.reach(c.roots(), nil)
	fs := &fileState{c: c, r: r, panics: map[*ssa.Function]int{}}
	openers := map[*ssa.Function]bool{}
	n := 0
	done := map[*ssa.Call]bool{}
	for changed := true; changed; {
		changed = false
		for _, f := range r.sorted() {
			for _, b := range f.Blocks {
				for i, ins := range b.Instrs {
					call, ok := ins.(*ssa.Call)
					if !ok || done[call] || !fs.opens(call, openers) {
						continue
					}
					done[call] = true
					changed = true
					n++
					c.use(f)
					var seeds []ssa.Value
					errv := map[ssa.Value]bool{}
					collect := func(v ssa.Value) {
						if isOSFile(v.Type()) {
							seeds = append(seeds, v)
						}
						if isErrorT(v.Type()) {
							errv[v] = true
						}
					}
					collect(call)
					for _, ref := range *call.Referrers() {
						if e, ok := ref.(*ssa.Extract); ok {
							collect(e)
						}
					}
					errs := map[ssa.Value]bool{}
					for v := range errv {
						errs[v] = true
						// an error kept in a cell or merged is still that error right behind the call
						for _, ref := range *v.Referrers() {
							if st, ok := ref.(*ssa.Store); ok && st.Block() == b {
								for _, k := range b.Instrs {
									if u, ok := k.(*ssa.UnOp); ok && u.X == st.Addr {
										errs[u] = true
									}
								}
							}
							if phi, ok := ref.(*ssa.Phi); ok {
								errs[phi] = true
							}
						}
					}
					vals, cells := aliases(f, seeds)
					name := call.Call.StaticCallee().RelString(nil) + " in " + f.RelString(nil)
					if len(seeds) == 0 {
						c.fail("closed", name, c.L.where(f, ins), "the opened file is dropped")
						continue
					}
					bad := ""
					ret := fs.walk(f, b, i+1, vals, cells, errs, &bad, 0, true)
					if ret {
						openers[f] = true
					}
					c.ob("closed", name, c.L.where(f, ins), bad == "", bad)
					fs.ownCell(f, call, cells, name)
				}
			}
		}
	}
	c.atLeast("closed", "opening calls", n, 2)
}

// ownCell: the cell a deferred literal captures must be made in the same turn of
// the loop as the open, or several files would share it.
func (fs *fileState) ownCell(f *ssa.Function, call *ssa.Call, cells map[ssa.Value]bool, name string) {
	info := infoOf(f)
	lp := info.loopOf[call.Block()]
	if lp == nil {
		return
	}
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			d, ok := ins.(*ssa.Defer)
			if !ok {
				continue
			}
			mc, ok := d.Call.Value.(*ssa.MakeClosure)
			if !ok {
				continue
			}
			for _, bind := range mc.Bindings {
				if cells[bind] {
					al, isAlloc := bind.(*ssa.Alloc)
					ok := isAlloc && lp.blocks[al.Block()]
					fs.c.ob("own cell", name, fs.c.L.where(f, ins), ok, "the deferred literal closes the file of the last turn only")
				}
			}
		}
	}
}
