package main

// C39: the same input gives the same output.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	prop("C39", "effect analysis over the references reachable from main, and abstract interpretation of the SSA form for several orders of every map",
		"Every reference the command can reach to something that differs from run to run (time, randomness, process ids, environment, host, scheduling) is collected and its value followed to where it is used; it may only reach the log. The reading of dictionaries and tables and the redo record loop are analysed with every walk over a map in six different orders; statements and errors have to be the same.",
		checkC39, "the local time zone is part of the input", "maps of up to eight entries, six orders each", "no table has two clustered indexes")
}

// variesOf says why a function's result differs between runs.
func variesOf(f *ssa.Function) string {
	if strings.HasPrefix(f.Synthetic, "package init") {
		return ""
	}
	pkg, name := pkgOf(f), f.Name()
	has := func(list string) bool {
		for _, x := range strings.Fields(list) {
			if x == name {
				return true
			}
		}
		return false
	}
	switch pkg {
	case "time":
		if f.Signature.Recv() == nil && has("Now Since Until After Tick NewTimer NewTicker AfterFunc") {
			return "depends on the clock"
		}
	case "math/rand", "math/rand/v2", "crypto/rand", "hash/maphash":
		return "is random"
	case "os":
		if has("Getpid Getppid Hostname Getuid Getgid Geteuid Getegid Environ Getenv LookupEnv ExpandEnv TempDir UserHomeDir UserCacheDir Getpagesize") {
			return "depends on the process or its environment"
		}
	case "runtime":
		if has("NumGoroutine NumCPU GOMAXPROCS ReadMemStats NumCgoCall Stack") {
			return "depends on the running system"
		}
	case "syscall":
		if has("Getpid Getppid Gettimeofday Getenv Environ Time") {
			return "depends on the process or its environment"
		}
	}
	return ""
}

// onlyLogged follows a value forward; it returns where it goes other than into a
// log message.
func (c *Check) onlyLogged(v ssa.Value, seen map[ssa.Value]bool, depth int) (bad ssa.Instruction, unclear ssa.Instruction) {
	if seen[v] || v.Referrers() == nil {
		return
	}
	seen[v] = true
	for _, u := range *v.Referrers() {
		var next ssa.Value
		switch x := u.(type) {
		case *ssa.DebugRef:
			continue
		case *ssa.If:
			return u, nil
		case *ssa.Call:
			f := x.Call.StaticCallee()
			if f == nil && !x.Call.IsInvoke() {
				if _, ok := x.Call.Value.(*ssa.Builtin); ok {
					next = x
					break
				}
			}
			switch {
			case f == nil:
				unclear = u
			case ofLogs(f):
			case c.L.isRepo(f) && len(f.Blocks) > 0:
				if depth > 6 {
					unclear = u
					continue
				}
				for i, a := range x.Call.Args {
					if a == v && i < len(f.Params) {
						if b, n := c.onlyLogged(f.Params[i], seen, depth+1); b != nil {
							return b, nil
						} else if n != nil {
							unclear = n
						}
					}
				}
				continue
			case pkgOf(f) == "fmt" && (strings.HasPrefix(f.Name(), "Print") || strings.HasPrefix(f.Name(), "Fprint")):
				return u, nil
			default:
				next = x
			}
		case *ssa.Store:
			// into a local variable or the arguments of a call
			switch a := x.Addr.(type) {
			case *ssa.Alloc:
				next = a
			case *ssa.IndexAddr:
				if al, ok := a.X.(*ssa.Alloc); ok {
					next = al
				} else {
					unclear = u
				}
			case *ssa.FieldAddr:
				if al, ok := a.X.(*ssa.Alloc); ok {
					next = al
				} else {
					unclear = u
				}
			default:
				unclear = u
			}
		case *ssa.Return:
			unclear = u
		case ssa.Value:
			next = x
		default:
			unclear = u
		}
		if next != nil {
			b, n := c.onlyLogged(next, seen, depth)
			if b != nil {
				return b, nil
			}
			if n != nil {
				unclear = n
			}
		}
	}
	return nil, unclear
}

// ofLogs: a function of the logging package of the repository or of the logging library.
func ofLogs(f *ssa.Function) bool {
	p := pkgOf(f)
	return strings.HasSuffix(p, "/"+pLogs) || strings.Contains(p, "glog")
}

func checkC39(c *Check) {
	c.rule("sources", "nothing that differs between two runs reaches a decision or the output")
	c.rule("walk", "statements and errors are the same for every order in which maps are walked")
	c.rule("newest", "of several definitions of a table the one with the highest id is used")
	r := c.L.reach(c.roots(), nil)
	for f := range r.funcs {
		if c.L.isRepo(f) {
			c.use(f)
		}
	}
	n := 0
	for _, f := range sortedFns(r.ext) {
		n++
		why := variesOf(f)
		for _, e := range r.ext[f] {
			if why == "" {
				continue
			}
			name := f.RelString(nil) + " in " + e.from.RelString(nil)
			if ofLogs(e.from) {
				c.ob("sources", name, c.refWhere(e), true, "")
				continue
			}
			v, ok := e.ins.(ssa.Value)
			if !ok || !e.call {
				c.open("sources", name, c.refWhere(e), "the use of a function that "+why+" cannot be followed")
				continue
			}
			bad, unclear := c.onlyLogged(v, map[ssa.Value]bool{}, 0)
			switch {
			case bad != nil:
				c.fail("sources", name, c.refWhere(e), why+", and its value reaches "+c.L.where(bad.Parent(), bad))
			case unclear != nil:
				c.open("sources", name, c.refWhere(e), why+", and its value cannot be followed behind "+c.L.where(unclear.Parent(), unclear))
			default:
				c.ob("sources", name, c.refWhere(e), true, "")
			}
		}
	}
	c.facts["external functions referenced"] = n
	c.ob("sources", "references of the command", "", true, "")
	// concurrency
	writers := map[*ssa.Function]bool{}
	for f, refs := range r.ext {
		if pkgOf(f) == "fmt" && (strings.HasPrefix(f.Name(), "Print") || strings.HasPrefix(f.Name(), "Fprint")) || pkgOf(f) == "os" && strings.HasPrefix(f.Name(), "Write") {
			for _, e := range refs {
				writers[e.from] = true
			}
		}
	}
	type site struct {
		fn  *ssa.Function
		ins ssa.Instruction
	}
	var walks []site
	for _, f := range r.sorted() {
		if ofLogs(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.Go:
					what := "a goroutine started in " + f.RelString(nil)
					var roots []*ssa.Function
					if g := x.Call.StaticCallee(); g != nil {
						roots = append(roots, g)
					}
					if mc, ok := x.Call.Value.(*ssa.MakeClosure); ok {
						roots = append(roots, mc.Fn.(*ssa.Function))
					}
					prints := false
					for g := range c.L.reach(roots, nil).funcs {
						prints = prints || writers[g] && !ofLogs(g)
					}
					if prints {
						c.fail("sources", what, c.L.where(f, ins), "prints, in an order that depends on scheduling")
					} else {
						c.open("sources", what, c.L.where(f, ins), "the effect of scheduling is not analysed")
					}
				case *ssa.Select:
					if len(x.States) > 1 {
						c.open("sources", "a select in "+f.RelString(nil), c.L.where(f, ins), "the choice depends on scheduling")
					}
				case *ssa.Range:
					if _, ok := x.X.Type().Underlying().(*types.Map); ok {
						walks = append(walks, site{f, ins})
					}
				case *ssa.Call:
					if g := x.Call.StaticCallee(); g != nil && g.String() == "(*sync.Map).Range" {
						walks = append(walks, site{f, ins})
					}
				}
			}
		}
	}
	most := map[ssa.Instruction]int{}
	onWalk := func(fn *ssa.Function, ins ssa.Instruction, n int) { most[ins] = max(most[ins], n) }
	c.walkDict(onWalk)
	c.walkRedo(onWalk)
	for _, w := range walks {
		name := "walk over a map in " + w.fn.RelString(nil)
		if most[w.ins] >= 2 {
			c.ob("walk", name, c.L.where(w.fn, w.ins), true, "")
			continue
		}
		c.open("walk", name, c.L.where(w.fn, w.ins), fmt.Sprintf("not analysed with two entries or more (%d)", most[w.ins]))
	}
	c.facts["walks over maps"] = len(walks)
}

const mapOrders = 6

func (c *Check) walkDict(onWalk func(fn *ssa.Function, ins ssa.Instruction, n int)) {
	all := someTables()
	old := func(id uint64, db, name string, cols ...string) dictTab {
		t := dictTab{id: id, db: db, name: name}
		for _, k := range cols {
			t.cols = append(t.cols, ncol(k, dtVarmysql, mtVarchar|256, 100))
		}
		t.idx = []dictIdx{pk(id+100, cols[0]), {id: id + 200, name: "PRIMARY_2", fields: cols[len(cols)-1:]}, {id: id + 300, name: "NO_GEN_CLUST_INDEX", fields: cols}, {id: id + 400, name: "third", fields: cols}}
		return t
	}
	at := func(space uint64, t dictTab) dictTab {
		t.space = be(space, 4)
		return t
	}
	specs := []struct {
		name string
		s    dictSpec
	}{
		{"six tables", dictSpec{tabs: all}},
		{"three tables with three indexes each", dictSpec{tabs: []dictTab{old(21, "shop", "orders", "a", "b", "c"), old(23, "shop", "items", "d"), old(22, "bank", "orders", "e", "f")}}},
		{"a table name that two rows of the dictionary have", dictSpec{tabs: []dictTab{old(21, "shop", "orders", "a", "b", "c"), old(29, "shop", "orders", "c", "a"), old(22, "bank", "orders", "e", "f")}}},
		{"a table name that two rows of the dictionary have, the newer first", dictSpec{tabs: []dictTab{old(29, "shop", "orders", "c", "a"), old(22, "bank", "orders", "e", "f"), old(21, "shop", "orders", "a", "b", "c")}}},
		{"a table name that three rows of the dictionary have", dictSpec{tabs: []dictTab{old(25, "shop", "orders", "c", "a"), old(26, "shop", "orders", "e"), old(21, "shop", "orders", "a", "b", "c")}}},
		{"a table name that two rows of the dictionary have, the newer in a lower space", dictSpec{tabs: []dictTab{at(9, old(21, "shop", "orders", "a", "b", "c")), at(7, old(29, "shop", "orders", "c", "a")), at(8, old(22, "bank", "orders", "e", "f"))}}},
		{"a table name that two rows of the dictionary have, the newer in the system space", dictSpec{tabs: []dictTab{at(9, old(21, "shop", "orders", "a", "b", "c")), at(0, old(29, "shop", "orders", "c", "a")), at(8, old(22, "bank", "orders", "e", "f"))}}},
		{"a table name that two rows of the dictionary have, ids far apart", dictSpec{tabs: []dictTab{at(5, old(0x1_00000001, "shop", "orders", "c", "a")), at(6, old(0xfffffff0, "shop", "orders", "a", "b", "c")), at(7, old(22, "bank", "orders", "e", "f"))}}},
		{"dictionary tables over several pages", dictSpec{tabs: []dictTab{old(21, "shop", "orders", "a", "b", "c"), old(23, "shop", "items", "d"), old(22, "bank", "orders", "e", "f")},
			split: [4][]int{{1, 1, 1}, {2, 2, 2}, {4, 5}, {3, 3, 3, 3}}, order: []int{3, 0, 1, 2, 1, 0, 3, 3, 2}}},
	}
	cs := withSys([]tcol{vcol("c0", 100, false), vcol("c1", 100, false), vcol("c2", 100, false), vcol("c3", 100, false)})
	var vals []fval
	for i, k := range cs {
		n := 1
		if k.mtype == 0 {
			n = int(k.flen)
		}
		vals = append(vals, fv(fmt.Sprintf("value %d", i), n))
	}
	for si, sp := range specs {
		c.try("walk", sp.name, func() {
			tabPage := (&pageSpec{no: 3, index: 131, live: []tRow{{vals: vals}}}).build(cs)
			type result struct{ err, out *Node }
			run := func(order int) map[string]result {
				out := map[string]result{}
				s := sp.s
				e := c.readDictOrd(s.pages(), []*pageBuf{tabPage}, order, false, onWalk)
				if !e.clean("walk", sp.name, e.r) {
					panic(abort{})
				}
				out["the dictionary"] = result{nilness(asNode(e.r.res[0])), e.r.output()}
				names := map[string]bool{}
				for _, t := range s.tabs {
					if names[t.stored()] || t.db == "" || t.name == "" {
						continue
					}
					names[t.stored()] = true
					what := "table " + t.stored()
					r := e.rows(strN(t.db), strN(t.name), false)
					if !e.clean("walk", sp.name+": "+what, r) {
						continue
					}
					out[what] = result{nilness(asNode(r.res[0])), r.output()}
				}
				return out
			}
			want := run(0)
			where := c.L.where(c.fn(pIB, "ParseDataPage"), nil)
			newest := map[string]dictTab{}
			for _, t := range sp.s.tabs {
				if u, ok := newest[t.stored()]; !ok || t.id > u.id {
					newest[t.stored()] = t
				}
			}
			for _, t := range sp.s.tabs {
				if g, ok := want["table "+t.stored()]; ok && newest[t.stored()].id == t.id && si > 0 {
					n := len(t.cols) + 2
					c.decide("newest", sp.name+": table "+t.stored(), where, g.out, c.rowText(t.db, t.name, cs[:n], vals[:n]))
				}
			}
			keys := map[string]int{}
			for k := range want {
				keys[k] = 0
			}
			for o := 1; o < mapOrders; o++ {
				got := run(o)
				for _, k := range sortedKeys(keys) {
					g, ok := got[k]
					if !ok {
						continue
					}
					name := fmt.Sprintf("%s: %s, order %d", sp.name, k, o)
					c.decide("walk", name+": error", where, g.err, want[k].err)
					c.decide("walk", name+": statements", where, g.out, want[k].out)
				}
			}
		})
	}
}

func (c *Check) walkRedo(onWalk func(fn *ssa.Function, ins ssa.Instruction, n int)) {
	tables := func() []redoTable {
		a := c.ordersTable()
		a.indexes = []string{"by_note", "PRIMARY_2", "NO_GEN_CLUST_INDEX", "other"}
		b := simpleTable(200, 0x14, "shop", "items")
		b.indexes, b.indexFirst = []string{"PRIMARY_2", "y"}, true
		d := simpleTable(17, 0x14, "bank", "orders")
		d.indexes = []string{"z"}
		return []redoTable{a, b, d}
	}
	p, _ := probeRec()
	upd := func(t redoTable, s string) []*Node {
		pos := len(t.cols) - 1
		u := undoRec{table: t.id, keys: [][]*Node{lenData(be(7, 4))}, cols: [][]*Node{bcat(comp(uint64(pos)), comp(uint64(len(s))), strBytes(s).b)}}
		return undoRedo(u.body())
	}
	ts := tables()
	for _, k := range []struct {
		name    string
		data    []*Node
		db, tab string
	}{
		{"updates of three tables", bcat(p, upd(ts[1], "ab"), upd(ts[2], "cd"), p), "", ""},
		{"updates of three tables, one database", bcat(p, upd(ts[1], "ab"), upd(ts[2], "cd"), p), "shop", ""},
		{"updates of three tables, one table", bcat(p, upd(ts[1], "ab"), upd(ts[2], "cd"), p), "bank", "orders"},
		{"other records between", bcat(cb(1, 0x14, 3, 0, 9, 7), p, cb(9), comp(0x14), comp(3), p), "", ""},
	} {
		c.try("walk", k.name, func() {
			run := func(order int) *run {
				e := c.newRedoEnv(tables()...)
				e.db, e.tab = k.db, k.tab
				e.order, e.onWalk = order, onWalk
				return e.parse(k.data)
			}
			want := run(0)
			for _, x := range want.in.escaped {
				c.open("walk", k.name, c.L.where(want.fn, nil), "a panic is possible: "+x.why)
				return
			}
			for o := 1; o < mapOrders; o++ {
				got := run(o)
				name := fmt.Sprintf("%s, order %d", k.name, o)
				c.decide("walk", name+": statements", c.L.where(got.fn, nil), got.output(), want.output())
				c.decide("walk", name+": error", c.L.where(got.fn, nil), nilness(asNode(got.res[0])), nilness(asNode(want.res[0])))
			}
		})
	}
}
