package main

// The redo record stream: C17 (filter), C18 (record lengths), C19 (record types),
// C20 (containment of undo records), C33 (undo record contents).

import (
	"fmt"
	"go/types"
	"hash/fnv"
	"math/rand"

	"golang.org/x/tools/go/ssa"
)

func init() {
	prop("C18", techVal,
		"The record loop is analysed on a stream that holds one record of the type under test, built from InnoDB's 5.7 layout with every uninterpreted byte unknown and every length, count and encoding class at its corner values, followed by an undo record of an update. The parser is at the right place after the record exactly when the update's statement, and nothing else, is written to standard output.",
		checkC18, "lengths and counts take corner values; bytes that InnoDB does not give a meaning to are arbitrary")
	prop("C19", techVal,
		"The record loop is analysed, for each of the 256 values of a type byte, on a stream in which that byte stands in front of an undo record of an update (unknown types) or as the type of a complete record (known types); the statement of the update must be written.",
		checkC19, "the two single-byte records with the single-record flag set are left open by the property")
}

// redoEnv is the dictionary the redo parser works with.
type redoEnv struct {
	c         *Check
	m         *Mem
	recv      *Node
	pt        types.Type
	db, tab   string
	dbN, tabN *Node // override db and tab
	cap0      int
	optimise  func(in *Interp)
	onBranch  func(c *Node)
	endless   bool
	order     int // of walks over maps
	onWalk    func(fn *ssa.Function, ins ssa.Instruction, n int)
}

type redoCol struct {
	name   string
	ft, mt uint64
	flen   uint64
	unsig  bool
	binary bool
}

type redoTable struct {
	id, space  uint64
	db, name   string
	cols       []redoCol
	index      string
	indexes    []string // further indexes
	indexFirst bool
	key        []string
}

func (c *Check) dt(name string, def uint64) uint64 { return c.con(pUtils, "DATA_"+name, def) }

// ordersTable is the table of the probe record.
func (c *Check) ordersTable() redoTable {
	return redoTable{id: 12, space: 0x14, db: "shop", name: "orders", index: "PRIMARY", key: []string{"id"}, cols: []redoCol{
		{"id", dtInt, mtLong, 4, true, false},
		{"DB_TRX_ID", 0, 0, 6, false, false},
		{"DB_ROLL_PTR", 0, 0, 7, false, false},
		{"note", dtVarchar, mtVarchar, 100, false, false},
	}}
}

// dictPos gives the positions the columns of a row have in the dictionary when
// the key columns are the last ones of the table; the hidden columns count from
// the end of the key.
func dictPos(names []string) []uint64 {
	at := make([]uint64, len(names))
	nKey, next := 0, uint64(0)
	for i, n := range names {
		if n == "DB_TRX_ID" {
			nKey = i
		}
	}
	for i, n := range names {
		switch {
		case internalCol(n):
			at[i] = uint64(i)
		case i >= nKey:
			at[i] = next
			next++
		}
	}
	for i, n := range names[:nKey] {
		if !internalCol(n) {
			at[i] = next
			next++
		}
	}
	return at
}

func (c *Check) newRedoEnv(tables ...redoTable) *redoEnv {
	e := &redoEnv{c: c, m: newMem(), pt: c.typ(pRedo, "Parse")}
	tt, ct, it, ft := c.typ(pIB, "Tables"), c.typ(pIB, "Columns"), c.typ(pIB, "Indexes"), c.typ(pIB, "Fields")
	var es []entry
	for _, t := range tables {
		var cs []Value
		var names []string
		for _, k := range t.cols {
			names = append(names, k.name)
		}
		at := dictPos(names)
		nulls := uint64(0)
		for i, k := range t.cols {
			isKey := false
			for _, n := range t.key {
				isKey = isKey || n == k.name
			}
			null := i%2 == 1 && !isKey && !internalCol(k.name)
			if null {
				nulls++
			}
			cs = append(cs, obj(ct, map[string]Value{"FieldName": strN(k.name), "FieldType": constN(k.ft), "MySQLType": constN(k.mt),
				"FieldPos": constN(at[i]), "FieldLen": constN(k.flen), "IsNUll": boolN(null), "IsUnsigned": boolN(k.unsig), "IsBinary": boolN(k.binary), "TableID": constN(t.id)}))
		}
		mkIdx := func(id uint64, name string, typ uint64, key []string) entry {
			var fs []Value
			for i, k := range key {
				fs = append(fs, heap(e.m, fmt.Sprintf("%s.%s.%s key %d", t.db, t.name, name, i), ft, obj(ft, map[string]Value{"ColumnPos": constN(uint64(i)), "ColumnName": strN(k)})))
			}
			var fl Value = nNil
			if len(fs) > 0 {
				fl = mkArr(e.m, fmt.Sprintf("%s.%s.%s fields", t.db, t.name, name), types.NewPointer(ft), fs...)
			}
			return entry{constN(id), obj(it, map[string]Value{"Id": constN(id), "Name": strN(name), "FieldNum": constN(uint64(len(key))), "IndexType": constN(typ), "Fields": fl})}
		}
		var idx []entry
		for i, n := range t.indexes {
			var k []string
			for _, col := range t.cols {
				if !internalCol(col.name) {
					k = []string{col.name}
				}
			}
			idx = append(idx, mkIdx(t.id*10+uint64(i)+1, n, 0, k))
		}
		if t.index != "" {
			i := mkIdx(t.id*10, t.index, 3, t.key)
			if t.indexFirst {
				idx = append([]entry{i}, idx...)
			} else {
				idx = append(idx, i)
			}
		}
		es = append(es, entry{constN(t.id), obj(tt, map[string]Value{"DBName": strN(t.db), "TableName": strN(t.name), "SpaceId": constN(t.space), "NullCount": constN(nulls),
			"Columns": mkArr(e.m, t.db+"."+t.name+" columns", ct, cs...),
			"Indexes": mkMap(e.m, t.db+"."+t.name+" indexes", fieldType(tt, "Indexes"), idx...)})})
	}
	cell := newAlloc("redo parser")
	noteCell(cell, e.pt)
	e.m.set(cell, zeroVal(e.pt))
	e.recv = leafN(cell)
	setField(e.m, e.recv, e.pt, "TableMap", mkMap(e.m, "tables", fieldType(e.pt, "TableMap"), es...))
	return e
}

// parse analyses the record loop on a stream.
func (e *redoEnv) parse(bytes []*Node) *run {
	c := e.c
	f := c.fn(pRedo, "parseRedoBlockData")
	if sigString(f) != "([]byte)(error)" {
		panic(undecided("the record loop takes other parameters than expected"))
	}
	db, tab := strN(e.db), strN(e.tab)
	if e.dbN != nil {
		db, tab = e.dbN, e.tabN
	}
	setField(e.m, e.recv, e.pt, "DBName", db)
	setField(e.m, e.recv, e.pt, "TableName", tab)
	base := newAlloc("redo data")
	e.m.set(base, vecOf(bytes))
	n := mkConst(uint64(len(bytes)))
	data := leafN(mkSlice(base, mkConst(0), n, n))
	r := c.exec(f, []Value{e.recv, data}, e.m, func(in *Interp) {
		in.panics = true
		in.forceUnroll = true
		in.onBranch = e.onBranch
		in.findEndless = e.endless
		in.mapOrder, in.onWalk = e.order, e.onWalk
		in.unrollMax = len(bytes) + 500
		c.escapePrim(in)
		if e.optimise != nil {
			e.optimise(in)
		}
	})
	c.curFn = f
	return r
}

func cb(vs ...uint64) []*Node {
	var out []*Node
	for _, v := range vs {
		out = append(out, constN(v))
	}
	return out
}

func fb(name string, n int) []*Node {
	var out []*Node
	for i := 0; i < n; i++ {
		if fillMode > 0 {
			h := fnv.New32a()
			fmt.Fprintf(h, "%s.%d.%d", name, i, fillMode)
			v := uint64(h.Sum32() >> 7 & 0xff)
			if fillMode < 3 {
				v = 'a' + v%26
			}
			out = append(out, constN(v))
			continue
		}
		out = append(out, asNode(sym(fmt.Sprintf("%s.%d", name, i), types.Typ[types.Uint8])))
	}
	return out
}

func bcat(ps ...[]*Node) []*Node {
	var out []*Node
	for _, p := range ps {
		out = append(out, p...)
	}
	return out
}

// comp is InnoDB's compressed form of a number.
func comp(v uint64) []*Node {
	switch {
	case v < 0x80:
		return cb(v)
	case v < 0x4000:
		return cb(v>>8|0x80, v&0xff)
	case v < 0x200000:
		return cb(v>>16|0xc0, v>>8&0xff, v&0xff)
	case v < 0x10000000:
		return cb(v>>24|0xe0, v>>16&0xff, v>>8&0xff, v&0xff)
	}
	return cb(0xf0, v>>24&0xff, v>>16&0xff, v>>8&0xff, v&0xff)
}

// much is the much-compressed form of a 64-bit number.
func much(v uint64) []*Node {
	if v>>32 == 0 {
		return comp(v)
	}
	return bcat(cb(0xff), comp(v>>32), comp(v&0xffffffff))
}

func be(v uint64, w int) []*Node {
	var out []*Node
	for i := w - 1; i >= 0; i-- {
		out = append(out, constN(v>>(8*uint(i))&0xff))
	}
	return out
}

// compKinds are the encodings of a number whose value means nothing to the length.
func compKinds(name string) map[string][]*Node {
	return map[string][]*Node{
		"0x00": cb(0x00), "0x7f": cb(0x7f), "0x14": cb(0x14),
		"0x81..": bcat(cb(0x81), fb(name, 1)), "0xbf..": bcat(cb(0xbf), fb(name, 1)),
		"0xc1..": bcat(cb(0xc1), fb(name, 2)), "0xdf..": bcat(cb(0xdf), fb(name, 2)),
		"0xe1..": bcat(cb(0xe1), fb(name, 3)), "0xef..": bcat(cb(0xef), fb(name, 3)),
		"0xf010..": bcat(cb(0xf0, 0x10), fb(name, 3)), "0xf0ff..": bcat(cb(0xf0, 0xff), fb(name, 3)),
	}
}

func sortedBytes(m map[string][]*Node) []string {
	x := map[string]int{}
	for k := range m {
		x[k] = 0
	}
	return sortedKeys(x)
}

// probe is an undo record of an update of the orders table; every byte of its
// header is 0x14, the type of an undo record, so that a parser that starts
// anywhere else finds an undo record with a length that swallows the rest.
func probeRec() ([]*Node, string) {
	body := bcat(cb(12, 1, 12, 0), cb(0, 0, 0, 0, 9), cb(0, 0, 0, 0, 8), cb(4), be(7, 4), cb(1, 3, 2, 'o', 'k'), be(0, 2))
	return bcat(cb(0x14, 0x14, 0x14), be(uint64(len(body)), 2), body), "update `shop`.`orders` set `note`='ok' where `id`='7';\n"
}

// passes decides whether exactly the probe's statement is written after the
// given bytes; fillers replace the unknown bytes when the parser's way depends on
// them.
func (c *Check) passes(rule, construct string, lead []*Node) { c.passesW(rule, construct, lead, "") }

func (c *Check) passesW(rule, construct string, lead []*Node, before string) {
	c.try(rule, construct, func() {
		f := c.fn(pRedo, "parseRedoBlockData")
		where := c.L.where(f, nil)
		p, want := probeRec()
		want = before + want
		conds := &condSet{}
		attempt := func(lead []*Node) (res string, got *Node) {
			defer func() {
				if r := recover(); r != nil {
					if u, ok := r.(undecided); ok {
						res = "undecided: " + string(u)
						return
					}
					if _, ok := r.(budgetExceeded); ok {
						res = "undecided: the analysis budget is exhausted"
						return
					}
					panic(r)
				}
			}()
			tickCount = 0
			e := c.newRedoEnv(c.ordersTable())
			e.onBranch = func(n *Node) { conds.add(n) }
			r := e.parse(bcat(lead, p))
			out := r.output()
			if len(r.in.escaped) > 0 {
				if out.leaf != nil && r.in.escaped[0].g == nTrue {
					return "panics: " + r.in.escaped[0].why, out
				}
				return "undecided: a panic is possible: " + r.in.escaped[0].why, out
			}
			return "", out
		}
		why, got := attempt(lead)
		if why == "" && got == strN(want) {
			c.sites++
			c.ob(rule, construct, where, true, "")
			return
		}
		if c.violations() >= 5 {
			c.open(rule, construct, where, why)
			return
		}
		for _, l := range append(fillings(lead), conds.flips(lead, 0x14)...) {
			w, g := attempt(l)
			if w == "" && g.leaf != nil && g.leaf.k == KStr && g != strN(want) {
				c.fail(rule, construct, where, fmt.Sprintf("after these bytes the statement of the next record is expected, but %q is written: %s", g.leaf.s, showBytes(l)))
				return
			}
			if len(w) > 6 && w[:6] == "panics" {
				c.fail(rule, construct, where, w+": "+showBytes(l))
				return
			}
		}
		if why == "" {
			why = "the output depends on bytes that mean nothing"
		}
		c.open(rule, construct, where, why)
	})
}

func showBytes(l []*Node) string {
	s := ""
	for i, b := range l {
		if i == 40 {
			return s + "…"
		}
		v, _ := isConstN(b)
		s += fmt.Sprintf("%02x ", v)
	}
	return s
}

// redoVariant is a complete record without its header.
type redoVariant struct {
	name string
	body []*Node
}

func one(name string, parts ...[]*Node) []redoVariant { return []redoVariant{{name, bcat(parts...)}} }

// each puts every encoding of a number into a layout.
func each(name string, mk func(c []*Node) []*Node) []redoVariant {
	var out []redoVariant
	ks := compKinds("n")
	for _, k := range sortedBytes(ks) {
		out = append(out, redoVariant{name + " " + k, mk(ks[k])})
	}
	return out
}

func idxBytes(n int) []*Node { return bcat(be(uint64(n), 2), fb("uniq", 2), fb("idx", 2*n)) }

// withIndex puts the index description of the compact formats in front.
func withIndex(comp bool, thorough bool, vs []redoVariant) []redoVariant {
	if !comp {
		return vs
	}
	var out []redoVariant
	ns := []int{0, 1, 2, 3, 9}
	for i, v := range vs {
		use := ns
		if i > 0 && !thorough {
			use = []int{2}
		}
		for _, n := range use {
			out = append(out, redoVariant{fmt.Sprintf("%d index columns, %s", n, v.name), bcat(idxBytes(n), v.body)})
		}
	}
	if thorough && len(vs) > 0 {
		out = append(out, redoVariant{"257 index columns, " + vs[0].name, bcat(idxBytes(257), vs[0].body)})
	}
	return out
}

// insertRec are the forms of an inserted record.
func insertRec(name string) []redoVariant {
	var out []redoVariant
	for _, n := range []int{0, 1, 2, 63, 64, 100, 200, 700, 9000} {
		out = append(out, redoVariant{fmt.Sprintf("%s tail of %d bytes", name, n), bcat(comp(uint64(n)<<1), fb("tail", n))})
	}
	for _, n := range []int{0, 3, 70} {
		out = append(out, redoVariant{fmt.Sprintf("%s tail of %d bytes with origin", name, n), bcat(comp(uint64(n)<<1|1), fb("info", 1), cb(0x14), cb(0x7f), fb("tail", n))})
	}
	for _, v := range each("origin", func(x []*Node) []*Node { return bcat(comp(2<<1|1), fb("info", 1), x, cb(0x7f), fb("tail", 2)) }) {
		out = append(out, redoVariant{name + " " + v.name, v.body})
	}
	for _, v := range each("mismatch", func(x []*Node) []*Node { return bcat(comp(2<<1|1), fb("info", 1), cb(0x05), x, fb("tail", 2)) }) {
		out = append(out, redoVariant{name + " " + v.name, v.body})
	}
	return out
}

func prefix(p []*Node, vs []redoVariant) []redoVariant {
	var out []redoVariant
	for _, v := range vs {
		out = append(out, redoVariant{v.name, bcat(p, v.body)})
	}
	return out
}

// redoLayouts are the 5.7 record layouts behind type, space and page.
func (c *Check) redoLayouts() map[uint64][]redoVariant {
	th := c.Tier == "thorough"
	L := map[uint64][]redoVariant{}
	two := func(n string) []*Node { return fb(n, 2) }
	none := one("no data")
	for _, t := range []uint64{1, 2, 4} {
		L[t] = each("value", func(x []*Node) []*Node { return bcat(two("offset"), x) })
	}
	L[8] = each("high half", func(x []*Node) []*Node { return bcat(two("offset"), x, fb("low", 4)) })
	L[11] = one("mark", fb("mark", 1), two("offset"))
	// the contents of undo records are decided by C20 and C33
	for _, n := range []int{3, 4, 20, 255, 256, 300} {
		L[20] = append(L[20], redoVariant{fmt.Sprintf("%d bytes of an insert into an unknown table", n), bcat(be(uint64(n), 2), cb(11, 1, 99), fb("undo", n-3))})
	}
	for _, t := range []uint64{21, 23, 27, 29, 59, 19, 37, 57, 58} {
		L[t] = none
	}
	L[22] = each("type", func(x []*Node) []*Node { return x })
	for _, t := range []uint64{24, 25} {
		L[t] = each("high half of the transaction id", func(x []*Node) []*Node { return bcat(x, fb("low", 4)) })
	}
	for _, n := range []int{0, 1, 2, 127, 128, 255, 256, 300} {
		L[30] = append(L[30], redoVariant{fmt.Sprintf("%d bytes", n), bcat(two("offset"), be(uint64(n), 2), fb("string", n))})
	}
	names := []int{0, 1, 2, 20, 127, 128, 260}
	for _, t := range []uint64{33, 35, 55} {
		for _, n := range names {
			L[t] = append(L[t], redoVariant{fmt.Sprintf("name of %d bytes", n), bcat(be(uint64(n), 2), fb("name", n))})
		}
	}
	for _, n := range names {
		L[47] = append(L[47], redoVariant{fmt.Sprintf("name of %d bytes", n), bcat(fb("flags", 4), be(uint64(n), 2), fb("name", n))})
		for _, k := range []int{0, 1, 20, 260} {
			for _, t := range []uint64{34, 54} {
				L[t] = append(L[t], redoVariant{fmt.Sprintf("names of %d and %d bytes", n, k), bcat(be(uint64(n), 2), fb("old", n), be(uint64(k), 2), fb("new", k))})
			}
		}
	}
	for _, t := range []uint64{26, 36} {
		L[t] = one("offset", two("offset"))
	}
	L[9] = prefix(two("cursor"), insertRec("insert"))
	L[38] = withIndex(true, th, L[9])
	L[10] = each("position", func(x []*Node) []*Node {
		return bcat(fb("flags", 1), fb("mark", 1), x, fb("roll", 7), cb(0x00), fb("trx", 4), two("offset"))
	})
	L[10] = append(L[10], each("high half of the transaction id", func(x []*Node) []*Node {
		return bcat(fb("flags", 1), fb("mark", 1), cb(0x03), fb("roll", 7), x, fb("trx", 4), two("offset"))
	})...)
	L[39] = withIndex(true, th, L[10])
	L[40] = withIndex(true, th, L[11])
	// update in place
	head := func(pos, trx []*Node) []*Node {
		return bcat(fb("flags", 1), pos, fb("roll", 7), trx, fb("trxlow", 4), two("offset"), fb("info", 1))
	}
	std := head(cb(0x03), cb(0x00))
	upd := each("position", func(x []*Node) []*Node { return bcat(head(x, cb(0x00)), cb(0)) })
	upd = append(upd, each("high half of the transaction id", func(x []*Node) []*Node { return bcat(head(cb(0x03), x), cb(0)) })...)
	fieldOf := func(no []*Node, n uint64) []*Node {
		if n == 0xffffffff {
			return bcat(no, comp(n))
		}
		return bcat(no, comp(n), fb(fmt.Sprintf("data%d", n), int(n)))
	}
	upd = append(upd, each("one field, number", func(x []*Node) []*Node { return bcat(std, cb(1), fieldOf(x, 4)) })...)
	for _, n := range []uint64{0, 1, 2, 127, 128, 200, 0xffffffff} {
		upd = append(upd, redoVariant{fmt.Sprintf("one field of length %#x", n), bcat(std, cb(1), fieldOf(cb(3), n))})
		upd = append(upd, redoVariant{fmt.Sprintf("three fields, the second of length %#x", n), bcat(std, cb(3), fieldOf(cb(3), 2), fieldOf(cb(4), n), fieldOf(cb(0x81, 0x05), 1))})
	}
	upd = append(upd, redoVariant{"NULL, value, NULL", bcat(std, cb(3), fieldOf(cb(3), 0xffffffff), fieldOf(cb(4), 6), fieldOf(cb(5), 0xffffffff))})
	L[13] = upd
	L[41] = withIndex(true, th, upd)
	for _, t := range []uint64{14, 15, 16} {
		L[t] = one("offset", two("offset"))
	}
	for _, t := range []uint64{42, 43, 44} {
		L[t] = withIndex(true, true, L[14])
	}
	// copied list: short insert records
	rec := func(n int) []*Node { return bcat(comp(uint64(n)<<1), fb(fmt.Sprintf("rec%d", n), n)) }
	org := bcat(comp(3<<1|1), fb("info", 1), cb(0x05), cb(0x84, 0x01), fb("orec", 3))
	list := func(name string, rs ...[]*Node) {
		b := bcat(rs...)
		L[17] = append(L[17], redoVariant{name, bcat(be(uint64(len(b)), 4), b)})
	}
	list("no record")
	list("one record", rec(5))
	list("two records", rec(5), rec(70))
	list("three records", rec(0), org, rec(1))
	list("ten records", rec(5), rec(5), rec(5), rec(5), rec(5), rec(5), rec(5), rec(5), rec(5), rec(5))
	list("records of 300 bytes", rec(100), rec(100), rec(90))
	L[45] = withIndex(true, th, L[17])
	L[18] = none
	L[46] = withIndex(true, true, one("no data"))
	L[53] = withIndex(true, true, one("level", fb("level", 1)))
	L[48] = one("node pointer", two("offset"), two("zip offset"), fb("pointer", 4))
	L[49] = one("BLOB pointer", two("offset"), two("zip offset"), fb("pointer", 20))
	for _, n := range []int{0, 1, 2, 127, 255} {
		L[50] = append(L[50], redoVariant{fmt.Sprintf("%d bytes", n), bcat(fb("offset", 1), cb(uint64(n)), fb("header", n))})
	}
	for _, n := range []int{0, 1, 40, 300} {
		for _, k := range []int{0, 1, 20, 260} {
			L[51] = append(L[51], redoVariant{fmt.Sprintf("data of %d, trailer of %d bytes", n, k), bcat(be(uint64(n), 2), be(uint64(k), 2), fb("links", 8), fb("data", n), fb("trailer", k))})
		}
	}
	L[52] = withIndex(true, true, one("level", fb("level", 1)))
	L[60] = one("truncate", fb("lsn", 8))
	L[61] = one("index", fb("index", 8))
	return L
}

func checkC18(c *Check) {
	c.rule("body", "behind a complete record of the type the next record is read from where it starts")
	c.rule("header", "the encodings of space id and page number are skipped by their length")
	L := c.redoLayouts()
	for t := uint64(0); t < 64; t++ {
		for _, v := range L[t] {
			for _, flag := range []uint64{0, 0x80} {
				if flag != 0 && v.name != L[t][0].name {
					continue
				}
				c.passes("body", fmt.Sprintf("type %d, flag %#x: %s", t, flag, v.name), bcat(cb(t|flag, 0x05, 0x06), v.body))
			}
		}
		if len(L[t]) > 0 {
			ks := compKinds("space")
			kp := compKinds("page")
			// the last variant's body behind every encoding of the header
			b := L[t][len(L[t])-1].body
			if len(b) > 40 {
				b = L[t][0].body
			}
			for _, k := range sortedBytes(ks) {
				c.passes("header", fmt.Sprintf("type %d, space %s", t, k), bcat(cb(t), ks[k], cb(0x03), b))
				c.passes("header", fmt.Sprintf("type %d, page %s", t, k), bcat(cb(t), cb(0x03), kp[k], b))
			}
		}
	}
	c.passes("body", "type 56: checkpoint", bcat(cb(56), fb("lsn", 8)))
	c.passes("body", "type 56, flag 0x80: checkpoint", bcat(cb(56|0x80), fb("lsn", 8)))
	c.passes("body", "type 31: end of a mini-transaction", cb(31))
	c.passes("body", "type 32: dummy", cb(32))
	c.passes("body", "types 31, 32, 31", cb(31, 32, 31))
	// pairs of records
	if c.Tier == "thorough" {
		for t := uint64(0); t < 64; t++ {
			for u := uint64(0); u < 64; u++ {
				if len(L[t]) > 0 && len(L[u]) > 0 {
					c.passes("body", fmt.Sprintf("type %d, then type %d", t, u), bcat(cb(t, 0x05, 0x06), L[t][len(L[t])/2].body, cb(u, 0x05, 0x06), L[u][len(L[u])/2].body))
				}
			}
		}
	}
}

func checkC19(c *Check) {
	c.rule("unknown", "behind a byte that is no record type parsing resumes with the next byte")
	c.rule("known", "a record type is taken as such, with and without the single-record flag")
	L := c.redoLayouts()
	known := func(t uint64) bool {
		return t == 1 || t == 2 || t == 4 || t >= 8 && t <= 11 || t >= 13 && t <= 27 || t >= 29 && t <= 61
	}
	var unknown []uint64
	for b := uint64(0); b < 128; b++ {
		if !known(b) {
			unknown = append(unknown, b, b|0x80)
		}
	}
	for _, n := range []int{4, 5, 8, 16, 17, 64, 65, 120, 700} {
		var l []*Node
		for i := 0; i < n; i++ {
			l = append(l, cb(unknown[i*7%len(unknown)])...)
		}
		c.passes("unknown", fmt.Sprintf("%d unknown bytes", n), l)
	}
	for b := uint64(0); b < 256; b++ {
		t := b &^ 0x80
		switch {
		case t == 31 || t == 32:
			if b == t {
				c.passes("known", fmt.Sprintf("byte %#02x", b), cb(b))
			}
		case t == 56:
			c.passes("known", fmt.Sprintf("byte %#02x", b), bcat(cb(b), fb("lsn", 8)))
		case known(t):
			if len(L[t]) == 0 {
				c.open("known", fmt.Sprintf("byte %#02x", b), "", "no layout for this type")
				continue
			}
			v := L[t][len(L[t])-1]
			c.passes("known", fmt.Sprintf("byte %#02x, %s", b, v.name), bcat(cb(b, 0x05, 0x06), v.body))
			for _, h := range []struct{ space, page uint64 }{{0, 6}, {5, 0}, {0, 0}, {1, 1}, {1 << 14, 1 << 21}, {0xffffffff, 0xffffffff}, {0xfffffff0, 6}} {
				c.passes("known", fmt.Sprintf("byte %#02x, %s, space %d, page %d", b, v.name, h.space, h.page), bcat(cb(b), comp(h.space), comp(h.page), v.body))
			}
		default:
			c.passes("unknown", fmt.Sprintf("byte %#02x", b), cb(b))
			c.passes("unknown", fmt.Sprintf("byte %#02x three times", b), cb(b, b, b))
			c.passes("unknown", fmt.Sprintf("byte %#02x behind a record", b), bcat(cb(19, 0x05, 0x06), cb(b)))
			for _, space := range [][]uint64{{0x82, 0x02}, {0xC1, 0x02, 0x02}, {0xE1, 0x02, 0x02, 0x02}, {0xF0, 0x01, 0x02, 0x02, 0x02}} {
				c.passes("unknown", fmt.Sprintf("byte %#02x in front of a record with a space id of %d bytes", b, len(space)), bcat(cb(b, 19), cb(space...), cb(0x06)))
				c.passes("unknown", fmt.Sprintf("byte %#02x in front of a record with a page number of %d bytes", b, len(space)), bcat(cb(b, 0x13, 0x05), cb(space...)))
			}
		}
	}
}

func vecOf(bytes []*Node) *Arr {
	a := &Arr{k: aVec, elem: byteT, under: &Arr{k: aZero, elem: byteT}}
	for _, b := range bytes {
		a.vec = append(a.vec, b)
	}
	return a
}

// fillings replace the unknown bytes by constants: all by the same one, and one at
// a time by another one than the rest.
func fillings(lead []*Node) [][]*Node {
	var free []int
	for i, b := range lead {
		if _, ok := isConstN(b); !ok {
			free = append(free, i)
		}
	}
	fill := func(base uint64) []*Node {
		l := append([]*Node(nil), lead...)
		for _, i := range free {
			l[i] = constN(base)
		}
		return l
	}
	if len(free) == 0 {
		return [][]*Node{lead}
	}
	var out [][]*Node
	for _, v := range []uint64{0x14, 0x00, 0xff, 0x01, 0x80} {
		out = append(out, fill(v))
	}
	for n, i := range free {
		if n == 20 {
			break
		}
		for _, v := range []uint64{0x00, 0x01, 0x80, 0xff} {
			l := fill(0x14)
			l[i] = constN(v)
			out = append(out, l)
		}
	}
	return out
}

func (c *Check) violations() int {
	n := 0
	for _, o := range c.obs {
		if !o.OK && !o.Open {
			n++
		}
	}
	return n
}

// condSet collects conditions the analysed code decides by its input.
type condSet struct {
	list []*Node
	seen map[*Node]bool
}

func (s *condSet) add(n *Node) {
	if s.seen == nil {
		s.seen = map[*Node]bool{}
	}
	if !s.seen[n] && len(s.list) < 24 {
		s.seen[n] = true
		s.list = append(s.list, n)
	}
}

// byteAtom is the unknown that a byte of a stream stands for.
func byteAtom(n *Node) *Term {
	t := n.leaf
	if t == nil {
		return nil
	}
	if t.k == KInt {
		if len(t.ms) != 1 || t.u != 0 {
			return nil
		}
		t = t.ms[0].A
	}
	if t.k == KBits {
		t = t.args[0]
	}
	if t.k == KSym {
		return t
	}
	return nil
}

// flips are fillings of the unknown bytes that turn a recorded condition around,
// found by putting the constants of the condition, in either byte order and as
// they are or one off, into neighbouring bytes.
func (s *condSet) flips(lead []*Node, base uint64) [][]*Node {
	var out [][]*Node
	for _, c := range s.list {
		at := map[*Term]int{}
		for i, b := range lead {
			if a := byteAtom(b); a != nil {
				at[a] = i
			}
		}
		used := map[int]bool{}
		mentioned(c, func(t *Term) {
			if i, ok := at[t]; ok {
				used[i] = true
			}
		})
		if len(used) == 0 {
			continue
		}
		eval := func(l []*Node) string {
			r := &rho{rnd: rand.New(rand.NewSource(1)), ints: map[*Term]uint64{}, vals: map[*Term]string{}, memo: map[*Term]cval{}, ctx: emptyCtx}
			for a, i := range at {
				v, _ := isConstN(l[i])
				r.ints[a] = v
			}
			return r.node(c).String()
		}
		blank := func() []*Node {
			l := append([]*Node(nil), lead...)
			for _, i := range at {
				l[i] = constN(base)
			}
			return l
		}
		was := eval(blank())
		found := 0
		consts := collectInts(c)
		seen := map[uint64]bool{}
		bits := 0
		for i := range lead {
			for _, v := range []uint64{1, 2, 4, 8, 16, 32, 64, 128, 255, 0} {
				if !used[i] || bits >= 4 {
					continue
				}
				l := blank()
				l[i] = constN(v)
				if eval(l) != was {
					out = append(out, l)
					bits++
				}
			}
		}
		for _, k0 := range consts {
			for d := uint64(0); d < 3; d++ {
				k := k0 + d - 1
				if seen[k] || found >= 6 {
					continue
				}
				seen[k] = true
				for _, v := range []uint64{k, -k} {
					for w := 1; w <= 8 && found < 6; w++ {
						for i := range lead {
							if !used[i] || found >= 6 {
								continue
							}
							for _, le := range []bool{false, true} {
								l := blank()
								ok := true
								for j := 0; j < w; j++ {
									if i+j >= len(l) || byteAtom(lead[i+j]) == nil {
										ok = false
										break
									}
									sh := uint(8 * (w - 1 - j))
									if le {
										sh = uint(8 * j)
									}
									l[i+j] = constN(v >> sh & 0xff)
								}
								if ok && eval(l) != was {
									out = append(out, l)
									found++
									break
								}
							}
						}
					}
				}
			}
		}
	}
	return out
}

func mentioned(n *Node, f func(t *Term)) {
	st := map[*Term]bool{}
	var rt func(t *Term)
	rt = func(t *Term) {
		if st[t] {
			return
		}
		st[t] = true
		f(t)
		for _, a := range t.args {
			rt(a)
		}
		for _, m := range t.ms {
			rt(m.A)
		}
	}
	sn := map[*Node]bool{}
	var rn func(n *Node)
	rn = func(n *Node) {
		if sn[n] {
			return
		}
		sn[n] = true
		if n.leaf != nil {
			rt(n.leaf)
			return
		}
		rt(n.a)
		rn(n.hi)
		rn(n.lo)
	}
	rn(n)
}
