package main

// Pages of known shape and unknown content: the bytes that describe the shape
// (headers, links, lengths, NULL flags) are constants, the bytes of the values
// and all bytes that no reader has to look at are unknown.

import (
	"fmt"
	"go/types"
	"hash/fnv"
)

// tcol is a column of a table as the dictionary describes it.
type tcol struct {
	name   string
	mtype  uint64 // InnoDB main type
	mysql  uint64 // MySQL type
	flen   uint64
	null   bool
	unsig  bool
	binary bool
}

const tBlobT = 252

// fixed is the length of the values of a fixed-length column, otherwise 0.
func (k tcol) fixed() uint64 {
	switch k.mtype {
	case dtVarchar, dtVarmysql, dtMysql, dtBlob, dtBinary:
		return 0
	}
	return k.flen
}

// long tells whether the length of a value may take two bytes.
func (k tcol) long() bool { return k.flen > 255 || k.mtype == dtBlob }

// fval is the stored value of one field.
type fval struct {
	null   bool
	extern bool
	two    bool // COMPACT: force a two-byte length
	b      []*Node
}

func fv(name string, n int) fval { return fval{b: fb(name, n)} }

var nullV = fval{null: true}

// gap is a byte whose content must not matter.
func gap(page uint64, i int) *Node {
	if fillMode > 0 {
		// headers of pages as a server writes them
		switch {
		case fillMode == 1 && 8 <= i && i < 16:
			return constN(0xff)
		case fillMode == 2 && 8 <= i && i < 12:
			return constN((page - 1) >> (8 * uint(11-i)) & 0xff)
		case fillMode == 2 && 12 <= i && i < 16:
			return constN((page + 1) >> (8 * uint(15-i)) & 0xff)
		case fillMode < 3 && 16 <= i && i < 18, fillMode < 3 && 26 <= i && i < 34, fillMode < 3 && 34 <= i && i < 38:
			return constN(0)
		case fillMode < 3 && 38 <= i && i < 94:
			if v, ok := plainHeader[i]; ok {
				return constN(v)
			}
			return constN(0)
		}
		h := fnv.New32a()
		fmt.Fprintf(h, "gap.%d.%d.%d", page, i, fillMode)
		return constN(uint64(h.Sum32() >> 9 & 0xff))
	}
	k := gapKey{page, i}
	if n, ok := gaps[k]; ok {
		return n
	}
	n := asNode(sym(fmt.Sprintf("page %d.%d", page, i), types.Typ[types.Uint8]))
	gaps[k] = n
	return n
}

// plainHeader are the bytes of the header of an index page that are not 0.
var plainHeader = map[int]uint64{39: 2, 41: 200, 42: 0x80, 43: 3, 49: 5, 50: 0, 51: 2}

type gapKey struct {
	page uint64
	i    int
}

var gaps = map[gapKey]*Node{}

// gapPages are whole pages of gaps, for one mode.
var (
	gapPages = map[uint64][]*Node{}
	gapMode  int
)

type pageBuf struct {
	no uint64
	b  []*Node
}

func newPageBuf(no, typ, index uint64) *pageBuf {
	if fillMode != gapMode {
		gapPages, gapMode = map[uint64][]*Node{}, fillMode
	}
	g := gapPages[no]
	if g == nil {
		g = make([]*Node, pageSize)
		for i := range g {
			g[i] = gap(no, i)
		}
		gapPages[no] = g
	}
	p := &pageBuf{no: no, b: append([]*Node(nil), g...)}
	p.put(4, 4, no)
	p.put(24, 2, typ)
	p.put(38+18, 8, 0) // max trx id
	p.put(38+26, 2, 0) // level
	p.put(38+28, 8, index)
	p.put(38+6, 2, 0) // free
	p.put(38+8, 2, 0) // garbage
	p.put(38+16, 2, 0)
	return p
}

// zero makes the page one that was never written.
func (p *pageBuf) zero() {
	for i := range p.b {
		p.b[i] = constN(0)
	}
}

func (p *pageBuf) put(at, w int, v uint64) { p.putN(at, be(v, w)...) }

func (p *pageBuf) putN(at int, vs ...*Node) {
	for i, v := range vs {
		if at+i >= 0 && at+i < len(p.b) {
			p.b[at+i] = v
		}
	}
}

// compactRec is a record in COMPACT format and the offset of its origin.
func compactRec(cols []tcol, vals []fval, head []*Node) ([]*Node, int) {
	nNull := 0
	for _, k := range cols {
		if k.null {
			nNull++
		}
	}
	nulls := make([]uint64, (nNull+7)/8)
	var lens, data []*Node
	k := 0
	for i, c := range cols {
		v := vals[i]
		if c.null {
			if v.null {
				nulls[k/8] |= 1 << uint(k%8)
			}
			k++
		}
		if v.null {
			continue
		}
		data = append(data, v.b...)
		if c.fixed() != 0 {
			continue
		}
		n := uint64(len(v.b))
		if c.long() && (n > 127 || v.extern || v.two) {
			n |= 0x8000
			if v.extern {
				n |= 0x4000
			}
			lens = append(lens, constN(n>>8), constN(n&255))
		} else {
			lens = append(lens, constN(n))
		}
	}
	var out []*Node
	for i := len(lens) - 1; i >= 0; i-- {
		out = append(out, lens[i])
	}
	for i := len(nulls) - 1; i >= 0; i-- {
		out = append(out, constN(nulls[i]))
	}
	out = append(out, head...)
	return append(out, data...), len(out)
}

// redundantRec is a record in REDUNDANT format and the offset of its origin.
func redundantRec(vals []fval, short bool, head []*Node) ([]*Node, int) {
	w := 2
	if short {
		w = 1
	}
	var data []*Node
	ends := make([]uint64, len(vals))
	for i, v := range vals {
		data = append(data, v.b...)
		e := uint64(len(data))
		if v.null {
			e |= 1 << uint(8*w-1)
		}
		if v.extern && !short {
			e |= 0x4000
		}
		ends[i] = e
	}
	var out []*Node
	for i := len(ends) - 1; i >= 0; i-- {
		out = append(out, be(ends[i], w)...)
	}
	h := append([]*Node(nil), head...)
	x := uint64(len(vals)) << 1
	if short {
		x |= 1
	}
	copy(h[2:], be(x, 2))
	out = append(out, h...)
	return append(out, data...), len(out)
}

// tRow is a row at its place in the page.
type tRow struct {
	vals  []fval
	at    int  // origin, 0: behind the previous record
	short bool // REDUNDANT: one-byte offsets
	long  bool
}

// pageSpec describes a page of a table.
type pageSpec struct {
	no       uint64
	compact  bool
	live     []tRow
	deleted  []tRow
	liveEnd  int // what the last live record points to: 0 supremum, -1 nothing, or a position
	delEnd   int
	typ      uint64 // 0: index
	edit     func(p *pageBuf)
	index    uint64
	noGarb   bool
	origins  []int // filled in: origins of the live and deleted records
	freeHead int
}

// build lays out the page.
func (s *pageSpec) build(cols []tcol) *pageBuf {
	typ := s.typ
	if typ == 0 {
		typ = 17855
	}
	p := newPageBuf(s.no, typ, s.index)
	n := uint64(len(s.live) + len(s.deleted) + 2)
	inf, sup := 101, 116
	if s.compact {
		n |= 0x8000
		inf, sup = 99, 112
	}
	p.put(38+4, 2, n)
	p.put(38+16, 2, uint64(len(s.live)))
	next := 130
	place := func(r tRow) int {
		name := fmt.Sprintf("page %d header.%d", s.no, len(s.origins))
		var b []*Node
		var o int
		if s.compact {
			b, o = compactRec(cols, r.vals, fb(name, 5))
		} else {
			sum := 0
			ext := false
			for _, v := range r.vals {
				sum += len(v.b)
				ext = ext || v.extern
			}
			b, o = redundantRec(r.vals, (sum <= 127 && !ext || r.short) && !r.long, fb(name, 6))
		}
		at := r.at
		if at == 0 {
			at = next + o
		}
		p.putN(at-o, b...)
		if e := at - o + len(b) + 2; r.at == 0 && e > next {
			next = e
		}
		s.origins = append(s.origins, at)
		return at
	}
	link := func(from, to int) {
		if s.compact {
			p.put(from-2, 2, uint64(to-from)&0xffff)
		} else {
			p.put(from-2, 2, uint64(to))
		}
	}
	nothing := func(from int) { p.put(from-2, 2, 0) }
	prev := inf
	end := func(e int) {
		switch e {
		case 0:
			link(prev, sup)
		case -1:
			nothing(prev)
		default:
			link(prev, e)
		}
	}
	for _, r := range s.live {
		at := place(r)
		link(prev, at)
		prev = at
	}
	end(s.liveEnd)
	if len(s.deleted) > 0 {
		g := next
		prev = 0
		for _, r := range s.deleted {
			at := place(r)
			if prev == 0 {
				s.freeHead = at
			} else {
				link(prev, at)
			}
			prev = at
		}
		if s.delEnd == 0 {
			nothing(prev)
		} else {
			end(s.delEnd)
		}
		p.put(38+6, 2, uint64(s.freeHead))
		p.put(38+8, 2, uint64(next-g+1))
	}
	if s.edit != nil {
		s.edit(p)
	}
	return p
}

// bytesOf joins the pages of a file.
func bytesOf(ps ...*pageBuf) []*Node {
	var out []*Node
	for _, p := range ps {
		out = append(out, p.b...)
	}
	return out
}

// sysCols are the hidden columns behind the key.
func sysCols() []tcol {
	return []tcol{{name: "DB_TRX_ID", flen: 6}, {name: "DB_ROLL_PTR", flen: 7}}
}

func rowIDCol() tcol { return tcol{name: "DB_ROW_ID", flen: 6} }

// sysVals are values for them.
func sysVals(row string) []fval { return []fval{fv(row+".trx", 6), fv(row+".roll", 7)} }

// tenv is a parser with tables in its dictionary, and a file.
type tenv struct {
	c       *Check
	m       *Mem
	x       *device
	d       *devices
	recv    *Node
	pt      types.Type
	objs    []*Agg
	endless bool
}

// tdef is a table in the dictionary; cols are in the order of the row.
type tdef struct {
	id       uint64
	db, name string
	cols     []tcol
}

func (c *Check) newTenv(tabs ...tdef) *tenv {
	e := &tenv{c: c, m: newMem(), pt: c.typ(pIB, "Parse")}
	tt, ct := c.typ(pIB, "Tables"), c.typ(pIB, "Columns")
	var es []entry
	for _, t := range tabs {
		var cs []Value
		nn := uint64(0)
		var names []string
		for _, k := range t.cols {
			names = append(names, k.name)
		}
		pos := dictPos(names)
		for i, k := range t.cols {
			if k.null {
				nn++
			}
			cs = append(cs, obj(ct, map[string]Value{"FieldName": strN(k.name), "FieldType": constN(k.mtype), "MySQLType": constN(k.mysql), "FieldPos": constN(pos[i]),
				"FieldLen": constN(k.flen), "IsNUll": boolN(k.null), "IsUnsigned": boolN(k.unsig), "IsBinary": boolN(k.binary && k.mtype == dtBlob), "TableID": constN(t.id)}))
		}
		e.objs = append(e.objs, obj(tt, map[string]Value{"DBName": strN(t.db), "TableName": strN(t.name), "NullCount": constN(nn),
			"Columns": mkArr(e.m, t.db+"."+t.name+" columns", ct, cs...)}))
		es = append(es, entry{constN(t.id), e.objs[len(e.objs)-1]})
	}
	cell := newAlloc("parser")
	noteCell(cell, e.pt)
	e.m.set(cell, zeroVal(e.pt))
	e.recv = leafN(cell)
	setField(e.m, e.recv, e.pt, "TableMap", mkMap(e.m, "tables", fieldType(e.pt, "TableMap"), es...))
	return e
}

// file gives the parser a file of the given pages.
func (e *tenv) file(ps ...*pageBuf) {
	b := bytesOf(ps...)
	e.x = &device{name: "orders.ibd", total: len(b), errAt: -1}
	e.d = newDevices(e.c, e.m, e.x)
	e.m.set(e.x.base, vecOf(b))
}

// data analyses the reading of the table file.
func (e *tenv) data(db, tab string, isRecovery *Node) *run {
	c := e.c
	f := c.fn(pIB, "ParseDataPage")
	if sigString(f) != "(string,string,string,bool)(error)" {
		panic(undecided("ParseDataPage takes other parameters than expected"))
	}
	c.curFn = f
	r := c.exec(f, []Value{e.recv, strN(e.x.name), strN(db), strN(tab), isRecovery}, e.m, func(in *Interp) {
		e.d.install(in)
		c.escapePrim(in)
		in.panics = true
		in.forceUnroll = true
		in.unrollMax = 4000
		in.findEndless = e.endless
	})
	c.curFn = f
	return r
}

// lit is the literal of a field.
func (c *Check) lit(k tcol, v fval) *Node {
	if v.null {
		return strN("NULL")
	}
	return c.colText(redoCol{k.name, k.mtype, k.mysql, k.flen, k.unsig, k.binary && k.mtype == dtBlob}, v.b)
}

// rowText is the statement of a row.
func (c *Check) rowText(db, tab string, cols []tcol, vals []fval) *Node {
	out := strN("replace into `" + db + "`.`" + tab + "` values (")
	first := true
	for i, k := range cols {
		if internalCol(k.name) {
			continue
		}
		if !first {
			out = catN(out, strN(","))
		}
		first = false
		out = catN(out, c.lit(k, vals[i]))
	}
	return catN(out, strN(");\n"))
}

// pageRows decides what is written for the pages of a table file.
func (c *Check) pageRows(rule, construct string, tabs []tdef, isRecovery bool, want *Node, pages ...*pageSpec) {
	if c.skip(rule, construct) {
		return
	}
	c.try(rule, construct, func() {
		tickCount = 0
		e := c.newTenv(tabs...)
		var ps []*pageBuf
		for _, s := range pages {
			ps = append(ps, s.build(tabs[0].cols))
		}
		e.file(ps...)
		rec := nFalse
		if isRecovery {
			rec = nTrue
		}
		r := e.data(tabs[0].db, tabs[0].name, rec)
		where := c.L.where(r.fn, nil)
		c.sites++
		for _, x := range r.in.escaped {
			if x.g == nTrue {
				c.fail(rule, construct, where, "panics: "+x.why)
			} else {
				c.open(rule, construct, where, "a panic is possible: "+x.why)
			}
			return
		}
		c.eq(rule, construct, where, r.output(), want, nil)
	})
}
