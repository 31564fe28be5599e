package main

// The statements: C14 (REPLACE), C15 (escaping), C16 (UPDATE), C17 (filter).

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"
)

func init() {
	prop("C14", techVal,
		"The table reader is analysed with rows of every small shape whose column values are unknown (NULL, text, integers, bit strings, hexadecimal text, floats) for every MySQL type; the text it writes to standard output is compared, as a term, with the REPLACE statements of the rows.",
		checkC14, "up to three rows of up to four user columns in every combination, given rows up to 300 and columns up to 1017", "the row reader is represented by its result")
}

// escape models the escaping function, which C15 decides: digits stay as they are.
func (c *Check) escapePrim(in *Interp) {
	f := c.fn(pUtils, "EscapeValue")
	in.prims[fnName(f)] = func(p *PrimCall) Value { return escN(asNode(p.Args[0])) }
}

var escTable = map[byte]string{0: `\0`, '\n': `\n`, '\r': `\r`, '\\': `\\`, '\'': `\'`, '"': `\"`, 26: `\Z`}

func escConst(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if e, ok := escTable[s[i]]; ok {
			b.WriteString(e)
		} else {
			b.WriteByte(s[i])
		}
	}
	return b.String()
}

func escT(t *Term) *Term {
	switch {
	case t.k == KStr:
		return mkStr(escConst(t.s))
	case t.k == KCat:
		var ps []*Term
		for _, a := range t.args {
			ps = append(ps, escT(a))
		}
		return catT(ps...)
	case t.k == KOp && (t.s == "decu" || t.s == "hex" || strings.HasPrefix(t.s, "fmt:%b") || strings.HasPrefix(t.s, "fmt:%x") || t.s == "plaintext"):
		return t
	}
	return mkOp("esc", 0, t)
}

func escN(n *Node) *Node { return apply1(n, func(t *Term) *Node { return leafN(escT(t)) }) }

// colVal is a kind of column value.
type colVal struct {
	kind string
	v    func(name string) *Node
	text func(m *Mem, v *Node, verb string) *Node
}

func symI(name string, w int, signed bool) *Node {
	t := types.Type(types.Typ[types.Uint64])
	if signed {
		t = types.Typ[types.Int64]
	}
	return asNode(sym(name, t))
}

var tF32, tF64, tI64 = types.Typ[types.Float32], types.Typ[types.Float64], types.Typ[types.Int64]

func colVals() map[string]func(name string) *Node {
	return map[string]func(name string) *Node{
		"NULL":   func(string) *Node { return nNil },
		"text":   func(n string) *Node { return ifaceOf(tString, asNode(sym(n, tString))) },
		"uint64": func(n string) *Node { return ifaceOf(tU64, asNode(sym(n, tU64))) },
		"int64":  func(n string) *Node { return ifaceOf(tI64, asNode(sym(n, tI64))) },
		"int":    func(n string) *Node { return ifaceOf(tInt, asNode(sym(n, tInt))) },
		"float":  func(n string) *Node { return ifaceOf(tF64, asNode(sym(n, tF64))) },
	}
}

// litN is the SQL literal of a value.
func litN(m *Mem, v *Node, mt uint64, binary bool) *Node {
	return apply1(v, func(t *Term) *Node {
		if t.k == KNil {
			return strN("NULL")
		}
		verb, pre := "%v", ""
		if mt == mtBit {
			verb, pre = "%b", "b"
		}
		l := catN(catN(strN(pre+"'"), escN(fmtVal(m, verb, t))), strN("'"))
		if binary {
			l = catN(catN(strN("unhex("), l), strN(")"))
		}
		return l
	})
}

type colSpec struct {
	name   string
	kind   string
	mt     uint64
	binary bool
}

func internalCol(n string) bool { return n == "DB_ROW_ID" || n == "DB_TRX_ID" || n == "DB_ROLL_PTR" }

// colAgg builds a column with the given value.
func (c *Check) colAgg(s colSpec, val *Node) *Agg {
	ft := c.con(pUtils, "DATA_VARCHAR", 1)
	if internalCol(s.name) {
		ft = c.con(pUtils, "DATA_MISSING", 0)
	} else if s.mt == mtBit {
		ft = c.con(pUtils, "DATA_FIXBINARY", 3)
	} else if s.mt == mtLong || s.mt == mtTiny || s.mt == mtShort || s.mt == mtInt24 || s.mt == mtLonglong {
		ft = c.con(pUtils, "DATA_INT", 6)
	} else if s.binary {
		ft = c.con(pUtils, "DATA_BLOB", 5)
	}
	n, hidden := uint64(300), internalCol(s.name)
	switch {
	case s.name == "DB_ROLL_PTR":
		n = 7
	case hidden:
		n = 6
	case s.mt == mtBit || s.mt == mtLonglong:
		n = 8
	case s.mt == mtLong:
		n = 4
	case s.mt >= 249 && s.mt <= 252:
		n = 10
	}
	return obj(c.typ(pIB, "Columns"), map[string]Value{
		"FieldName": strN(s.name), "FieldType": constN(ft), "MySQLType": constN(s.mt), "FieldValue": val, "IsBinary": boolN(s.binary),
		"FieldLen": constN(n), "IsNUll": boolN(!hidden && s.name != "id"), "IsUnsigned": boolN(s.kind == "uint64" && !hidden), "TableID": constN(12)})
}

// tableRun analyses the reading of a table file of one page; setup may replace
// functions and fill the page.
type tablePage struct {
	c    *Check
	m    *Mem
	x    *device
	d    *devices
	recv *Node
	cols []Value
	db   string
	tab  string
}

func (c *Check) newTablePage(cols []Value, nullCount int) *tablePage {
	m := newMem()
	tp := &tablePage{c: c, m: m, cols: cols, db: "shop", tab: "orders"}
	tp.x = &device{name: "orders.ibd", total: pageSize, errAt: -1}
	tp.d = newDevices(c, m, tp.x)
	// a clustered leaf page
	tp.x.put(m, 4, 4, 3)
	tp.x.put(m, 24, 2, 17855)
	tp.x.put(m, 64, 2, 0)
	tp.x.put(m, 56, 8, 0)
	tp.x.put(m, 66, 8, 77)
	tp.x.put(m, 38+16, 2, 5)
	return tp
}

// receiver builds the parser with a dictionary of one table, and two others.
func (tp *tablePage) receiver(nullCount int) {
	c := tp.c
	pt := c.typ(pIB, "Parse")
	tt := c.typ(pIB, "Tables")
	ct := c.typ(pIB, "Columns")
	other := mkArr(tp.m, "columns of other tables", ct, c.colAgg(colSpec{"zz", "text", mtVarchar, false}, nNil))
	tables := mkMap(tp.m, "tables", fieldType(pt, "TableMap"),
		entry{constN(11), obj(tt, map[string]Value{"DBName": strN("shop2"), "TableName": strN("orders"), "Columns": other})},
		entry{constN(12), obj(tt, map[string]Value{"DBName": strN(tp.db), "TableName": strN(tp.tab),
			"Columns": mkArr(tp.m, "columns", ct, tp.cols...), "NullCount": constN(uint64(nullCount))})},
		entry{constN(13), obj(tt, map[string]Value{"DBName": strN(tp.db), "TableName": strN("orders2"), "Columns": other})})
	cell := newAlloc("parser")
	noteCell(cell, pt)
	tp.m.set(cell, zeroVal(pt))
	tp.recv = leafN(cell)
	setField(tp.m, tp.recv, pt, "TableMap", tables)
}

// run analyses ParseDataPage.
func (tp *tablePage) run(isRecovery *Node, opt func(*Interp)) *run {
	c := tp.c
	f := c.fn(pIB, "ParseDataPage")
	if sigString(f) != "(string,string,string,bool)(error)" {
		panic(undecided("ParseDataPage takes other parameters than expected"))
	}
	c.curFn = f
	r := c.exec(f, []Value{tp.recv, strN(tp.x.name), strN(tp.db), strN(tp.tab), isRecovery}, tp.m, func(in *Interp) {
		tp.d.install(in)
		c.escapePrim(in)
		in.unrollMax = 4000
		if opt != nil {
			opt(in)
		}
	})
	c.curFn = f
	return r
}

// rowsPrim replaces the row reader by a list of rows.
func (tp *tablePage) rowsPrim(rows [][]Value) func(*Interp) {
	c := tp.c
	pp := c.fn(pIB, "parsePage")
	ct := c.typ(pIB, "Columns")
	return func(in *Interp) {
		in.prims[fnName(pp)] = func(p *PrimCall) Value {
			if sig := types.TypeString(p.Sig.Results().At(0).Type(), func(*types.Package) string { return "" }); sig != "[][]Columns" || p.Sig.Results().Len() != 1 {
				panic(undecided("the row reader returns other values than expected"))
			}
			p.St.mem = p.St.mem.own()
			var rs []Value
			for i, row := range rows {
				rs = append(rs, mkArr(p.St.mem, fmt.Sprintf("row %d", i), ct, row...))
			}
			if len(rs) == 0 {
				return nNil
			}
			return mkArr(p.St.mem, "rows", types.NewSlice(ct), rs...)
		}
	}
}

func (c *Check) replaceShape(rule, name string, rows [][]colSpec) {
	c.try(rule, name, func() {
		kinds := colVals()
		tp := c.newTablePage(nil, 0)
		var vals [][]Value
		want := strN("")
		for i, row := range rows {
			var vs []Value
			line := strN("replace into `shop`.`orders` values (")
			first := true
			for j, s := range row {
				v := nNil
				switch {
				case strings.HasPrefix(s.kind, "="):
					v = ifaceOf(tString, strN(s.kind[1:]))
				case strings.HasPrefix(s.kind, "#"):
					n, _ := strconv.ParseUint(s.kind[1:], 10, 64)
					v = ifaceOf(tU64, constN(n))
				default:
					v = kinds[s.kind](fmt.Sprintf("row%d.%d", i, j))
				}
				vs = append(vs, c.colAgg(s, v))
				if internalCol(s.name) {
					continue
				}
				if !first {
					line = catN(line, strN(","))
				}
				first = false
				line = catN(line, litN(tp.m, v, s.mt, s.binary))
			}
			want = catN(want, catN(line, strN(");\n")))
			vals = append(vals, vs)
		}
		if len(rows) > 0 {
			tp.cols = vals[0]
		}
		tp.receiver(0)
		r := tp.run(nFalse, tp.rowsPrim(vals))
		c.eq(rule, name, c.L.where(c.fn(pIB, "makeReplaceIntoStatement"), nil), r.output(), want, nil)
	})
}

func checkC14(c *Check) {
	c.rule("literal", "a column value is written as the literal of its kind and type")
	c.rule("columns", "one literal per user column in column order, none for the hidden columns")
	c.rule("rows", "one statement per row, one line each, in row order")
	types_ := []uint64{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 245, 246, 247, 248, 249, 250, 251, 252, 253, 254, 255}
	for _, mt := range types_ {
		for _, k := range sortedFuncs(colVals()) {
			if mt == mtBit && (k == "text" || k == "float") {
				continue
			}
			c.replaceShape("literal", fmt.Sprintf("MySQL type %d, value %s", mt, k), [][]colSpec{{{"a", k, mt, false}}})
		}
		if mt != mtBit {
			for _, k := range []string{"NULL", "text"} {
				c.replaceShape("literal", fmt.Sprintf("MySQL type %d, binary, value %s", mt, k), [][]colSpec{{{"a", k, mt, true}}})
			}
		}
	}
	V := func(n string) colSpec { return colSpec{n, "text", mtVarchar, false} }
	I := func(n string) colSpec { return colSpec{n, "uint64", mtLong, false} }
	N := func(n string) colSpec { return colSpec{n, "NULL", mtVarchar, false} }
	B := func(n string) colSpec { return colSpec{n, "uint64", mtBit, false} }
	X := func(n string) colSpec { return colSpec{n, "text", 252, true} }
	shapes := map[string][]colSpec{
		"key, transaction columns, three columns": {I("id"), I("DB_TRX_ID"), I("DB_ROLL_PTR"), V("a"), N("b"), X("c")},
		"row id in front":                         {I("DB_ROW_ID"), I("DB_TRX_ID"), I("DB_ROLL_PTR"), V("a"), B("b")},
		"two key columns":                         {I("k1"), V("k2"), I("DB_TRX_ID"), I("DB_ROLL_PTR"), N("a")},
		"NULL first":                              {N("a"), V("b")},
		"NULL only":                               {N("a"), N("b")},
		"BIT between":                             {V("a"), B("b"), V("c")},
		"binary between":                          {V("a"), X("b"), V("c"), B("d")},
		"similar names":                           {I("id"), I("DB_TRX_ID"), I("DB_ROLL_PTR"), V("DB_TRX_ID2"), V("DB_ROW"), V("MY_DB_ROLL_PTR"), V("ROW_ID")},
		"empty hidden columns":                    {I("id"), N("DB_TRX_ID"), N("DB_ROLL_PTR"), V("a")},
	}
	for _, n := range sortedShape(shapes) {
		c.replaceShape("columns", n, [][]colSpec{shapes[n]})
	}
	c.replaceShape("rows", "no row", nil)
	c.replaceShape("rows", "two rows", [][]colSpec{{I("id"), V("a")}, {I("id"), N("a")}})
	c.replaceShape("rows", "three rows", [][]colSpec{{I("id"), X("a")}, {I("id"), N("a")}, {I("id"), X("a")}})
	// rows of given values
	row := func(id string, trx int, vals ...string) []colSpec {
		r := []colSpec{{"id", id, mtLong, false}, {"DB_TRX_ID", fmt.Sprintf("#%d", trx), 0, false}, {"DB_ROLL_PTR", fmt.Sprintf("#%d", trx*7), 0, false}}
		for i, v := range vals {
			mt := uint64(mtVarchar)
			if strings.HasPrefix(v, "#") {
				mt = mtLong
			}
			r = append(r, colSpec{fmt.Sprintf("c%d", i), v, mt, false})
		}
		return r
	}
	given := []struct {
		name string
		rows [][]colSpec
	}{
		{"the same row twice", [][]colSpec{row("#1", 5, "=a"), row("#1", 5, "=a"), row("#2", 5, "=a")}},
		{"the same user columns twice", [][]colSpec{row("#1", 5, "=a"), row("#1", 6, "=a"), row("#2", 5, "=a")}},
		{"a row again after another", [][]colSpec{row("#1", 5, "=a"), row("#2", 5, "=b"), row("#1", 5, "=a")}},
		{"the same key twice", [][]colSpec{row("#1", 5, "=a"), row("#1", 5, "=b"), row("#1", 5, "=c")}},
		{"nothing but NULL", [][]colSpec{row("NULL", 5, "NULL", "NULL", "NULL", "NULL"), row("#1", 5, "NULL", "NULL", "NULL", "NULL"), row("#2", 5, "=x", "NULL", "NULL", "NULL")}},
		{"empty texts", [][]colSpec{row("=", 5, "=", "=", "="), row("=", 5, "=", "=", "="), row("=x", 0, "=")}},
		{"zeros", [][]colSpec{row("#0", 0, "#0", "#0"), row("#0", 0, "#0", "#0"), row("#1", 0, "=0")}},
		{"texts that look like others", [][]colSpec{row("=NULL", 5, "=null", "=unhex('00')", "='", "=,", "=);"), row("=DB_ROW_ID", 1, "=b'1'", "= ", "=\n", "=-- ", "=\\N")}},
		{"falling keys", [][]colSpec{row("#3", 5, "=a"), row("#2", 4, "=b"), row("#1", 3, "=c")}},
		{"large numbers", [][]colSpec{row("#18446744073709551615", 5, "#9223372036854775808"), row("#4294967295", 5, "#4294967296")}},
	}
	for _, g := range given {
		c.replaceShape("rows", g.name, g.rows)
	}
	for _, n := range []int{7, 64, 300} {
		var rows [][]colSpec
		for i := 0; i < n; i++ {
			rows = append(rows, row(fmt.Sprintf("#%d", i), 5, "=a", "NULL"))
		}
		c.replaceShape("rows", fmt.Sprintf("%d rows", n), rows)
	}
	for _, n := range []int{17, 65, 200, 1017} {
		var vals []string
		for i := 0; i < n; i++ {
			vals = append(vals, []string{"=v", "NULL", "#8"}[i%3])
		}
		c.replaceShape("columns", fmt.Sprintf("%d columns", n), [][]colSpec{row("#1", 5, vals...)})
	}
	for _, n := range []int{255, 256, 300, 4096, 65536} {
		c.replaceShape("literal", fmt.Sprintf("a text of %d bytes", n), [][]colSpec{row("#1", 5, "="+strings.Repeat("x", n), "=y")})
		c.replaceShape("literal", fmt.Sprintf("a binary text of %d bytes", n), [][]colSpec{{{"a", "=" + strings.Repeat("x", n), 252, true}, {"b", "=z", mtVarchar, false}}})
	}
	c.replaceShape("rows", "NULL before a value", [][]colSpec{{N("id"), N("a")}, {I("id"), V("a")}})
}

func sortedFuncs(m map[string]func(string) *Node) []string {
	x := map[string]int{}
	for k := range m {
		x[k] = 0
	}
	return sortedKeys(x)
}

func sortedShape(m map[string][]colSpec) []string {
	x := map[string]int{}
	for k := range m {
		x[k] = 0
	}
	return sortedKeys(x)
}
