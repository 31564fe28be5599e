package main

// C16: the UPDATE statements.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	prop("C16", techVal,
		"The function that prints an update is analysed with every small shape of changed columns and key columns, whose values are unknown (NULL, text, integers, floats, bit strings, hexadecimal text) for every MySQL type; the text it writes to standard output is compared, as a term, with the UPDATE statement of the change.",
		checkC16, "up to three changed columns and three key columns; the loops treat them alike")
}

type keySpec struct {
	spec colSpec
	val  *Node
}

// makeSQLArgs builds the arguments of the function that prints an update.
func (c *Check) makeSQLArgs(m *Mem, f *ssa.Function, keys, cols []keySpec) ([]Value, *Node) {
	ct, ft, tt := c.typ(pIB, "Columns"), c.typ(pIB, "Fields"), c.typ(pIB, "Tables")
	var ks, cs []Value
	for i, k := range keys {
		ks = append(ks, heap(m, fmt.Sprintf("key %d", i), ft, obj(ft, map[string]Value{
			"ColumnName": strN(k.spec.name), "ColumnValue": k.val, "MySQLType": constN(k.spec.mt), "IsBinary": boolN(k.spec.binary)})))
	}
	for i, k := range cols {
		cs = append(cs, heap(m, fmt.Sprintf("column %d", i), ct, c.colAgg(k.spec, k.val)))
	}
	table := obj(tt, map[string]Value{"DBName": strN("shop"), "TableName": strN("orders")})
	want := map[string]Value{
		"Tables":     table,
		"[]*Fields":  mkArr(m, "keys", types.NewPointer(ft), ks...),
		"[]*Columns": mkArr(m, "changes", types.NewPointer(ct), cs...),
	}
	if len(ks) == 0 {
		want["[]*Fields"] = nNil
	}
	if len(cs) == 0 {
		want["[]*Columns"] = nNil
	}
	want["*Tables"] = heap(m, "table", tt, table)
	var args []Value
	used := map[string]bool{}
	for _, p := range f.Params {
		n := types.TypeString(p.Type(), func(*types.Package) string { return "" })
		if n == "*Parse" {
			cell := newAlloc("parser")
			pt := c.typ(pRedo, "Parse")
			noteCell(cell, pt)
			m.set(cell, zeroVal(pt))
			args = append(args, leafN(cell))
			continue
		}
		v, ok := want[n]
		if !ok || used[n] {
			panic(undecided("the function that prints an update takes other parameters than expected"))
		}
		used[n] = true
		args = append(args, v)
	}
	return args, nil
}

// updateText is the expected statement.
func updateText(m *Mem, keys, cols []keySpec) *Node {
	if len(keys) == 0 || len(cols) == 0 {
		return strN("")
	}
	t := strN("update `shop`.`orders` set ")
	for i, k := range cols {
		if i > 0 {
			t = catN(t, strN(", "))
		}
		t = catN(catN(t, strN("`"+k.spec.name+"`=")), litN(m, k.val, k.spec.mt, k.spec.binary))
	}
	t = catN(t, strN(" where "))
	for i, k := range keys {
		if i > 0 {
			t = catN(t, strN(" and "))
		}
		t = catN(catN(t, strN("`"+k.spec.name+"`=")), litN(m, k.val, k.spec.mt, k.spec.binary))
	}
	return catN(t, strN(";\n"))
}

func (c *Check) updateShape(rule, name string, keys, cols []colSpec) {
	c.try(rule, name, func() {
		f := c.fn(pRedo, "makeSQL")
		kinds := colVals()
		m := newMem()
		mk := func(w string, ss []colSpec) (out []keySpec) {
			for i, s := range ss {
				out = append(out, keySpec{s, kinds[s.kind](fmt.Sprintf("%s%d", w, i))})
			}
			return
		}
		ks, cs := mk("key", keys), mk("change", cols)
		args, _ := c.makeSQLArgs(m, f, ks, cs)
		r := c.exec(f, args, m, func(in *Interp) { c.escapePrim(in) })
		c.eq(rule, name, c.L.where(f, nil), r.output(), updateText(m, ks, cs), nil)
	})
}

func checkC16(c *Check) {
	c.rule("literal", "a value is written as the literal of its kind and type")
	c.rule("lists", "every changed column and every key column appears once, in order, separated by commas and by and")
	c.rule("empty", "without a key or a changed column nothing is printed")
	I := func(n string) colSpec { return colSpec{n, "uint64", mtLong, false} }
	V := func(n string) colSpec { return colSpec{n, "text", mtVarchar, false} }
	N := func(n string) colSpec { return colSpec{n, "NULL", mtVarchar, false} }
	B := func(n string) colSpec { return colSpec{n, "uint64", mtBit, false} }
	X := func(n string) colSpec { return colSpec{n, "text", 252, true} }
	types_ := []uint64{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 245, 246, 247, 248, 249, 250, 251, 252, 253, 254, 255}
	for _, mt := range types_ {
		for _, k := range sortedFuncs(colVals()) {
			if mt == mtBit && (k == "text" || k == "float") {
				continue
			}
			s := colSpec{"a", k, mt, false}
			c.updateShape("literal", fmt.Sprintf("changed column, MySQL type %d, value %s", mt, k), []colSpec{I("id")}, []colSpec{s})
			if k != "NULL" {
				c.updateShape("literal", fmt.Sprintf("key column, MySQL type %d, value %s", mt, k), []colSpec{s}, []colSpec{V("b")})
			}
		}
		if mt != mtBit {
			for _, k := range []string{"NULL", "text"} {
				c.updateShape("literal", fmt.Sprintf("binary changed column, MySQL type %d, value %s", mt, k), []colSpec{I("id")}, []colSpec{{"a", k, mt, true}})
			}
			c.updateShape("literal", fmt.Sprintf("binary key column, MySQL type %d", mt), []colSpec{{"a", "text", mt, true}}, []colSpec{I("b")})
		}
	}
	lists := [][]colSpec{{I("a")}, {V("a"), I("b")}, {N("a"), V("b")}, {V("a"), N("b")}, {B("a"), X("b"), V("c")}, {N("a"), N("b"), N("c")}, {X("a"), V("b"), B("c")}}
	show := func(l []colSpec) string {
		var s []string
		for _, x := range l {
			s = append(s, x.kind+map[bool]string{true: " (bit)"}[x.mt == mtBit]+map[bool]string{true: " (binary)"}[x.binary])
		}
		return strings.Join(s, ", ")
	}
	for _, ks := range lists {
		for _, cs := range lists {
			c.updateShape("lists", "keys "+show(ks)+"; changes "+show(cs), ks, cs)
		}
	}
	// long lists
	for _, n := range []int{8, 9, 10, 11, 12, 16, 17, 33, 65, 130, 257} {
		var l []colSpec
		for i := 0; i < n; i++ {
			l = append(l, []colSpec{I(""), V(""), X("")}[i%3])
			l[i].name = fmt.Sprintf("c%d", i)
		}
		c.updateShape("lists", fmt.Sprintf("%d changes", n), []colSpec{I("id")}, l)
		if n <= 17 {
			c.updateShape("lists", fmt.Sprintf("%d keys", n), l, []colSpec{V("a")})
		}
	}
	c.updateShape("empty", "no key", nil, []colSpec{V("a")})
	c.updateShape("empty", "no change", []colSpec{I("id")}, nil)
	c.updateShape("empty", "neither", nil, nil)
}
