package main

// C15: escaping.

import (
	"fmt"
	"go/constant"
	"sort"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

func init() {
	prop("C15", techVal,
		"The escaping function is evaluated abstractly on constant texts: every single byte, every sequence of up to three (thorough: four) representatives of the character classes the function can tell apart (the seven special characters, one to four byte characters, characters whose code ends in a special character's byte, invalid bytes, and every constant the function compares with), and texts around every length constant of the function; the result is compared with the MySQL escaping of the same bytes. The statements are evaluated with such values to see that every quoted literal passes through it.",
		checkC15, "characters that the function does not name behave like the representative of their class")
}

// compared are the integer constants that appear in a function and in what it calls.
func (c *Check) compared(f *ssa.Function) []int64 {
	seen := map[int64]bool{}
	for g := range c.L.reach([]*ssa.Function{f}, nil).funcs {
		if !c.L.isRepo(g) || (g.Pkg != nil && g.Pkg != f.Pkg) {
			continue
		}
		for _, b := range g.Blocks {
			for _, ins := range b.Instrs {
				for _, op := range ins.Operands(nil) {
					if k, ok := (*op).(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Int {
						if v, exact := constant.Int64Val(k.Value); exact {
							seen[v] = true
						}
					}
				}
			}
		}
	}
	var out []int64
	for v := range seen {
		out = append(out, v)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

// comparedTexts are the text constants that appear in a function, in what it
// calls inside its package, and in the package variables these read.
func (c *Check) comparedTexts(f *ssa.Function) []string {
	seen := map[string]bool{}
	add := func(v ssa.Value) {
		if k, ok := v.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String {
			seen[constant.StringVal(k.Value)] = true
		}
	}
	globals := map[*ssa.Global]bool{}
	scan := func(g *ssa.Function, all bool) {
		for _, b := range g.Blocks {
			for _, ins := range b.Instrs {
				use := all
				for _, op := range ins.Operands(nil) {
					if gl, ok := (*op).(*ssa.Global); ok {
						if all {
							globals[gl] = true
						} else if globals[gl] {
							use = true
						}
					}
				}
				if use {
					for _, op := range ins.Operands(nil) {
						add(*op)
					}
				}
			}
		}
	}
	for g := range c.L.reach([]*ssa.Function{f}, nil).funcs {
		if c.L.isRepo(g) && (g.Pkg == nil || g.Pkg == f.Pkg) {
			scan(g, true)
		}
	}
	if in := f.Pkg.Func("init"); in != nil && len(globals) > 0 {
		// tables are filled in the package's initialiser
		scan(in, true)
	}
	delete(seen, "")
	var out []string
	for s := range seen {
		if len(s) <= 200 {
			out = append(out, s)
		}
	}
	sort.Strings(out)
	return out
}

func (c *Check) escapeCase(f *ssa.Function, rule, name string, texts []string) {
	c.try(rule, name, func() {
		bad := ""
		n := 0
		for _, s := range texts {
			tickCount = 0
			r := c.exec(f, []Value{strN(s)}, nil, func(in *Interp) { in.unrollMax = len(s) + 40 })
			got, ok := strConst(asNode(r.res[0]))
			if r.st.g != nTrue || !ok {
				panic(undecided(fmt.Sprintf("the escaped form of %.60q is not determined: %.200s", s, asNode(r.res[0]))))
			}
			n++
			if want := escConst(s); got != want && bad == "" {
				bad = fmt.Sprintf("%.80q is escaped as %.120q, expected %.120q", s, got, want)
			}
		}
		c.facts["texts evaluated"] += n
		c.ob(rule, name, c.L.where(f, nil), bad == "", bad)
	})
}

func checkC15(c *Check) {
	c.rule("byte", "every byte on its own is escaped as MySQL requires or kept")
	c.rule("sequence", "the escaped form of a text is the concatenation of the escaped forms of its bytes")
	c.rule("length", "texts of any length are escaped to their end")
	c.rule("use", "every quoted text literal is the escaped form of its value")
	f := c.fn(pUtils, "EscapeValue")
	if sigString(f) != "(string)(string)" {
		c.open("byte", "EscapeValue", c.L.where(f, nil), "other parameters than expected")
		return
	}
	for hi := 0; hi < 256; hi += 16 {
		var texts []string
		for b := hi; b < hi+16; b++ {
			texts = append(texts, string([]byte{byte(b)}), "x"+string([]byte{byte(b)})+"y", "é"+string([]byte{byte(b)})+"é")
		}
		c.escapeCase(f, "byte", fmt.Sprintf("bytes 0x%02x to 0x%02x", hi, hi+15), texts)
	}
	c.escapeCase(f, "byte", "the empty text", []string{""})
	cls := []string{"\x00", "\n", "\r", "\\", "'", "\"", "\x1a", "a", "é", "\xff"}
	more := []string{" ", "%", "_", "`", "\t", "\b", "\x7f", "Z", "0", "n", "中", "😀", "\ufffd", "\ufeff", "\x80", "\xc3", "\xe4\xb8", "\u0085", "\u2028"}
	for b := range escTable {
		more = append(more, string(rune(0x100+int(b))), string(rune(0x4e00+int(b))), string(rune(0x10000+int(b))))
	}
	sort.Strings(more)
	have := map[string]bool{}
	for _, s := range append(append([]string{}, cls...), more...) {
		have[s] = true
	}
	var lens []int
	for _, k := range c.compared(f) {
		if k >= 0 && k <= utf8.MaxRune {
			s := string(rune(k))
			if k < 256 {
				s = string([]byte{byte(k)})
			}
			if !have[s] {
				have[s] = true
				more = append(more, s)
			}
		}
		if k > 1 && k <= 4096 {
			lens = append(lens, int(k))
		}
	}
	all := append(append([]string{}, cls...), more...)
	for _, a := range all {
		var texts []string
		for _, b := range all {
			texts = append(texts, a+b)
		}
		c.escapeCase(f, "sequence", fmt.Sprintf("two characters, %q first", a), texts)
	}
	third := cls
	for _, a := range cls {
		var texts []string
		for _, b := range cls {
			for _, d := range third {
				texts = append(texts, a+b+d)
				if c.Tier == "thorough" {
					for _, e := range cls {
						texts = append(texts, a+b+d+e)
					}
				}
			}
		}
		c.escapeCase(f, "sequence", fmt.Sprintf("three characters, %q first", a), texts)
	}
	// lengths
	pad := func(n int, unit string) string {
		s := ""
		for len(s) < n {
			s += unit
		}
		return s[:n]
	}
	var texts []string
	for _, n := range append(lens, 7, 8, 16, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 511, 513, 767, 769, 1000, 1023, 1025) {
		for d := -1; d <= 1; d++ {
			if n+d < 1 {
				continue
			}
			texts = append(texts, pad(n+d-1, "abcdefg")+"'", "\""+pad(n+d-1, "x"))
		}
		if n <= 300 {
			texts = append(texts, pad(n, "a'é\\"), pad(n, "'"))
		}
	}
	c.escapeCase(f, "length", "texts around the lengths the code names", texts)
	// texts that the code itself, or a reader of the statements, could take for something else
	texts = nil
	whole := append(c.comparedTexts(f), "NULL", "null", "\\N", "0", "-1", "1.5", "true", "''", "\"\"", "\\'", "--", "/*", "#", ";",
		"0000-00-00", "0000-00-00 00:00:00", "0001-01-01", "0001-01-01T00:00:00Z", "1970-01-01T00:00:00Z", "<nil>", "nil", "%!s(MISSING)", "%s", "%", "0x00", "{}", "[]", "\\0", "\\n", "\\\\")
	for _, s := range whole {
		texts = append(texts, s, s+s, " "+s, s+" ", "'"+s, s+"'", s+"a", "a"+s)
		for i := 1; i < len(s) && i <= 40; i++ {
			texts = append(texts, s[:i], s[i:])
		}
	}
	for i := 0; i < len(texts); i += 400 {
		c.escapeCase(f, "sequence", fmt.Sprintf("whole texts that the code names and common ones, part %d", i/400+1), texts[i:min(i+400, len(texts))])
	}
	// use
	value := "a'b\\c\"d\x00e\nf\rg\x1ah é\xff"
	c.try("use", "REPLACE", func() {
		tp := c.newTablePage(nil, 0)
		cols := []Value{
			c.colAgg(colSpec{"a", "text", mtVarchar, false}, ifaceOf(tString, strN(value))),
			c.colAgg(colSpec{"b", "text", 254, false}, ifaceOf(tString, strN("'"))),
			c.colAgg(colSpec{"c", "text", 252, false}, ifaceOf(tString, strN("\\")))}
		tp.cols = cols
		tp.receiver(0)
		rows := tp.rowsPrim([][]Value{cols})
		fp := c.fn(pIB, "ParseDataPage")
		r := c.exec(fp, []Value{tp.recv, strN(tp.x.name), strN(tp.db), strN(tp.tab), nFalse}, tp.m, func(in *Interp) {
			tp.d.install(in)
			rows(in)
		})
		c.eq("use", "text literals of a REPLACE statement", c.L.where(fp, nil), r.output(),
			strN("replace into `shop`.`orders` values ('"+escConst(value)+"','\\'','\\\\');\n"), nil)
	})
	c.try("use", "UPDATE", func() {
		m := newMem()
		fm := c.fn(pRedo, "makeSQL")
		args, _ := c.makeSQLArgs(m, fm, []keySpec{{colSpec{"k", "text", mtVarchar, false}, ifaceOf(tString, strN(value))}, {colSpec{"k2", "text", mtVarchar, false}, ifaceOf(tString, strN("\""))}},
			[]keySpec{{colSpec{"s", "text", mtVarchar, false}, ifaceOf(tString, strN(value))}, {colSpec{"t", "text", 252, false}, ifaceOf(tString, strN("\x00"))}})
		r := c.exec(fm, args, m, nil)
		c.eq("use", "text literals of an UPDATE statement", c.L.where(fm, nil), r.output(),
			strN("update `shop`.`orders` set `s`='"+escConst(value)+"', `t`='\\0' where `k`='"+escConst(value)+"' and `k2`='\\\"';\n"), nil)
	})
}
