package main

// Library functions on strings, evaluated when their operands are constant.

import (
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// constStrings are the constant elements of a []string argument.
func constStrings(m *Mem, n *Node) ([]string, bool) {
	ns, ok := varargs(m, n)
	if !ok {
		return nil, false
	}
	var out []string
	for _, x := range ns {
		s, ok := strConst(x)
		if !ok {
			return nil, false
		}
		out = append(out, s)
	}
	return out, true
}

func init() {
	M := models
	// strfn registers a function of constant arguments: strings and integers.
	strfn := func(name string, f func(s []string, i []int64) interface{}) {
		M[name] = func(c *PrimCall) Value {
			var ss []string
			var is []int64
			var ns []*Node
			all := true
			for i, a := range c.Args {
				n := asNode(a)
				ns = append(ns, n)
				pt := c.Sig.Params().At(i).Type()
				if isByteSlice(pt) {
					n = c.Fr.bytesToString(n, c.St)
				}
				if s, ok := strConst(n); ok {
					ss = append(ss, s)
				} else if k, ok := isConstN(n); ok {
					is = append(is, int64(k))
				} else {
					all = false
				}
			}
			if !all {
				return pure(c.Name, c.Sig, c.In, ns...)
			}
			conv := func(r interface{}) Value {
				switch r := r.(type) {
				case string:
					if isByteSlice(c.Sig.Results().At(0).Type()) {
						return c.Fr.stringToBytes(strN(r), c.St, "")
					}
					return strN(r)
				case bool:
					return boolN(r)
				case int:
					return constN(uint64(int64(r)))
				}
				panic(undecided(name))
			}
			r := f(ss, is)
			if rs, ok := r.([]interface{}); ok {
				a := &Agg{}
				for _, x := range rs {
					a.F = append(a.F, conv(x))
				}
				return a
			}
			return conv(r)
		}
	}
	for _, p := range []string{"strings.", "bytes."} {
		strfn(p+"Index", func(s []string, i []int64) interface{} { return strings.Index(s[0], s[1]) })
		strfn(p+"LastIndex", func(s []string, i []int64) interface{} { return strings.LastIndex(s[0], s[1]) })
		strfn(p+"IndexAny", func(s []string, i []int64) interface{} { return strings.IndexAny(s[0], s[1]) })
		strfn(p+"IndexRune", func(s []string, i []int64) interface{} { return strings.IndexRune(s[0], rune(i[0])) })
		strfn(p+"ContainsAny", func(s []string, i []int64) interface{} { return strings.ContainsAny(s[0], s[1]) })
		strfn(p+"ContainsRune", func(s []string, i []int64) interface{} { return strings.ContainsRune(s[0], rune(i[0])) })
		strfn(p+"Count", func(s []string, i []int64) interface{} { return strings.Count(s[0], s[1]) })
		strfn(p+"ReplaceAll", func(s []string, i []int64) interface{} { return strings.ReplaceAll(s[0], s[1], s[2]) })
		strfn(p+"Replace", func(s []string, i []int64) interface{} { return strings.Replace(s[0], s[1], s[2], int(i[0])) })
		strfn(p+"ToValidUTF8", func(s []string, i []int64) interface{} { return strings.ToValidUTF8(s[0], s[1]) })
	}
	strfn("strings.IndexByte", func(s []string, i []int64) interface{} { return strings.IndexByte(s[0], byte(i[0])) })
	strfn("strings.Repeat", func(s []string, i []int64) interface{} {
		if i[0] < 0 || i[0]*int64(len(s[0])) > 1<<20 {
			panic(undecided("strings.Repeat"))
		}
		return strings.Repeat(s[0], int(i[0]))
	})
	dec := func(s []string, i []int64) interface{} {
		r, n := utf8.DecodeRuneInString(s[0])
		return []interface{}{int(r), n}
	}
	strfn("unicode/utf8.DecodeRuneInString", dec)
	strfn("unicode/utf8.DecodeRune", dec)
	strfn("unicode/utf8.ValidString", func(s []string, i []int64) interface{} { return utf8.ValidString(s[0]) })
	strfn("unicode/utf8.Valid", func(s []string, i []int64) interface{} { return utf8.ValidString(s[0]) })
	strfn("unicode/utf8.RuneCountInString", func(s []string, i []int64) interface{} { return utf8.RuneCountInString(s[0]) })
	strfn("unicode/utf8.RuneLen", func(s []string, i []int64) interface{} { return utf8.RuneLen(rune(i[0])) })

	// strings.Replacer with a constant table
	M["strings.NewReplacer"] = func(c *PrimCall) Value {
		ss, ok := constStrings(c.St.mem, asNode(c.Args[0]))
		if !ok {
			panic(undecided("strings.NewReplacer with a table that is not constant"))
		}
		var ts []*Term
		for _, s := range ss {
			ts = append(ts, mkStr(s))
		}
		return leafN(mkOp("replacer", 0, ts...))
	}
	M["(*strings.Replacer).Replace"] = func(c *PrimCall) Value {
		return apply2(asNode(c.Args[0]), asNode(c.Args[1]), func(r, s *Term) *Node {
			if r.k == KOp && r.s == "replacer" && s.k == KStr && len(r.args)%2 == 0 {
				var tab []string
				for _, a := range r.args {
					tab = append(tab, a.s)
				}
				return strN(strings.NewReplacer(tab...).Replace(s.s))
			}
			return leafN(mkOp("call:Replace", 0, r, s))
		})
	}
	M["strings.Map"] = func(c *PrimCall) Value {
		f, s := asNode(c.Args[0]), asNode(c.Args[1])
		if f.leaf == nil || f.leaf.k != KFunc || s.leaf == nil || s.leaf.k != KStr {
			panic(undecided("strings.Map"))
		}
		fn := f.leaf.aux.(*ssa.Function)
		out := ""
		for i, r := range s.leaf.s {
			_ = i
			rs := c.In.Call(fn, []Value{constN(uint64(int64(r)))}, c.In.closures[f.leaf], c.St, c.Fr.callPath(c.Instr), c.Fr)
			v, ok := isConstN(asNode(rs[0]))
			if !ok {
				panic(undecided("strings.Map"))
			}
			if int32(v) >= 0 {
				out += string(rune(int32(v)))
			}
		}
		return strN(out)
	}
}

func init() {
	M := models
	text := func(c *PrimCall, i int) *Node {
		n := asNode(c.Args[i])
		if isByteSlice(c.Sig.Params().At(i).Type()) {
			n = c.Fr.bytesToString(n, c.St)
		}
		return n
	}
	all := func(c *PrimCall) Value {
		var ns []*Node
		for _, a := range c.Args {
			ns = append(ns, asNode(a))
		}
		return pure(c.Name, c.Sig, c.In, ns...)
	}
	M["bytes.Equal"] = func(c *PrimCall) Value { return eqN(text(c, 0), text(c, 1)) }
	// parts of a byte slice with known content
	sub := func(name string, f func(a []string) string, left bool) {
		M[name] = func(c *PrimCall) Value {
			var ss []string
			for i := range c.Args {
				s, ok := strConst(text(c, i))
				if !ok {
					return all(c)
				}
				ss = append(ss, s)
			}
			n := asNode(c.Args[0])
			if n.leaf == nil || n.leaf.k != KSlice {
				return all(c)
			}
			r := f(ss)
			if r == "" {
				return nNil
			}
			off := uint64(0)
			if left {
				off = uint64(len(ss[0]) - len(r))
			}
			a := n.leaf.args
			return leafN(mkSlice(a[0], addT(a[1], mkConst(off)), mkConst(uint64(len(r))), subT(sliceCap(n.leaf), mkConst(off))))
		}
	}
	sub("bytes.TrimRight", func(a []string) string { return strings.TrimRight(a[0], a[1]) }, false)
	sub("bytes.TrimSuffix", func(a []string) string { return strings.TrimSuffix(a[0], a[1]) }, false)
	sub("bytes.TrimLeft", func(a []string) string { return strings.TrimLeft(a[0], a[1]) }, true)
	sub("bytes.TrimPrefix", func(a []string) string { return strings.TrimPrefix(a[0], a[1]) }, true)
	for _, p := range []string{"bytes.HasPrefix", "bytes.HasSuffix", "bytes.Contains", "bytes.Compare", "strings.Compare"} {
		p := p
		M[p] = func(c *PrimCall) Value {
			a, ok := strConst(text(c, 0))
			b, ok2 := strConst(text(c, 1))
			if !ok || !ok2 {
				return all(c)
			}
			switch p {
			case "bytes.HasPrefix":
				return boolN(strings.HasPrefix(a, b))
			case "bytes.HasSuffix":
				return boolN(strings.HasSuffix(a, b))
			case "bytes.Contains":
				return boolN(strings.Contains(a, b))
			}
			return constN(uint64(int64(strings.Compare(a, b))))
		}
	}
}
