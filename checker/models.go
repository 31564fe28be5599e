package main

// Meaning of the library functions the repository calls.

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var models = map[string]Prim{}

var nErrNil = nNil

func errVal(msg *Term) *Node {
	return leafN(intern(&Term{k: KIface, s: "error", args: []*Term{mkOp("errmsg", 0, msg)}}))
}

// wrappedErr is the error a %w verb put into an error.
func wrappedErr(e *Term) *Term {
	if e.k != KIface || len(e.args) == 0 || e.args[0].k != KOp || e.args[0].s != "errmsg" {
		return nil
	}
	for _, p := range catParts(e.args[0].args[0]) {
		if p.k == KOp && p.s == "fmt:%w" {
			return p.args[0]
		}
	}
	return nil
}

func errIs(e, t *Term) *Node {
	r := eqT(e, t)
	if w := wrappedErr(e); w != nil {
		r = orN(r, errIs(w, t))
	}
	return r
}

func (c *PrimCall) event(name string, res Value) {
	e := &Event{Name: name, Args: c.Args, Res: res, G: c.St.g, Mem: c.St.mem.snapshot(), Fn: c.Fr.fn, Path: c.Fr.path}
	if c.Instr != nil {
		e.Pos = c.Instr.Pos()
		e.Path = c.Fr.callPath(c.Instr)
	}
	c.In.event(e)
}

// varargs returns the elements of a variadic argument.
func varargs(m *Mem, v Value) ([]*Node, bool) {
	n := asNode(v)
	if n.leaf == nil {
		return nil, false
	}
	switch n.leaf.k {
	case KNil:
		return nil, true
	case KSlice:
		cnt, ok := isConst(n.leaf.args[2])
		if !ok || cnt > 200 {
			return nil, false
		}
		arr := arrOf(m, n.leaf.args[0], types.NewInterfaceType(nil, nil))
		var out []*Node
		for i := uint64(0); i < cnt; i++ {
			out = append(out, asNode(readArr(arr, leafN(addT(n.leaf.args[1], mkConst(i))))))
		}
		return out, true
	}
	return nil, false
}

// fmtVal renders one value under a verb.
func fmtVal(m *Mem, verb string, t *Term) *Node {
	plain := verb == "%v" || verb == "%s" || verb == "%d"
	if t.k == KNil && verb == "%v" {
		return strN("<nil>")
	}
	if t.k == KIface {
		typ, _ := t.aux.(types.Type)
		in := t.args[0]
		if typ != nil {
			if b, ok := typ.Underlying().(*types.Basic); ok && !hasStringer(typ) {
				switch {
				case b.Info()&types.IsString != 0 && (verb == "%v" || verb == "%s"):
					return leafN(in)
				case b.Info()&types.IsInteger != 0 && (verb == "%v" || verb == "%d"):
					if c, ok := isConst(in); ok {
						if b.Info()&types.IsUnsigned != 0 {
							return strN(strconv.FormatUint(c, 10))
						}
						return strN(strconv.FormatInt(int64(c), 10))
					}
					if b.Info()&types.IsUnsigned != 0 || nonNeg(in) {
						return leafN(mkOp("decu", 0, in))
					}
					return iteN(ltInt(in, mkConst(0), true),
						leafN(catT(mkStr("-"), mkOp("decu", 0, negT(in)))), leafN(mkOp("decu", 0, in)))
				case b.Info()&types.IsInteger != 0:
					op := "s"
					if b.Info()&types.IsUnsigned != 0 || nonNeg(in) {
						op = "u"
					}
					if c, ok := isConst(in); ok {
						if op == "u" {
							return strN(fmt.Sprintf(verb, c))
						}
						return strN(fmt.Sprintf(verb, int64(c)))
					}
					return leafN(mkOp("fmt:"+verb+":"+op, 0, in))
				case b.Kind() == types.Bool && in.k == KBool:
					return strN(fmt.Sprintf(verb, in == tTrue))
				}
			}
			if isByteSlice(typ) && verb == "%s" {
				return bytesStr(m, in)
			}
		}
		if t.s == "error" && in.k == KOp && in.s == "errmsg" && (verb == "%v" || verb == "%s") {
			return leafN(in.args[0])
		}
	}
	if t.k == KIface && t.args[0].k == KOp && t.args[0].s == "as" {
		t = t.args[0].args[0]
	}
	_ = plain
	return leafN(mkOp("fmt:"+verb, 0, t))
}

func hasStringer(t types.Type) bool {
	for _, n := range []string{"String", "Error", "Format", "GoString"} {
		if o, _, _ := types.LookupFieldOrMethod(t, false, nil, n); o != nil {
			if _, ok := o.(*types.Func); ok {
				return true
			}
		}
	}
	return false
}

// sprintf renders a format string; ok is false when it is not understood.
func sprintf(m *Mem, format string, args []*Node) *Node {
	var parts []*Node
	lit := ""
	flush := func() {
		if lit != "" {
			parts = append(parts, strN(lit))
			lit = ""
		}
	}
	ai := 0
	for i := 0; i < len(format); i++ {
		ch := format[i]
		if ch != '%' {
			lit += string(ch)
			continue
		}
		j := i + 1
		for j < len(format) && strings.ContainsRune("+-# 0123456789.", rune(format[j])) {
			j++
		}
		if j >= len(format) {
			panic(undecided("format string " + format))
		}
		if format[j] == '%' {
			lit += "%"
			i = j
			continue
		}
		if format[j] == '[' || format[j] == '*' {
			panic(undecided("format string " + format))
		}
		verb := format[i : j+1]
		i = j
		flush()
		if ai >= len(args) {
			parts = append(parts, strN("%!"+verb[1:]+"(MISSING)"))
			continue
		}
		v := verb
		a := args[ai]
		ai++
		parts = append(parts, apply1(a, func(t *Term) *Node { return fmtVal(m, v, t) }))
	}
	flush()
	if ai < len(args) {
		parts = append(parts, strN("%!(EXTRA)"))
	}
	if len(parts) == 0 {
		return strN("")
	}
	return applyN(parts, func(ts []*Term) *Node { return leafN(catT(ts...)) })
}

// sprint renders operands as fmt.Sprint (or Sprintln) does.
func sprint(m *Mem, args []*Node, ln bool) *Node {
	var parts []*Node
	str := func(n *Node) bool {
		return n.leaf != nil && n.leaf.k == KIface && n.leaf.s == "string"
	}
	for i, a := range args {
		if i > 0 && (ln || !str(a) && !str(args[i-1])) {
			parts = append(parts, strN(" "))
		}
		parts = append(parts, apply1(a, func(t *Term) *Node { return fmtVal(m, "%v", t) }))
	}
	if ln {
		parts = append(parts, strN("\n"))
	}
	if len(parts) == 0 {
		return strN("")
	}
	return applyN(parts, func(ts []*Term) *Node { return leafN(catT(ts...)) })
}

func fmtCall(c *PrimCall, from int, kind string) *Node {
	m := c.St.mem
	switch kind {
	case "f":
		f := asNode(c.Args[from])
		va, ok := varargs(m, c.Args[from+1])
		if !ok {
			panic(undecided("variadic arguments of " + c.Name))
		}
		return apply1(f, func(t *Term) *Node {
			if t.k != KStr {
				if len(va) == 0 && c.Name == "fmt.Errorf" {
					return leafN(t) // a message used as its own format
				}
				if len(va) == 0 {
					return leafN(asFormat(t))
				}
				return leafN(mkOp("sprintf", 0, t))
			}
			return sprintf(m, t.s, va)
		})
	}
	va, ok := varargs(m, c.Args[from])
	if !ok {
		panic(undecided("variadic arguments of " + c.Name))
	}
	return sprint(m, va, kind == "ln")
}

// asFormat is a text that is interpreted as a format: what it holds of
// characters "%" does not stay as it is.
func asFormat(t *Term) *Term {
	switch {
	case t.k == KCat:
		r := mkStr("")
		for _, p := range t.args {
			r = catT(r, asFormat(p))
		}
		return r
	case t.k == KStr:
		if strings.Contains(t.s, "%") {
			panic(undecided("a format that is put together at run time"))
		}
		return t
	case t.k == KOp && (t.s == "decu" || t.s == "hex"), isIntTerm(t):
		return t
	}
	return mkOp("asformat", 0, t)
}

func okWrite() Value { return &Agg{F: []Value{leafN(mkSym("written", 31)), nNil}} }

func strConst(n *Node) (string, bool) {
	if n.leaf != nil && n.leaf.k == KStr {
		return n.leaf.s, true
	}
	return "", false
}

// buf updates a string-valued buffer cell.
func bufUpdate(c *PrimCall, f func(old *Node) *Node) {
	addr := asNode(c.Args[0])
	t := deref(c.Fn.Signature.Recv().Type())
	old := asNode(c.Fr.load(c.St, addr, t))
	c.Fr.store(c.St, addr, f(old), t)
}
func bufRead(c *PrimCall) *Node {
	addr := asNode(c.Args[0])
	t := deref(c.Fn.Signature.Recv().Type())
	return asNode(c.Fr.load(c.St, addr, t))
}
func catN(a, b *Node) *Node {
	return apply2(a, b, func(s, t *Term) *Node { return leafN(catT(s, t)) })
}

// writeTo writes a text to a buffer, a standard stream, or something else.
func writeTo(c *PrimCall, w, s *Node) {
	a := w
	var typ types.Type
	if w.leaf != nil && w.leaf.k == KIface {
		typ, _ = w.leaf.aux.(types.Type)
		a = leafN(w.leaf.args[0])
	}
	// buffers are string cells
	if p, ok := typ.(*types.Pointer); ok && isBuffer(p.Elem()) {
		old := asNode(c.Fr.load(c.St, a, p.Elem()))
		c.Fr.store(c.St, a, catN(old, s), p.Elem())
		return
	}
	c.Args = append([]Value{s}, c.Args...)
	switch {
	case w.leaf != nil && strings.Contains(w.leaf.String(), "os.Stderr"):
		c.event("stderr", nil)
	case w.leaf != nil && strings.Contains(w.leaf.String(), "os.Stdout"):
		c.event("stdout", nil)
	default:
		c.event("write", nil)
	}
}

func pure(name string, sig *types.Signature, in *Interp, args ...*Node) Value {
	n := applyN(args, func(ts []*Term) *Node { return leafN(mkOp("call:"+name, 0, ts...)) })
	return in.resultOf(n, sig)
}

func init() {
	M := models
	// fmt
	M["fmt.Sprintf"] = func(c *PrimCall) Value { return fmtCall(c, 0, "f") }
	M["fmt.Sprint"] = func(c *PrimCall) Value { return fmtCall(c, 0, "") }
	M["fmt.Sprintln"] = func(c *PrimCall) Value { return fmtCall(c, 0, "ln") }
	M["fmt.Errorf"] = func(c *PrimCall) Value {
		return apply1(fmtCall(c, 0, "f"), func(t *Term) *Node { return errVal(t) })
	}
	M["errors.New"] = func(c *PrimCall) Value {
		return apply1(asNode(c.Args[0]), func(t *Term) *Node { return errVal(t) })
	}
	for _, k := range [][2]string{{"fmt.Print", ""}, {"fmt.Println", "ln"}, {"fmt.Printf", "f"}} {
		k := k
		M[k[0]] = func(c *PrimCall) Value {
			s := fmtCall(c, 0, k[1])
			c.Args = append([]Value{s}, c.Args...)
			c.event("stdout", nil)
			return okWrite()
		}
	}
	for _, k := range [][2]string{{"fmt.Fprint", ""}, {"fmt.Fprintln", "ln"}, {"fmt.Fprintf", "f"}} {
		k := k
		M[k[0]] = func(c *PrimCall) Value {
			s := fmtCall(c, 1, k[1])
			writeTo(c, asNode(c.Args[0]), s)
			return okWrite()
		}
	}
	M["io.WriteString"] = func(c *PrimCall) Value {
		writeTo(c, asNode(c.Args[0]), asNode(c.Args[1]))
		return okWrite()
	}
	M["(*os.File).WriteString"] = M["io.WriteString"]
	M["invoke:io.StringWriter.WriteString"] = M["io.WriteString"]
	M["(*os.File).Write"] = func(c *PrimCall) Value {
		writeTo(c, asNode(c.Args[0]), c.Fr.bytesToString(asNode(c.Args[1]), c.St))
		return okWrite()
	}
	M["invoke:io.Writer.Write"] = M["(*os.File).Write"]
	M["(*os.File).Sync"] = func(c *PrimCall) Value { return nNil }
	for _, k := range []string{"bufio.NewWriter", "bufio.NewWriterSize"} {
		M[k] = func(c *PrimCall) Value {
			a := newAlloc(c.Fr.callPath(c.Instr) + "writer")
			if c.In.writers == nil {
				c.In.writers = map[*Term]*Node{}
			}
			c.In.writers[a] = asNode(c.Args[0])
			t := deref(c.Sig.Results().At(0).Type())
			c.Fr.store(c.St, leafN(a), strN(""), t)
			return leafN(a)
		}
	}
	M["(*bufio.Writer).Flush"] = func(c *PrimCall) Value {
		w := asNode(c.Args[0])
		if w.leaf == nil || c.In.writers[w.leaf] == nil {
			panic(undecided("the destination of a buffered writer is not known"))
		}
		s := bufRead(c)
		bufUpdate(c, func(o *Node) *Node { return strN("") })
		writeTo(c, c.In.writers[w.leaf], s)
		return nNil
	}
	M["invoke:error.Error"] = func(c *PrimCall) Value {
		return apply1(asNode(c.Args[0]), func(t *Term) *Node {
			if t.k == KIface && t.args[0].k == KOp && t.args[0].s == "errmsg" {
				return leafN(t.args[0].args[0])
			}
			return leafN(mkOp("errtext", 0, t))
		})
	}
	M["errors.Is"] = func(c *PrimCall) Value {
		return apply2(asNode(c.Args[0]), asNode(c.Args[1]), func(e, t *Term) *Node { return errIs(e, t) })
	}
	// what kind of error the system reports is not known, but stays the same for an error
	for _, k := range []string{"os.IsNotExist", "os.IsExist", "os.IsPermission", "os.IsTimeout"} {
		k := k
		M[k] = func(c *PrimCall) Value {
			return apply1(asNode(c.Args[0]), func(e *Term) *Node {
				switch {
				case e.k == KNil, e.k == KGlob, e.k == KIface && e.args[0].k == KOp && e.args[0].s == "errmsg":
					return nFalse
				}
				return atomN(mkOp("errkind", 1, e, mkStr(k)))
			})
		}
	}
	M["errors.Unwrap"] = func(c *PrimCall) Value {
		return apply1(asNode(c.Args[0]), func(e *Term) *Node {
			if e.k == KIface && e.s == "error" {
				if w := wrappedErr(e); w != nil {
					return leafN(w)
				}
				if e.args[0].k == KOp && e.args[0].s == "errmsg" {
					return nNil
				}
			}
			return leafN(mkOp("call:errors.Unwrap", 0, e))
		})
	}
	M["os.Exit"] = func(c *PrimCall) Value {
		c.event("os.Exit", nil)
		c.St.g = nFalse
		return nNil
	}
	// strconv
	M["strconv.ParseInt"] = func(c *PrimCall) Value {
		s, ok1 := strConst(asNode(c.Args[0]))
		b, ok2 := isConstN(asNode(c.Args[1]))
		w, ok3 := isConstN(asNode(c.Args[2]))
		if ok1 && ok2 && ok3 {
			v, err := strconv.ParseInt(s, int(b), int(w))
			e := nNil
			if err != nil {
				e = errVal(mkStr(err.Error()))
			}
			return &Agg{F: []Value{constN(uint64(v)), e}}
		}
		return pure(c.Name, c.Sig, c.In, asNode(c.Args[0]), asNode(c.Args[1]), asNode(c.Args[2]))
	}
	M["strconv.ParseUint"] = func(c *PrimCall) Value {
		s, ok1 := strConst(asNode(c.Args[0]))
		b, ok2 := isConstN(asNode(c.Args[1]))
		w, ok3 := isConstN(asNode(c.Args[2]))
		if ok1 && ok2 && ok3 {
			v, err := strconv.ParseUint(s, int(b), int(w))
			e := nNil
			if err != nil {
				e = errVal(mkStr(err.Error()))
			}
			return &Agg{F: []Value{constN(v), e}}
		}
		return pure(c.Name, c.Sig, c.In, asNode(c.Args[0]), asNode(c.Args[1]), asNode(c.Args[2]))
	}
	dec := func(signed bool) func(n *Node) *Node {
		return func(n *Node) *Node {
			return apply1(n, func(t *Term) *Node {
				typ := types.Typ[types.Uint64]
				if signed {
					typ = types.Typ[types.Int64]
				}
				return fmtVal(nil, "%d", intern(&Term{k: KIface, s: typ.String(), args: []*Term{t}, aux: typ}))
			})
		}
	}
	M["strconv.Itoa"] = func(c *PrimCall) Value { return dec(true)(asNode(c.Args[0])) }
	base := func(signed bool) Prim {
		return func(c *PrimCall) Value {
			b, ok := isConstN(asNode(c.Args[1]))
			if ok && b == 10 {
				return dec(signed)(asNode(c.Args[0]))
			}
			if ok && (b == 2 || b == 16) {
				verb := map[uint64]string{2: "%b", 16: "%x"}[b]
				typ := types.Typ[types.Uint64]
				if signed {
					typ = types.Typ[types.Int64]
				}
				return apply1(asNode(c.Args[0]), func(t *Term) *Node {
					return fmtVal(nil, verb, intern(&Term{k: KIface, s: typ.String(), args: []*Term{t}, aux: typ}))
				})
			}
			return pure(c.Name, c.Sig, c.In, asNode(c.Args[0]), asNode(c.Args[1]))
		}
	}
	M["strconv.FormatInt"] = base(true)
	M["strconv.FormatUint"] = base(false)
	// buffers
	for _, r := range []string{"(*bytes.Buffer)", "(*strings.Builder)", "(*bufio.Writer)"} {
		M[r+".WriteString"] = func(c *PrimCall) Value {
			bufUpdate(c, func(o *Node) *Node { return catN(o, asNode(c.Args[1])) })
			return okWrite()
		}
		M[r+".WriteByte"] = func(c *PrimCall) Value {
			ch := apply1(asNode(c.Args[1]), func(t *Term) *Node {
				if k, ok := isConst(t); ok {
					return strN(string([]byte{byte(k)}))
				}
				return leafN(mkOp("bytestr", 0, t))
			})
			bufUpdate(c, func(o *Node) *Node { return catN(o, ch) })
			return nNil
		}
		M[r+".WriteRune"] = func(c *PrimCall) Value {
			ch := apply1(asNode(c.Args[1]), func(t *Term) *Node {
				if k, ok := isConst(t); ok {
					return strN(string(rune(k)))
				}
				return leafN(mkOp("runestr", 0, t))
			})
			bufUpdate(c, func(o *Node) *Node { return catN(o, ch) })
			return okWrite()
		}
		M[r+".Write"] = func(c *PrimCall) Value {
			s := c.Fr.bytesToString(asNode(c.Args[1]), c.St)
			bufUpdate(c, func(o *Node) *Node { return catN(o, s) })
			return okWrite()
		}
		M[r+".String"] = func(c *PrimCall) Value { return bufRead(c) }
		M[r+".Reset"] = func(c *PrimCall) Value {
			bufUpdate(c, func(o *Node) *Node { return strN("") })
			return nNil
		}
		M[r+".Truncate"] = func(c *PrimCall) Value {
			if n, ok := isConstN(asNode(c.Args[1])); !ok || n != 0 {
				panic(undecided("a buffer is cut"))
			}
			bufUpdate(c, func(o *Node) *Node { return strN("") })
			return nNil
		}
		M[r+".WriteTo"] = func(c *PrimCall) Value {
			s := bufRead(c)
			bufUpdate(c, func(o *Node) *Node { return strN("") })
			w := c.Args[1]
			c.Args = c.Args[1:]
			writeTo(c, asNode(w), s)
			return okWrite()
		}
		M[r+".Grow"] = func(c *PrimCall) Value { return nNil }
		M[r+".Len"] = func(c *PrimCall) Value {
			return apply1(bufRead(c), func(t *Term) *Node { return leafN(lenT(c.St.mem, t)) })
		}
	}
	delete(M, "(*bufio.Writer).Reset")
	delete(M, "(*bufio.Writer).WriteTo")
	M["strings.Join"] = func(c *PrimCall) Value {
		n := asNode(c.Args[0])
		sep := asNode(c.Args[1])
		if n.leaf != nil && n.leaf.k == KNil {
			return strN("")
		}
		if n.leaf != nil && n.leaf.k == KSlice {
			if cnt, ok := isConst(n.leaf.args[2]); ok && cnt < 2048 {
				arr := arrOf(c.St.mem, n.leaf.args[0], types.Typ[types.String])
				r := strN("")
				for i := uint64(0); i < cnt; i++ {
					if i > 0 {
						r = catN(r, sep)
					}
					r = catN(r, asNode(readArr(arr, leafN(addT(n.leaf.args[1], mkConst(i))))))
				}
				return r
			}
		}
		return pure(c.Name, c.Sig, c.In, contentPack(c.St.mem, c.Args[0]), sep)
	}
	fold := func(name string, f func(a []string) interface{}) {
		M[name] = func(c *PrimCall) Value {
			var ns []*Node
			for _, a := range c.Args {
				ns = append(ns, asNode(a))
			}
			isBool := false
			if b, ok := c.Sig.Results().At(0).Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
				isBool = true
			}
			return applyN(ns, func(ts []*Term) *Node {
				var ss []string
				for _, t := range ts {
					if t.k == KStr {
						ss = append(ss, t.s)
					}
				}
				if len(ss) == len(ts) {
					switch r := f(ss).(type) {
					case string:
						return strN(r)
					case bool:
						return boolN(r)
					}
				}
				op := mkOp("call:"+name, 0, ts...)
				if isBool {
					return atomN(op)
				}
				return leafN(op)
			})
		}
	}
	fold("strings.TrimSpace", func(a []string) interface{} { return strings.TrimSpace(a[0]) })
	fold("strings.ToLower", func(a []string) interface{} { return strings.ToLower(a[0]) })
	fold("strings.ToUpper", func(a []string) interface{} { return strings.ToUpper(a[0]) })
	fold("strings.TrimRight", func(a []string) interface{} { return strings.TrimRight(a[0], a[1]) })
	fold("strings.Trim", func(a []string) interface{} { return strings.Trim(a[0], a[1]) })
	fold("strings.TrimLeft", func(a []string) interface{} { return strings.TrimLeft(a[0], a[1]) })
	fold("strings.TrimSuffix", func(a []string) interface{} { return strings.TrimSuffix(a[0], a[1]) })
	fold("strings.TrimPrefix", func(a []string) interface{} { return strings.TrimPrefix(a[0], a[1]) })
	fold("strings.Contains", func(a []string) interface{} { return strings.Contains(a[0], a[1]) })
	fold("strings.HasPrefix", func(a []string) interface{} { return strings.HasPrefix(a[0], a[1]) })
	fold("strings.HasSuffix", func(a []string) interface{} { return strings.HasSuffix(a[0], a[1]) })
	fold("strings.EqualFold", func(a []string) interface{} { return strings.EqualFold(a[0], a[1]) })
	// hex
	M["encoding/hex.EncodedLen"] = func(c *PrimCall) Value {
		return apply1(asNode(c.Args[0]), func(t *Term) *Node { return leafN(scaleT(asInt(t), 2)) })
	}
	hexOf := func(c *PrimCall, src *Node) *Node {
		return apply1(c.Fr.bytesToString(src, c.St), func(t *Term) *Node {
			if t.k == KStr {
				return strN(fmt.Sprintf("%x", t.s))
			}
			return leafN(mkOp("hex", 0, t))
		})
	}
	M["encoding/hex.EncodeToString"] = func(c *PrimCall) Value { return hexOf(c, asNode(c.Args[0])) }
	M["encoding/hex.Encode"] = func(c *PrimCall) Value {
		h := hexOf(c, asNode(c.Args[1]))
		d := asNode(c.Args[0])
		if d.leaf == nil || d.leaf.k != KSlice || h.leaf == nil {
			panic(undecided("hex.Encode"))
		}
		off, ok := isConst(d.leaf.args[1])
		if !ok || off != 0 {
			panic(undecided("hex.Encode"))
		}
		b := mkOp("bytesof", 0, h.leaf)
		n := lenT(nil, h.leaf)
		st := c.St
		st.mem = st.mem.own()
		if d.leaf.args[2] == n {
			st.mem.set(d.leaf.args[0], &Arr{k: aBase, elem: byteT, src: b})
		} else {
			old := arrOf(st.mem, d.leaf.args[0], byteT)
			st.mem.set(d.leaf.args[0], &Arr{k: aSeg, elem: byteT, under: old, idx: constN(0), n: leafN(n), seg: &Arr{k: aBase, elem: byteT, src: b}, off: constN(0)})
		}
		return leafN(n)
	}
	// math
	for _, w := range []string{"32", "64"} {
		n := "math.Float" + w + "frombits"
		w := w
		M[n] = func(c *PrimCall) Value {
			return apply1(asNode(c.Args[0]), func(t *Term) *Node { return leafN(mkOp("frombits"+w, 0, t)) })
		}
	}
	M["bytes.IndexByte"] = func(c *PrimCall) Value {
		s := c.Fr.bytesToString(asNode(c.Args[0]), c.St)
		return apply2(s, asNode(c.Args[1]), func(s, b *Term) *Node {
			if v, ok := isConst(b); ok {
				at := 0
				for _, p := range catParts(s) {
					if p.k != KStr {
						break
					}
					if i := strings.IndexByte(p.s, byte(v)); i >= 0 {
						return constN(uint64(at + i))
					}
					at += len(p.s)
				}
				if s.k == KStr {
					return constN(^uint64(0))
				}
			}
			return leafN(intOf(mkOp("sx", 64, mkOp("idxbyte", 32, s, b))))
		})
	}
	// sync.Map
	smT := func(c *PrimCall) types.Type { return deref(c.Fn.Signature.Recv().Type()) }
	get := func(c *PrimCall) *MapObj {
		addr := asNode(c.Args[0])
		v := c.Fr.load(c.St, addr, smT(c))
		o, ok := v.(*MapObj)
		if !ok {
			panic(undecided("sync.Map"))
		}
		return o
	}
	iface := types.NewInterfaceType(nil, nil)
	M["(*sync.Map).Load"] = func(c *PrimCall) Value {
		v, ok := mapGet(get(c), packV(c.Args[1]), iface)
		return &Agg{F: []Value{mergeV(ok, v, nNil), ok}}
	}
	M["(*sync.Map).Store"] = func(c *PrimCall) Value {
		o := get(c)
		c.event("syncmap.Store", nil)
		c.Fr.store(c.St, asNode(c.Args[0]), &MapObj{k: mPut, under: o, key: packV(c.Args[1]), val: packV(c.Args[2])}, smT(c))
		return nNil
	}
	M["(*sync.Map).Delete"] = func(c *PrimCall) Value {
		o := get(c)
		c.event("syncmap.Delete", nil)
		c.Fr.store(c.St, asNode(c.Args[0]), &MapObj{k: mDel, under: o, key: packV(c.Args[1])}, smT(c))
		return nNil
	}
	M["(*sync.Map).LoadOrStore"] = func(c *PrimCall) Value {
		o := get(c)
		key := packV(c.Args[1])
		v, ok := mapGet(o, key, iface)
		c.event("syncmap.Store", nil)
		nv := mergeV(ok, v, packV(c.Args[2]))
		c.Fr.store(c.St, asNode(c.Args[0]), &MapObj{k: mPut, under: o, key: key, val: nv}, smT(c))
		return &Agg{F: []Value{nv, ok}}
	}
	M["(*sync.Map).Range"] = func(c *PrimCall) Value {
		o := get(c)
		fnv := asNode(c.Args[1])
		if fnv.leaf == nil || fnv.leaf.k != KFunc {
			panic(undecided("sync.Map.Range callback"))
		}
		f := fnv.leaf.aux.(*ssa.Function)
		binds := c.In.closures[fnv.leaf]
		if ks, ok := c.In.mapKeys(o); ok {
			// every entry is known; the callback decides after each whether to go on
			if c.In.onWalk != nil && c.St.g != nFalse {
				c.In.onWalk(c.Fr.fn, c.Instr, len(ks))
			}
			for i, k := range c.In.walkOrder(ks) {
				v, has := mapGet(get(c), k, iface)
				if has != nTrue {
					panic(undecided("an entry is removed while the map is walked"))
				}
				rs := c.In.Call(f, []Value{k, v}, binds, c.St, fmt.Sprintf("%s/cb%d", c.Fr.callPath(c.Instr), i), c.Fr)
				if on := asNode(rs[0]); on == nFalse {
					break
				} else if on != nTrue {
					panic(undecided("sync.Map.Range stops depending on the input"))
				}
			}
			return nNil
		}
		src := o.src
		if src == nil {
			packSeq++
			src = mkOp(fmt.Sprintf("map#%d", packSeq), 0)
		}
		c.Fr.callbackLoop(c, func(lp *Loop, st *State) *Node {
			ok := atomN(mkOp("hasentry", 1, src, lp.kappa))
			key := mkOp("entrykey", 0, src, lp.kappa)
			v, _ := mapGet(o, leafN(key), iface)
			s2 := &State{g: andN(st.g, ok), mem: st.mem}
			rs := c.In.Call(f, []Value{leafN(key), v}, binds, s2, lp.path+"/cb", c.Fr)
			st.g, st.mem = s2.g, s2.mem
			return asNode(rs[0])
		})
		return nNil
	}
}

// callbackLoop summarises repeated execution of a body: the body runs on a
// state in which everything it may change is unknown.
func (fr *Frame) callbackLoop(c *PrimCall, body func(lp *Loop, st *State) *Node) {
	in := fr.in
	path := fr.callPath(c.Instr) + "^cb"
	lp := &Loop{path: path, fn: fr.fn, parent: in.curLoop(), g0: c.St.g}
	lp.kappa = mkSym("κ:"+path, 48)
	in.loopStk = append(in.loopStk, lp)
	defer func() { in.loopStk = in.loopStk[:len(in.loopStk)-1] }()
	ev, lps := len(in.events), len(in.loops)
	st0 := c.St
	st0.mem.shared = true
	items := map[string]*carried{}
	var order []string
	mkHead := func() *Mem {
		mem := newMem()
		for k, v := range st0.mem.all() {
			mem.set(k, v)
		}
		for _, k := range order {
			it := items[k]
			mem.set(it.cell, setPath(mem.get(it.cell), it.cell, it.path, it.head))
		}
		mem.shared = true
		return mem
	}
	var mem *Mem
	for round := 0; ; round++ {
		if round > 14 {
			panic(undecided("callback loop does not settle in " + fr.fn.String()))
		}
		in.events, in.loops = in.events[:ev], in.loops[:lps]
		mem = mkHead()
		lp.headMem = mem
		s := &State{g: st0.g, mem: mem}
		body(lp, s)
		lp.backMem, lp.contG = s.mem, s.g
		changed := diffMem(path, mem, s.mem, st0.mem, s.g, items, &order)
		if !changed {
			break
		}
	}
	for _, k := range order {
		lp.carried = append(lp.carried, items[k])
	}
	lp.evFrom, lp.evTo = ev, len(in.events)
	in.loops = append(in.loops, lp)
	// after the loop: either no iteration or some; the unknown head state covers both
	c.St.mem = &Mem{m: mem.own().m}
	c.St.g = lp.g0
}

// splitT is the list of the parts of a string.
func splitT(s, sep *Term) *Term {
	o := mkOp("split", 0, s, sep)
	return mkSlice(o, mkConst(0), lenAtom(o), nil)
}

// splitList is the list of the parts of a constant string.
func (c *PrimCall) splitList(parts []string) *Node {
	if parts == nil {
		return nNil
	}
	base := newAlloc(c.Fr.callPath(c.Instr) + "parts " + strconv.Itoa(len(c.In.fns)) + strings.Join(parts, "\x00"))
	a := &Arr{k: aVec, elem: types.Typ[types.String], under: &Arr{k: aZero, elem: types.Typ[types.String]}}
	for _, p := range parts {
		a.vec = append(a.vec, strN(p))
	}
	c.St.mem.set(base, a)
	n := mkConst(uint64(len(parts)))
	return leafN(mkSlice(base, mkConst(0), n, n))
}

func init() {
	split := func(name string, f func(s, sep string, n int) []string) {
		models[name] = func(c *PrimCall) Value {
			n, nOK := -1, true
			if len(c.Args) > 2 {
				v, ok := isConstN(asNode(c.Args[2]))
				n, nOK = int(int64(v)), ok
			}
			sep := strN("")
			if len(c.Args) > 1 {
				sep = asNode(c.Args[1])
			}
			return apply2(asNode(c.Args[0]), sep, func(s, sep *Term) *Node {
				if s.k == KStr && sep.k == KStr && nOK {
					return c.splitList(f(s.s, sep.s, n))
				}
				if n < 0 && nOK && name == "strings.Split" || name == "strings.SplitN" && nOK && n < 0 {
					return leafN(splitT(s, sep))
				}
				as := []*Term{s, sep}
				if len(c.Args) > 2 {
					as = append(as, asInt(packLeaf(asNode(c.Args[2]))))
				}
				o := mkOp("call:"+name, 0, as...)
				return leafN(mkSlice(o, mkConst(0), lenAtom(o), nil))
			})
		}
	}
	split("strings.Split", func(s, sep string, n int) []string { return strings.Split(s, sep) })
	split("strings.SplitN", strings.SplitN)
	split("strings.SplitAfter", func(s, sep string, n int) []string { return strings.SplitAfter(s, sep) })
	split("strings.Fields", func(s, sep string, n int) []string { return strings.Fields(s) })
	models["strings.FieldsFunc"] = func(c *PrimCall) Value {
		n, fn := asNode(c.Args[0]), asNode(c.Args[1])
		if n.leaf == nil || n.leaf.k != KStr || fn.leaf == nil || fn.leaf.k != KFunc {
			return pure(c.Name, c.Sig, c.In, n, fn)
		}
		f, binds := fn.leaf.aux.(*ssa.Function), c.In.closures[fn.leaf]
		i := 0
		return c.splitList(strings.FieldsFunc(n.leaf.s, func(r rune) bool {
			i++
			rs := c.In.Call(f, []Value{constN(uint64(int64(r)))}, binds, c.St, fmt.Sprintf("%s/cb%d", c.Fr.callPath(c.Instr), i), c.Fr)
			on := asNode(rs[0])
			if on != nTrue && on != nFalse {
				panic(undecided("strings.FieldsFunc splits depending on the input"))
			}
			return on == nTrue
		}))
	}
	models["strings.Cut"] = func(c *PrimCall) Value {
		s, sep := asNode(c.Args[0]), asNode(c.Args[1])
		part := func(i int) *Node {
			return apply2(s, sep, func(s, sep *Term) *Node {
				if s.k == KStr && sep.k == KStr {
					a, b, ok := strings.Cut(s.s, sep.s)
					return []*Node{strN(a), strN(b), boolN(ok)}[i]
				}
				o := mkOp(fmt.Sprintf("cut%d", i), 0, s, sep)
				if i == 2 {
					return atomN(mkOp("call:strings.Contains", 0, s, sep))
				}
				return leafN(o)
			})
		}
		return &Agg{F: []Value{part(0), part(1), part(2)}}
	}
}

// isFile reports whether the i-th argument of a call is a file.
func isFile(sig *types.Signature, i int) bool {
	if r := sig.Recv(); r != nil {
		if i == 0 {
			return types.TypeString(r.Type(), nil) == "*os.File"
		}
		i--
	}
	return i < sig.Params().Len() && types.TypeString(sig.Params().At(i).Type(), nil) == "*os.File"
}

func init() {
	// sorting a list of known texts
	models["sort.Strings"] = func(c *PrimCall) Value {
		n := asNode(c.Args[0])
		if n.leaf == nil || n.leaf.k != KSlice {
			panic(undecided("sorts an unknown list"))
		}
		k, ok := isConst(n.leaf.args[2])
		if !ok || k > 4096 {
			panic(undecided("sorts a list of unknown length"))
		}
		arr := arrOf(c.St.mem, n.leaf.args[0], tString)
		at := func(i int) *Node { return leafN(addT(n.leaf.args[1], mkConst(uint64(i)))) }
		var vs []string
		for i := 0; i < int(k); i++ {
			s, ok := strConst(asNode(readArr(arr, at(i))))
			if !ok {
				panic(undecided("sorts unknown texts"))
			}
			vs = append(vs, s)
		}
		sort.Strings(vs)
		for i, s := range vs {
			arr = &Arr{k: aWrite, elem: tString, under: arr, idx: at(i), val: strN(s)}
		}
		c.St.mem = c.St.mem.own()
		c.St.mem.set(n.leaf.args[0], arr)
		return nil
	}
	models["slices.Sort"] = models["sort.Strings"]
}
