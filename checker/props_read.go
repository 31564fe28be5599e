package main

// Reading the input files: C03 (short reads and errors), C35 (first page of a
// number), C21 (redo payload).
//
// The file is a device with a fixed length, a fixed number of bytes per low-level
// read and possibly an error at one offset; its content is unknown.  The parse
// functions are analysed against that contract of the reading primitives.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	prop("C03", techVal,
		"The page reader and the redo reader are analysed against the contract of the os and io read functions, for files of unknown content that end at a boundary, inside a page or block or at once, that deliver few bytes per read, and that fail at each stage; the pages and blocks that come out and the error are compared with the complete ones read.",
		checkC03, "os and io read functions keep their documented contract")
	prop("C35", techVal,
		"The page reader is analysed on files whose pages carry unknown page numbers; the resulting list is compared, for every pattern of equal numbers, with the first occurrence of each number in file order.",
		checkC35, "files of up to three pages; equality patterns of more pages are made of these")
	prop("C21", techVal,
		"The redo reader is analysed on blocks with an unknown length field and unknown content, and on sequences of blocks and files; the bytes handed to the record parser are compared with the payload bytes.",
		checkC21, "sequences of up to three blocks and two files")
}

const pageSize, blockSize = 16384, 512

type device struct {
	name  string
	base  *Term // content
	total int
	chunk int   // bytes per low-level read, 0: as many as asked for
	errAt int   // offset at which reading fails, -1: never
	once  bool  // reading fails only the first time
	lost  bool  // the file cannot be opened
	fails *Term // counts the failures of a device that fails once
	cell  *Term
	opens int
}

type devices struct {
	c    *Check
	by   map[string]*device // by path
	term map[*Term]*device
	eof  *Node
	uexp *Node
	fail *Node
	seq  int
}

// newDevices registers devices in the initial memory and pins io.EOF.
func newDevices(c *Check, m *Mem, ds ...*device) *devices {
	d := &devices{c: c, by: map[string]*device{}, term: map[*Term]*device{},
		eof: errVal(mkStr("EOF")), uexp: errVal(mkStr("unexpected EOF")), fail: errVal(mkStr("input/output error"))}
	io := c.L.Prog.ImportedPackage("io")
	storeAddr(m, globT(io.Var("EOF")), d.eof)
	storeAddr(m, globT(io.Var("ErrUnexpectedEOF")), d.uexp)
	for _, x := range ds {
		x.cell = newAlloc("device position " + x.name)
		noteCell(x.cell, tInt)
		storeAddr(m, x.cell, constN(0))
		x.fails = newAlloc("device failures " + x.name)
		noteCell(x.fails, tInt)
		storeAddr(m, x.fails, constN(0))
		if x.base == nil {
			x.base = mkSym("file "+x.name, 0)
		}
		d.by[x.name] = x
	}
	return d
}

func unwrapFile(v Value) *Term {
	n := asNode(v)
	if n.leaf == nil {
		panic(undecided("file handle depends on the input"))
	}
	t := n.leaf
	for t.k == KIface {
		t = t.args[0]
	}
	return t
}

func (d *devices) of(v Value) *device {
	t := unwrapFile(v)
	if x, ok := d.term[t]; ok {
		return x
	}
	if t.k == KOp && strings.HasPrefix(t.s, "reader:") {
		if x, ok := d.term[t.args[0]]; ok {
			return x
		}
	}
	panic(undecided("read from an unknown file " + t.String()))
}

func (d *devices) pos(p *PrimCall, x *device) int {
	n, ok := isConstN(asNode(loadAddr(p.St.mem, x.cell, tInt)))
	if !ok {
		panic(undecided("file position depends on the input"))
	}
	return int(n)
}

func (d *devices) setPos(p *PrimCall, x *device, at int) {
	p.St.mem = p.St.mem.own()
	storeAddr(p.St.mem, x.cell, constN(uint64(at)))
}

// end is where reading stops, and why.
func (d *devices) end(p *PrimCall, x *device) (int, *Node) {
	if x.errAt >= 0 && x.errAt <= x.total {
		if x.once {
			if n, ok := isConstN(asNode(loadAddr(p.St.mem, x.fails, tInt))); !ok {
				panic(undecided("whether the file has failed depends on the input"))
			} else if n != 0 {
				return x.total, d.eof
			}
		}
		return x.errAt, d.fail
	}
	return x.total, d.eof
}

func (d *devices) content(m *Mem, x *device) *Arr { return arrOf(m, x.base, byteT) }

// fill copies n bytes of the file into a slice.
func (d *devices) fill(p *PrimCall, x *device, dst *Node, dstOff, at, n int) {
	if n == 0 {
		return
	}
	if dst.leaf == nil || dst.leaf.k != KSlice {
		panic(undecided("read into an unknown buffer"))
	}
	t := dst.leaf
	src := d.content(p.St.mem, x)
	old := arrOf(p.St.mem, t.args[0], byteT)
	p.St.mem = p.St.mem.own()
	nw := &Arr{k: aSeg, elem: byteT, under: old, idx: leafN(addT(t.args[1], mkConst(uint64(dstOff)))), n: constN(uint64(n)), seg: src, off: constN(uint64(at))}
	if o, ok := isConst(t.args[1]); ok && src.k == aVec && at+n <= len(src.vec) && (old.k == aZero || old.k == aVec && old.under.k == aZero) {
		// known content stays known
		v := append([]Value(nil), old.vec...)
		for len(v) < int(o)+dstOff+n {
			v = append(v, zeroVal(byteT))
		}
		copy(v[int(o)+dstOff:], src.vec[at:at+n])
		nw = &Arr{k: aVec, elem: byteT, under: &Arr{k: aZero, elem: byteT}, vec: v}
	}
	root, path := decompose(t.args[0])
	if len(path) != 0 {
		storeAddr(p.St.mem, t.args[0], nw)
		return
	}
	p.St.mem.set(root, nw)
}

func sliceLenOf(m *Mem, v Value) int {
	n := asNode(v)
	if n.leaf == nil {
		panic(undecided("buffer depends on the input"))
	}
	k, ok := isConst(lenT(m, n.leaf))
	if !ok {
		panic(undecided("length of the read buffer is not constant"))
	}
	return int(k)
}

// install adds the models of the reading primitives.
func (d *devices) install(in *Interp) {
	ioRes := func(n int, e *Node) Value { return &Agg{F: []Value{constN(uint64(n)), e}} }
	// stop ends a read for the given reason.
	stop := func(p *PrimCall, x *device, n int, why *Node) Value {
		if why == d.fail {
			p.St.mem = p.St.mem.own()
			storeAddr(p.St.mem, x.fails, constN(1))
		}
		return ioRes(n, why)
	}
	open := func(p *PrimCall) Value {
		name, ok := strConst(asNode(p.Args[0]))
		x := d.by[name]
		if !ok || x == nil {
			panic(undecided("open of an unknown path"))
		}
		if x.lost {
			return &Agg{F: []Value{nNil, errVal(mkStr("cannot open " + name))}}
		}
		x.opens++
		f := newAlloc(fmt.Sprintf("file %s#%d", name, x.opens))
		d.term[f] = x
		p.event("open", nil)
		d.setPos(p, x, 0)
		return &Agg{F: []Value{leafN(f), nNil}}
	}
	in.prims["os.Open"] = open
	in.prims["os.OpenFile"] = open
	in.prims["(*os.File).Close"] = func(p *PrimCall) Value { return nNil }
	in.prims["(*os.File).Name"] = func(p *PrimCall) Value { return leafN(mkSym("file name", 0)) }
	read := func(p *PrimCall) Value {
		x := d.of(p.Args[0])
		at := d.pos(p, x)
		n := sliceLenOf(p.St.mem, p.Args[1])
		end, why := d.end(p, x)
		if n == 0 {
			return ioRes(0, nNil)
		}
		if at >= end {
			return stop(p, x, 0, why)
		}
		if x.chunk > 0 && n > x.chunk {
			n = x.chunk
		}
		if n > end-at {
			n = end - at
		}
		d.fill(p, x, asNode(p.Args[1]), 0, at, n)
		d.setPos(p, x, at+n)
		return ioRes(n, nNil)
	}
	in.prims["(*os.File).Read"] = read
	in.prims["(*bufio.Reader).Read"] = read
	in.prims["invoke:io.Reader.Read"] = read
	full := func(p *PrimCall, min int) Value {
		x := d.of(p.Args[0])
		at := d.pos(p, x)
		n := sliceLenOf(p.St.mem, p.Args[1])
		if min < 0 {
			min = n
		}
		if min > n {
			return ioRes(0, errVal(mkStr("short buffer")))
		}
		end, why := d.end(p, x)
		got := n
		if x.chunk > 0 && min < n {
			panic(undecided("ReadAtLeast with a smaller minimum"))
		}
		if got > end-at {
			got = end - at
		}
		if got < 0 {
			got = 0
		}
		d.fill(p, x, asNode(p.Args[1]), 0, at, got)
		d.setPos(p, x, at+got)
		if got >= min {
			return ioRes(got, nNil)
		}
		if why == d.eof && got > 0 {
			why = d.uexp
		}
		return stop(p, x, got, why)
	}
	in.prims["io.ReadFull"] = func(p *PrimCall) Value { return full(p, -1) }
	in.prims["io.ReadAtLeast"] = func(p *PrimCall) Value {
		k, ok := isConstN(asNode(p.Args[2]))
		if !ok {
			panic(undecided("minimum of ReadAtLeast"))
		}
		return full(p, int(k))
	}
	in.prims["(*os.File).ReadAt"] = func(p *PrimCall) Value {
		x := d.of(p.Args[0])
		o, ok := isConstN(asNode(p.Args[2]))
		if !ok {
			panic(undecided("offset of ReadAt"))
		}
		at, n := int(o), sliceLenOf(p.St.mem, p.Args[1])
		end, why := d.end(p, x)
		if at >= end {
			return stop(p, x, 0, why)
		}
		got := n
		if got > end-at {
			got = end - at
		}
		d.fill(p, x, asNode(p.Args[1]), 0, at, got)
		if got < n {
			return stop(p, x, got, why)
		}
		return ioRes(got, nNil)
	}
	in.prims["(*os.File).Seek"] = func(p *PrimCall) Value {
		x := d.of(p.Args[0])
		o, ok1 := isConstN(asNode(p.Args[1]))
		w, ok2 := isConstN(asNode(p.Args[2]))
		if !ok1 || !ok2 {
			panic(undecided("offset of Seek"))
		}
		at := int(int64(o))
		switch w {
		case 1:
			at += d.pos(p, x)
		case 2:
			at += x.total
		}
		d.setPos(p, x, at)
		return ioRes(at, nNil)
	}
	wrap := func(p *PrimCall) Value {
		t := unwrapFile(p.Args[0])
		if _, ok := d.term[t]; !ok {
			panic(undecided("reader over an unknown file"))
		}
		return leafN(mkOp("reader:bufio", 0, t))
	}
	in.prims["bufio.NewReader"] = wrap
	in.prims["bufio.NewReaderSize"] = wrap
	all := func(p *PrimCall) Value {
		x := d.of(p.Args[0])
		at := d.pos(p, x)
		end, why := d.end(p, x)
		d.seq++
		b := newAlloc(fmt.Sprintf("read all %s#%d", x.name, d.seq))
		noteCell(b, types.NewArray(byteT, int64(end-at)))
		p.St.mem = p.St.mem.own()
		p.St.mem.set(b, &Arr{k: aZero, elem: byteT})
		s := leafN(mkSlice(b, mkConst(0), mkConst(uint64(end-at)), nil))
		d.fill(p, x, s, 0, at, end-at)
		d.setPos(p, x, end)
		if why == d.eof {
			why = nNil
		}
		stop(p, x, 0, why)
		return &Agg{F: []Value{s, why}}
	}
	in.prims["io.ReadAll"] = all
	in.prims["io/ioutil.ReadAll"] = all
	in.prims["encoding/binary.Read"] = func(p *PrimCall) Value {
		// a fixed-size structure from a buffer that holds it completely
		if t := unwrapFile(p.Args[0]); d.term[t] != nil {
			panic(undecided("binary.Read from the file"))
		}
		p.Fr.havocArg(p.Args[2], 2, p.Name, mkOp("decoded:"+p.Fr.callPath(p.Instr), 0), p.St)
		return nNil
	}
	for _, n := range []string{"bytes.NewBuffer", "bytes.NewReader"} {
		n := n
		in.prims[n] = func(p *PrimCall) Value { return leafN(mkOp("buffer over", 0, packV(p.Args[0]).leaf)) }
	}
}

// number writes the page number of a page into the content.
func (x *device) number(m *Mem, page int, no uint64) {
	a := arrOf(m, x.base, byteT)
	for i := 0; i < 4; i++ {
		a = &Arr{k: aWrite, elem: byteT, under: a, idx: constN(uint64(page*pageSize + 4 + i)), val: constN(no >> (8 * (3 - i)) & 0xff)}
	}
	m.set(x.base, a)
}

// bytesAre compares a slice with a run of file content, byte for byte.
func (c *Check) bytesAre(m *Mem, got *Node, want []Value, sample bool) (bad string) {
	if got.leaf == nil {
		return "the data depends on the input in an unexpected way"
	}
	k, ok := isConst(lenT(m, got.leaf))
	if !ok {
		panic(undecided("length of the data is not constant"))
	}
	if int(k) != len(want) {
		return fmt.Sprintf("%d bytes instead of %d", k, len(want))
	}
	if k == 0 {
		return ""
	}
	a := arrOf(m, got.leaf.args[0], byteT)
	for i := range want {
		if sample && i >= 128 && i < len(want)-16 && i%61 != 0 {
			continue
		}
		g := asNode(readArr(a, leafN(addT(got.leaf.args[1], mkConst(uint64(i))))))
		if w := asNode(want[i]); g != w {
			if eq, _ := equalN(g, w, emptyCtx); !eq {
				return fmt.Sprintf("byte %d is %s instead of %s", i, g, w)
			}
		}
	}
	return ""
}

func (x *device) bytes(m *Mem, at, n int) []Value {
	a := arrOf(m, x.base, byteT)
	out := make([]Value, n)
	for i := range out {
		out[i] = readArr(a, constN(uint64(at+i)))
	}
	return out
}

// pagesOf reads the list of pages out of a result.
func pagesOf(r *run, v Value, t types.Type) (pages []Value, elem types.Type) {
	n := asNode(v)
	elem = t.Underlying().(*types.Slice).Elem()
	if n.leaf == nil {
		panic(undecided("the list of pages depends on the input"))
	}
	k, ok := isConst(lenT(r.st.mem, n.leaf))
	if !ok {
		panic(undecided("the number of pages is not constant"))
	}
	if k == 0 {
		return nil, elem
	}
	a := arrOf(r.st.mem, n.leaf.args[0], elem)
	for i := uint64(0); i < k; i++ {
		pages = append(pages, readArr(a, leafN(addT(n.leaf.args[1], mkConst(i)))))
	}
	return pages, elem
}

func aggField(v Value, t types.Type, name string) Value {
	s := t.Underlying().(*types.Struct)
	a, ok := v.(*Agg)
	if !ok {
		v = unpackN(asNode(v), t)
		a, ok = v.(*Agg)
	}
	if !ok {
		panic(undecided("structure value"))
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return a.F[i]
		}
	}
	panic(undecided("no field " + name))
}

type readScenario struct {
	name  string
	total int
	chunk int
	errAt int
	once  bool
}

func (c *Check) runParseFile(x *device, number bool) (*run, *Mem) {
	f := c.fn(pIB, "parseFile")
	m := newMem()
	d := newDevices(c, m, x)
	if number {
		for p := 0; p < (x.total+pageSize-1)/pageSize; p++ {
			x.number(m, p, uint64(p+3))
		}
	}
	args := symArgs(f)
	args[len(args)-1] = strN(x.name)
	r := c.exec(f, args, m, d.install)
	c.curFn = f
	if ok, _ := equalN(r.st.g, nTrue, emptyCtx); !ok {
		panic(undecided("the file reader does not return on every path"))
	}
	return r, m
}

func checkC03(c *Check) {
	c.rule("pages", "exactly the complete pages of the file are passed on, each with its own 16384 bytes")
	c.rule("blocks", "exactly the payload of the complete blocks of the file is passed on")
	c.rule("end", "the end of the file, with or without an incomplete last page or block, is no error")
	c.rule("error", "a read error is returned")
	P := pageSize
	for _, s := range []readScenario{
		{"empty file", 0, 0, -1, false},
		{"one page", P, 0, -1, false},
		{"two pages and a part", 2*P + 100, 0, -1, false},
		{"less than a page", 100, 0, -1, false},
		{"two pages and one byte less than a third", 3*P - 1, 0, -1, false},
		{"two pages, few bytes per read", 2 * P, 5000, -1, false},
		{"two pages and a part, few bytes per read", 2*P + 6000, 5000, -1, false},
		{"error at the start", 3 * P, 0, 0, false},
		{"error after one page", 3 * P, 0, P, false},
		{"error inside the second page", 3 * P, 0, P + 77, false},
		{"error inside the first page, few bytes per read", 3 * P, 5000, 9000, false},
		{"error where the file would end", 2 * P, 0, 2 * P, false},
		{"passing error at the start", 3 * P, 0, 0, true},
		{"passing error after one page", 3 * P, 0, P, true},
		{"passing error inside the second page", 4 * P, 0, P + 77, true},
		{"passing error where the file would end", 2 * P, 0, 2 * P, true},
	} {
		s := s
		c.try("pages", "parseFile: "+s.name, func() {
			x := &device{name: "f", total: s.total, chunk: s.chunk, errAt: s.errAt, once: s.once}
			r, m := c.runParseFile(x, true)
			where := c.L.where(r.fn, nil)
			c.sites++
			if s.errAt >= 0 {
				c.decide2("error", "parseFile: "+s.name, where, nilness(asNode(r.res[1])), "the read error is dropped")
				return
			}
			c.decide2("end", "parseFile: "+s.name, where, notN(nilness(asNode(r.res[1]))), "the end of the file is reported as an error")
			t := r.fn.Signature.Results().At(0).Type()
			pages, elem := pagesOf(r, r.res[0], t)
			if len(pages) != s.total/P {
				c.fail("pages", "parseFile: "+s.name, where, fmt.Sprintf("%d pages are decoded from a file with %d complete pages", len(pages), s.total/P))
				return
			}
			c.ob("pages", "parseFile: "+s.name+": number of pages", where, true, "")
			for i, pg := range pages {
				bad := c.bytesAre(r.st.mem, asNode(aggField(pg, elem, "OriginalData")), x.bytes(m, i*P, P), s.chunk != 0)
				c.ob("pages", fmt.Sprintf("parseFile: %s: page %d", s.name, i), where, bad == "", bad)
			}
		})
	}
	B := blockSize
	for _, s := range []readScenario{
		{"headers only", 4 * B, 0, -1, false},
		{"two blocks", 6 * B, 0, -1, false},
		{"two blocks and a part", 6*B + 100, 0, -1, false},
		{"one block and one byte less than a second", 6*B - 1, 0, -1, false},
		{"two blocks, few bytes per read", 6 * B, 100, -1, false},
		{"two blocks and a part, few bytes per read", 6*B + 300, 100, -1, false},
		{"error in the file header", 6 * B, 0, 10, false},
		{"error in the first checkpoint", 6 * B, 0, B, false},
		{"error between the checkpoints", 6 * B, 0, 2*B + 1, false},
		{"error in the second checkpoint", 6 * B, 0, 3*B + 100, false},
		{"error at the first block", 7 * B, 0, 4 * B, false},
		{"error inside the second block", 7 * B, 0, 5*B + 100, false},
		{"error where the file would end", 6 * B, 0, 6 * B, false},
		{"passing error in the file header", 6 * B, 0, 10, true},
		{"passing error in the first checkpoint", 6 * B, 0, B, true},
		{"passing error between the checkpoints", 6 * B, 0, 2*B + 1, true},
		{"passing error in the second checkpoint", 6 * B, 0, 3*B + 100, true},
		{"passing error at the first block", 7 * B, 0, 4 * B, true},
		{"passing error inside the second block", 8 * B, 0, 5*B + 100, true},
		{"passing error where the file would end", 6 * B, 0, 6 * B, true},
	} {
		s := s
		c.try("blocks", "ParseRedoLogs: "+s.name, func() {
			x := &device{name: "f", total: s.total, chunk: s.chunk, errAt: s.errAt, once: s.once}
			var lens []int
			for i := 4; i*B < s.total; i++ {
				lens = append(lens, B)
			}
			rr := c.runRedoLogs([]*device{x}, [][]int{lens})
			where := c.L.where(rr.r.fn, nil)
			c.sites++
			if s.errAt >= 0 {
				c.decide2("error", "ParseRedoLogs: "+s.name, where, andN(rr.r.st.g, nilness(asNode(rr.r.res[0]))), "the read error is dropped")
				return
			}
			c.decide2("end", "ParseRedoLogs: "+s.name, where, andN(rr.r.st.g, notN(nilness(asNode(rr.r.res[0])))), "the end of the file is reported as an error")
			rr.compare(c, "blocks", "ParseRedoLogs: "+s.name, [][2]interface{}{{x, s.total/B - 4}})
		})
	}
}

type redoRun struct {
	r    *run
	m    *Mem
	data []*Node
	mems []*Mem
	gs   []*Node
	lens map[*device][]int
}

// blockLen writes the length field of a block.
func (x *device) blockLen(m *Mem, block int, n *Node) {
	a := arrOf(m, x.base, byteT)
	for i := 0; i < 2; i++ {
		v := apply1(n, func(t *Term) *Node {
			k, ok := isConst(t)
			if !ok {
				panic("block length")
			}
			return constN(k >> (8 * (1 - i)) & 0xff)
		})
		a = &Arr{k: aWrite, elem: byteT, under: a, idx: constN(uint64((4+block)*blockSize + 4 + i)), val: v}
	}
	m.set(x.base, a)
}

// runRedoLogs analyses ParseRedoLogs on the given files; a length of -1 leaves
// the length field of that block unknown.
func (c *Check) runRedoLogs(xs []*device, lens [][]int) *redoRun {
	return c.runRedoLogsErr(xs, lens, nNil)
}

// runRedoLogsErr does so with a given result of the record parser.
func (c *Check) runRedoLogsErr(xs []*device, lens [][]int, res *Node) *redoRun {
	f := c.fn(pRedo, "ParseRedoLogs")
	pf := c.fn(pRedo, "parseRedoBlockData")
	m := newMem()
	d := newDevices(c, m, xs...)
	rr := &redoRun{m: m, lens: map[*device][]int{}}
	var names []string
	for i, x := range xs {
		names = append(names, x.name)
		rr.lens[x] = lens[i]
		for j, n := range lens[i] {
			x.payload(m, j)
			if n >= 0 {
				x.blockLen(m, j, constN(uint64(n)))
			}
		}
	}
	args := symArgs(f)
	args[1] = strList(m, "log files", names...)
	c.curFn = f
	rr.r = c.exec(f, args, m, func(in *Interp) {
		d.install(in)
		in.prims[fnName(pf)] = func(p *PrimCall) Value {
			rr.data = append(rr.data, asNode(p.Args[len(p.Args)-1]))
			rr.mems = append(rr.mems, p.St.mem.snapshot())
			rr.gs = append(rr.gs, p.St.g)
			return res
		}
	})
	c.curFn = f
	return rr
}

func payload(n int) (lo, hi int) {
	if n < 12 {
		return 12, 12
	}
	if n > 508 {
		n = 508
	}
	return 12, n
}

// compare checks the data handed to the record parser; files lists the devices
// with the number of blocks used.
func (rr *redoRun) compare(c *Check, rule, construct string, files [][2]interface{}) {
	where := c.L.where(rr.r.fn, nil)
	var want []Value
	for _, fb := range files {
		x, k := fb[0].(*device), fb[1].(int)
		for b := 0; b < k; b++ {
			lo, hi := payload(rr.lens[x][b])
			want = append(want, x.bytes(rr.m, (4+b)*blockSize+lo, hi-lo)...)
		}
	}
	if len(rr.data) == 0 && len(want) == 0 {
		c.ob(rule, construct, where, true, "")
		return
	}
	if len(rr.data) == 0 {
		c.fail(rule, construct, where, fmt.Sprintf("the record parser is not started, %d bytes are lost", len(want)))
		return
	}
	if len(rr.data) != 1 {
		// the records may be parsed file by file only when the joined data is the same
		c.open(rule, construct, where, fmt.Sprintf("the record parser is started %d times", len(rr.data)))
		return
	}
	if ok, _ := equalN(rr.gs[0], nTrue, emptyCtx); !ok {
		c.open(rule, construct, where, "the record parser is not started on every path")
		return
	}
	bad := c.bytesAre(rr.mems[0], rr.data[0], want, false)
	c.ob(rule, construct, where, bad == "", bad)
}

// header writes the rest of a page's header as constants when the unknown
// content leads to no decision.
func (x *device) header(m *Mem, page int) {
	if fillMode == 0 {
		return
	}
	a := arrOf(m, x.base, byteT)
	for i := 0; i < 80; i++ {
		if i >= 4 && i < 8 {
			continue
		}
		v := uint64(0)
		switch fillMode {
		case 1:
			v = uint64(page + 1)
		case 2:
			v = uint64(255 - page)
		default:
			v = uint64(i*(page+3)*37+11) & 0xff
		}
		a = &Arr{k: aWrite, elem: byteT, under: a, idx: constN(uint64(page*pageSize + i)), val: constN(v)}
	}
	m.set(x.base, a)
}

func checkC35(c *Check) {
	c.rule("first", "the pages used are the first occurrence of each page number, in file order, with their own content")
	for pages := 1; pages <= 3; pages++ {
		// all patterns of equal and different page numbers
		var pats [][]int
		var rec func(p []int, max int)
		rec = func(p []int, max int) {
			if len(p) == pages {
				pats = append(pats, append([]int{}, p...))
				return
			}
			for v := 0; v <= max; v++ {
				nm := max
				if v == max {
					nm++
				}
				rec(append(p, v), nm)
			}
		}
		rec(nil, 0)
		for _, pat := range pats {
			// the numbers themselves: small, zero and the largest
			sets := [][]uint64{{0, 1, 2}, {7, 0, 0xffffffff}, {0x01000000, 0x00000001, 0x00010000}}
			if pages == 2 {
				for i := uint(0); i < 32; i++ {
					sets = append(sets, []uint64{5, 5 ^ 1<<i})
				}
			}
			for _, nums := range sets {
				name := fmt.Sprintf("pages numbered %v", func() (o []uint64) {
					for _, v := range pat {
						o = append(o, nums[v])
					}
					return
				}())
				if c.skip("first", name) {
					continue
				}
				c.try("first", name, func() {
					x := &device{name: "f", total: pages * pageSize, errAt: -1}
					m := newMem()
					d := newDevices(c, m, x)
					var want []int
					seen := map[int]bool{}
					for p, v := range pat {
						x.number(m, p, nums[v])
						x.header(m, p)
						if !seen[v] {
							seen[v] = true
							want = append(want, p)
						}
					}
					c.usedPages(name, x, m, d, want)
				})
			}
		}
	}
	c.givenPages()
}

// usedPages compares the pages the file reader returns with those of the file.
func (c *Check) usedPages(name string, x *device, m *Mem, d *devices, want []int) {
	f := c.fn(pIB, "parseFile")
	args := symArgs(f)
	args[len(args)-1] = strN("f")
	c.curFn = f
	r := c.exec(f, args, m, d.install)
	c.curFn = f
	where := c.L.where(f, nil)
	pgs, elem := pagesOf(r, r.res[0], f.Signature.Results().At(0).Type())
	if len(pgs) != len(want) {
		c.fail("first", name, where, fmt.Sprintf("%d pages are used instead of %d", len(pgs), len(want)))
		return
	}
	for i, pg := range pgs {
		bad := c.bytesAre(r.st.mem, asNode(aggField(pg, elem, "OriginalData")), x.bytes(m, want[i]*pageSize, pageSize), true)
		if bad != "" {
			bad = fmt.Sprintf("page %d of the list is not page %d of the file: %s", i, want[i], bad)
		}
		c.ob("first", fmt.Sprintf("%s: list entry %d", name, i), where, bad == "", bad)
	}
}

// given compares the pages used of files whose page headers are constants.
func (c *Check) givenPages() {
	kinds := map[byte]func(p *pageBuf){
		'i': func(p *pageBuf) {},
		'z': (*pageBuf).zero,
		'b': func(p *pageBuf) { p.put(24, 2, 10) },
		'h': func(p *pageBuf) { p.put(24, 2, 8) },
		'm': func(p *pageBuf) { p.put(24, 2, 5) },
		'n': func(p *pageBuf) { p.put(24, 2, 3) },
		'a': func(p *pageBuf) { p.put(24, 2, 0); p.put(16, 8, 0) },
		's': func(p *pageBuf) { p.put(56, 8, 5) },
		't': func(p *pageBuf) { p.put(64, 2, 1) },
		'l': func(p *pageBuf) { p.put(16, 8, 1) },
		'x': func(p *pageBuf) { p.put(16, 8, 1<<63) },
	}
	files := []struct {
		kinds string
		nums  []uint64
	}{
		{"ziz", []uint64{0, 1, 0}}, {"izi", []uint64{3, 0, 4}}, {"hmnizzii", []uint64{0, 1, 2, 3, 0, 0, 6, 7}},
		{"hmnii", []uint64{0, 1, 2, 3, 3}}, {"zzi", []uint64{0, 0, 9}}, {"iibai", []uint64{3, 4, 5, 6, 7}}, {"iaibi", []uint64{9, 8, 7, 6, 5}},
		{"isiti", []uint64{3, 4, 3, 6, 4}}, {"lxlil", []uint64{3, 4, 5, 6, 7}}, {"xlxl", []uint64{3, 3, 4, 4}}, {"lll", []uint64{3, 1 << 20, 4}},
	}
	for _, s := range files {
		if s.kinds == "" {
			continue
		}
		name := fmt.Sprintf("a file of pages %s numbered %v", s.kinds, s.nums)
		if c.skip("first", name) {
			continue
		}
		c.try("first", name, func() {
			var ps []*pageBuf
			var want []int
			seen := map[uint64]bool{}
			for i, n := range s.nums {
				p := newPageBuf(n+1000*uint64(i), 17855, 77)
				p.put(4, 4, n)
				kinds[s.kinds[i]](p)
				ps = append(ps, p)
				if !seen[n] {
					seen[n] = true
					want = append(want, i)
				}
			}
			x := &device{name: "f", total: len(ps) * pageSize, errAt: -1}
			m := newMem()
			d := newDevices(c, m, x)
			m.set(x.base, vecOf(bytesOf(ps...)))
			c.usedPages(name, x, m, d, want)
		})
	}
}

// payload writes the rest of a block as constants when the unknown content leads
// to no decision.
func (x *device) payload(m *Mem, block int) {
	if fillMode == 0 {
		return
	}
	a := arrOf(m, x.base, byteT)
	for i := 0; i < blockSize; i++ {
		if i >= 4 && i < 6 {
			continue
		}
		v := uint64(0)
		switch {
		case i < 4:
			v = uint64(block+9) >> (8 * uint(3-i)) & 0xff
		case i == 7 || i == 11:
			v = 12
		case i < 12:
		case fillMode == 1 && i >= 40 && i < 480, fillMode == 2:
			// zeros
		case fillMode == 3:
			v = uint64(i*(block+3)*37+11) & 0xff
		default:
			v = 0xff
		}
		a = &Arr{k: aWrite, elem: byteT, under: a, idx: constN(uint64((4+block)*blockSize + i)), val: constN(v)}
	}
	m.set(x.base, a)
}

func checkC21(c *Check) {
	c.rule("payload", "of a block exactly the bytes from 12 to its length, at most to 508, are used")
	c.rule("order", "payloads are joined in block and file order; a block of length 0 ends its file")
	c.rule("extent", "no byte outside the block is read")
	for n := 0; n <= 520; n++ {
		c.block1(n)
	}
	if c.Tier == "thorough" {
		for n := 521; n < 65536; n += 13 {
			c.block1(n)
		}
	}
	for _, n := range []int{1000, 0x0fff, 0x7fff, 0x8000, 0x8200, 0xff00, 0xffff} {
		c.block1(n)
	}
	seqs := []struct {
		name  string
		lens  [][]int
		used  []int
		chunk int
	}{
		{"three full blocks", [][]int{{512, 512, 512}}, []int{3}, 0},
		{"full, part, full", [][]int{{512, 100, 512}}, []int{3}, 0},
		{"a block of length 0 ends the file", [][]int{{512, 0, 512}}, []int{1}, 0},
		{"a first block of length 0", [][]int{{0, 512}}, []int{0}, 0},
		{"two files", [][]int{{512, 60}, {512}}, []int{2, 1}, 0},
		{"two files, the first ended by length 0", [][]int{{512, 0, 512}, {300, 512}}, []int{1, 2}, 0},
		{"two files, the first empty", [][]int{{}, {300, 512}}, []int{0, 2}, 0},
		{"two files, few bytes per read", [][]int{{512, 60}, {512}}, []int{2, 1}, 99},
	}
	type seq = struct {
		name  string
		lens  [][]int
		used  []int
		chunk int
	}
	for _, n := range []int{12, 13, 16, 255, 256, 496, 507, 508, 509, 511, 513, 600, 0x7fff, 0x8000, 0x8100, 0xffff} {
		seqs = append(seqs, seq{fmt.Sprintf("a block of length %d between full ones", n), [][]int{{512, n, 512}}, []int{3}, 0},
			seq{fmt.Sprintf("a first block of length %d", n), [][]int{{n, 512}, {n, 512}}, []int{2, 2}, 0})
	}
	for _, s := range seqs {
		s := s
		c.try("order", s.name, func() {
			var xs []*device
			var files [][2]interface{}
			for i, l := range s.lens {
				x := &device{name: fmt.Sprintf("f%d", i+1), total: (4 + len(l)) * blockSize, errAt: -1, chunk: s.chunk}
				xs = append(xs, x)
				files = append(files, [2]interface{}{x, s.used[i]})
			}
			rr := c.runRedoLogs(xs, s.lens)
			rr.compare(c, "order", s.name, files)
		})
	}
}

// block1 analyses one block of a given length field.
func (c *Check) block1(n int) {
	name := fmt.Sprintf("block of length %d", n)
	c.try("payload", name, func() {
		x := &device{name: "f", total: 5 * blockSize, errAt: -1}
		var out string
		rr := c.runRedoLogsWatch([]*device{x}, [][]int{{n}}, &out)
		used := 1
		if n == 0 {
			used = 0
		}
		rr.compare(c, "payload", name, [][2]interface{}{{x, used}})
		c.ob("extent", name, c.L.where(rr.r.fn, nil), out == "", out)
	})
}

func (c *Check) runRedoLogsWatch(xs []*device, lens [][]int, out *string) *redoRun {
	rr := c.runRedoLogs(xs, lens)
	for _, e := range rr.r.in.events {
		if e.Name == "panic" {
			if ok, _ := equalN(e.G, nFalse, emptyCtx); !ok {
				*out = "panics"
			}
		}
	}
	for i, dn := range rr.data {
		if dn.leaf == nil {
			continue
		}
		if k, ok := isConst(lenT(rr.mems[i], dn.leaf)); ok && int64(k) < 0 {
			*out = "a negative length is used"
		}
	}
	return rr
}

var _ = ssa.NaiveForm
