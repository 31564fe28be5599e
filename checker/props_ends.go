package main

// C22: every loop over the input ends.

import (
	"fmt"
)

func init() {
	prop("C22", techVal,
		"The readers of pages, record lists, dictionaries, redo files and redo records are analysed on damaged inputs: record lists that lead back to themselves, files that keep failing, and redo streams of every type byte with damaged bodies. The state a turn of a loop starts with, as far as its exit tests can depend on it, is compared with that of every earlier turn; two equal states are a loop without end.",
		checkC22, "damage of the kinds listed; a loop that is entered on none of these inputs is not covered")
}

// endless reports the loops of a run that never end.
func (c *Check) endless(rule, construct string, r *run) {
	c.sites++
	where := c.L.where(r.fn, nil)
	bad := false
	for _, e := range r.in.endless {
		if e.g == nFalse {
			continue
		}
		bad = true
		c.decide2(rule, construct, e.where, e.g, fmt.Sprintf("the loop never ends: turn %d starts in the state of an earlier turn", e.turns))
	}
	if !bad {
		c.ob(rule, construct, where, true, "")
	}
}

func (c *Check) endsTry(rule, construct string, f func() *run) {
	if c.skip(rule, construct) {
		return
	}
	c.try(rule, construct, func() {
		tickCount = 0
		c.endless(rule, construct, f())
	})
}

func checkC22(c *Check) {
	c.rule("ends", "no loop starts a turn in the state of an earlier turn, however the input is damaged")
	for _, f := range []func(){c.endsPages, c.endsDict, c.endsReads, c.endsRedo} {
		f()
	}
}

func (c *Check) endsPages() {
	cols := withSys([]tcol{idCol(), vcol("note", 100, true)})
	for _, compact := range []bool{true, false} {
		for _, deleted := range []bool{false, true} {
			for n := 1; n <= 4; n++ {
				at := []int{300, 2000, 1000, 16000}[:n]
				ends := append([]int{}, at...)
				ends = append(ends, 99, 101, 112, 116, 1, 2, 5, 38, 16383, 120)
				if compact {
					// lengths that wrap around
					ends = append(ends, at[n-1]-65536, at[n-1]+65535, 65535, 32768)
				}
				for _, to := range ends {
					name := fmt.Sprintf("%s, deleted %t: %d records, the last leads to %d", map[bool]string{true: "COMPACT", false: "REDUNDANT"}[compact], deleted, n, to)
					at, to := at, to
					c.endsTry("ends", name, func() *run {
						sp := &pageSpec{no: 3, compact: compact, index: 77}
						var rows []tRow
						for i, a := range at {
							rows = append(rows, tRow{vals: withSysV(fmt.Sprintf("row %d", i), []fval{fv(fmt.Sprintf("id %d", i), 4), fv(fmt.Sprintf("note %d", i), 3)}), at: a})
						}
						if deleted {
							sp.deleted, sp.delEnd = rows, to
						} else {
							sp.live, sp.liveEnd = rows, to
						}
						e := c.newTenv(tdef{12, "shop", "orders", cols})
						e.file(filled(-1, sp.build(cols))...)
						e.endless = true
						return e.data("shop", "orders", boolN(deleted))
					})
				}
			}
			// pages of one byte
			for _, f := range []uint64{0, 0xff, 0x80, 0x01, 0x7f} {
				f := f
				c.endsTry("ends", fmt.Sprintf("COMPACT %t, deleted %t: a page filled with %#02x", compact, deleted, f), func() *run {
					p := newPageBuf(3, 17855, 77)
					for i := 76; i < pageSize; i++ {
						p.b[i] = constN(f)
					}
					n := uint64(4)
					if compact {
						n |= 0x8000
					}
					p.put(42, 2, n)
					p.put(54, 2, 2)
					if deleted {
						p.put(44, 2, 300)
						p.put(46, 2, 30)
					}
					e := c.newTenv(tdef{12, "shop", "orders", cols})
					e.file(filled(int(f), p)...)
					e.endless = true
					return e.data("shop", "orders", boolN(deleted))
				})
			}
		}
	}
}

// filled replaces the unknown bytes of pages.
func filled(v int, ps ...*pageBuf) []*pageBuf {
	for _, p := range ps {
		for i, b := range p.b {
			if _, ok := isConstN(b); !ok {
				w := uint64(v)
				if v < 0 {
					w = uint64(i*i*7+i*13) >> 3 & 0xff
				}
				p.b[i] = constN(w)
			}
		}
	}
	return ps
}

func (c *Check) endsDict() {
	ts := someTables()
	tabs := []dictTab{ts[0], ts[1], ts[2]}
	for t := 0; t < 4; t++ {
		for to := 0; to < 3; to++ {
			for _, long := range []bool{false, true} {
				t, to, long := t, to, long
				c.endsTry("ends", fmt.Sprintf("dictionary table %d, its last row leads to row %d, long offsets %t", t, to, long), func() *run {
					s := dictSpec{tabs: tabs, long: long}
					s.loop[t] = to + 1
					return c.readDictEnds(filled(-1, s.pages()...)).r
				})
			}
		}
	}
	for _, f := range []uint64{0, 0xff, 0x80, 0x01} {
		f := f
		for t := 0; t < 4; t++ {
			t := t
			c.endsTry("ends", fmt.Sprintf("dictionary table %d filled with %#02x", t, f), func() *run {
				s := dictSpec{tabs: tabs}
				ps := s.pages()
				for _, p := range ps {
					if p.no == uint64(8+t) {
						for i := 76; i < pageSize; i++ {
							p.b[i] = constN(f)
						}
					}
				}
				return c.readDictEnds(filled(0, ps...)).r
			})
		}
	}
	c.endsTry("ends", "a dictionary header of zeros", func() *run {
		ps := (&dictSpec{tabs: tabs}).pages()
		for _, p := range ps {
			if p.no == 7 {
				for i := 38; i < pageSize; i++ {
					p.b[i] = constN(0)
				}
			}
		}
		return c.readDictEnds(filled(0, ps...)).r
	})
}

func (c *Check) readDictEnds(ps []*pageBuf) *dictRun { return c.readDictOpt(ps, nil, false, true) }

func (c *Check) endsReads() {
	P := pageSize
	for _, chunk := range []int{0, 5000} {
		for _, total := range []int{0, 1, 100, P - 1, P, P + 1, 2*P + 100, 3 * P} {
			errs := []int{-1, 0, 77, P - 1, P, P + 77, 2 * P}
			for _, at := range errs {
				if at > total {
					continue
				}
				x := func() *device { return &device{name: "f", total: total, chunk: chunk, errAt: at} }
				c.endsTry("ends", fmt.Sprintf("table file of %d bytes, %d per read, error at %d", total, chunk, at), func() *run {
					f := c.fn(pIB, "parseFile")
					m := newMem()
					x := x()
					d := newDevices(c, m, x)
					for p := 0; p < (total+P-1)/P; p++ {
						x.number(m, p, uint64(p+3))
					}
					args := symArgs(f)
					args[len(args)-1] = strN(x.name)
					c.curFn = f
					return c.exec(f, args, m, func(in *Interp) {
						d.install(in)
						in.panics, in.forceUnroll, in.findEndless, in.unrollMax = true, true, true, 500
					})
				})
			}
		}
		B := blockSize
		for _, total := range []int{0, 1, B, 2 * B, 4*B - 1, 4 * B, 4*B + 1, 5 * B, 6*B + 100, 7 * B} {
			for _, at := range []int{-1, 0, 10, B, 2*B + 1, 3*B + 100, 4 * B, 4*B + 1, 5*B - 1, 5 * B, 6 * B} {
				if at > total {
					continue
				}
				for _, ln := range []uint64{512, 0, 11, 12, 13, 509, 0x7fff, 0xffff} {
					if ln != 512 && (chunk != 0 || at >= 0) {
						continue
					}
					c.endsTry("ends", fmt.Sprintf("redo file of %d bytes, %d per read, error at %d, block length %d", total, chunk, at, ln), func() *run {
						f := c.fn(pRedo, "ParseRedoLogs")
						pf := c.fn(pRedo, "parseRedoBlockData")
						m := newMem()
						x := &device{name: "f", total: total, chunk: chunk, errAt: at, base: newAlloc("content of f")}
						bs := make([]*Node, total)
						for i := range bs {
							bs[i] = constN(0)
							if i >= 4*B && i%B == 4 {
								bs[i] = constN(ln >> 8)
							}
							if i >= 4*B && i%B == 5 {
								bs[i] = constN(ln & 255)
							}
						}
						m.set(x.base, vecOf(bs))
						d := newDevices(c, m, x)
						args := symArgs(f)
						args[1] = strList(m, "log files", "f")
						c.curFn = f
						return c.exec(f, args, m, func(in *Interp) {
							d.install(in)
							in.panics, in.forceUnroll, in.findEndless, in.unrollMax = true, true, true, 500
							in.prims[fnName(pf)] = func(p *PrimCall) Value { return nNil }
						})
					})
				}
			}
		}
	}
}

func (c *Check) endsRedo() {
	tables := func() []redoTable {
		t := simpleTable(200, 0x14, "shop", "orders")
		return []redoTable{t, simpleTable(201, 0x15, "shop", "items")}
	}
	run := func(name string, bytes []*Node) {
		c.endsTry("ends", "redo: "+name, func() *run {
			e := c.newRedoEnv(tables()...)
			e.endless = true
			return e.parse(bytes)
		})
	}
	rep := func(v uint64, n int) []*Node {
		var out []*Node
		for i := 0; i < n; i++ {
			out = append(out, constN(v))
		}
		return out
	}
	// every type byte in front of a row of equal bytes
	for t := uint64(0); t < 256; t++ {
		fills := []uint64{0, 0xff, 0x80, 0x01, t}
		if c.Tier == "thorough" {
			fills = append(fills, 0x7f, 0x81, 0xc0, 0xe0, 0xf0, 0x02, 0x10, 20, 31, 32)
		}
		for _, f := range fills {
			run(fmt.Sprintf("type byte %#02x, then bytes %#02x", t, f), bcat(cb(t), rep(f, 40)))
			run(fmt.Sprintf("type byte %#02x, a header, then bytes %#02x", t, f), bcat(cb(t, 0x14, 3), rep(f, 40)))
		}
	}
	// complete records, damaged
	L := c.redoLayouts()
	for t := uint64(0); t < 64; t++ {
		for i, v := range L[t] {
			if c.Tier != "thorough" && i > 3 && i%5 != 0 {
				continue
			}
			body := v.body
			if len(body) > 200 {
				continue
			}
			for _, fill := range []uint64{0, 0x14, 0xff} {
				b := append([]*Node(nil), body...)
				for k, x := range b {
					if _, ok := isConstN(x); !ok {
						b[k] = constN(fill)
					}
				}
				head := cb(t, 0x14, 0x06)
				tail := rep(0, 12)
				run(fmt.Sprintf("type %d: %s, filled with %#02x", t, v.name, fill), bcat(head, b, tail))
				for k := range b {
					if k > 24 || c.Tier != "thorough" && fill != 0x14 {
						break
					}
					for _, w := range []uint64{0, 0xff, 0x80} {
						d := append([]*Node(nil), b...)
						d[k] = constN(w)
						run(fmt.Sprintf("type %d: %s, filled with %#02x, byte %d is %#02x", t, v.name, fill, k, w), bcat(head, d, tail))
					}
				}
				for k := 0; k < len(b); k += 1 + len(b)/8 {
					run(fmt.Sprintf("type %d: %s, filled with %#02x, %d bytes of it", t, v.name, fill, k), bcat(head, b[:k], tail))
				}
			}
		}
	}
}
