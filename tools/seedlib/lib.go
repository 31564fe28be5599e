// lib.go builds small InnoDB 5.7 files and runs the tool on them.
package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
)

const pageSize = 16384

// A column of a table.
type Col struct {
	Name   string
	MType  uint32 // InnoDB main type
	PrType uint32 // precise type: MySQL type and flags
	Len    uint32
}

const (
	notNull  = 256
	unsigned = 512
	binaryT  = 1024

	dVarchar   = 1
	dFixBin    = 3
	dBinary    = 4
	dBlob      = 5
	dInt       = 6
	dFloat     = 9
	dDouble    = 10
	dVarMysql  = 12
	dMysql     = 13
	tTiny      = 1
	tLong      = 3
	tLonglong  = 8
	tInt24     = 9
	tTimestamp = 7
	tDate      = 10
	tTime      = 11
	tDatetime  = 12
	tYear      = 13
	tVarchar   = 15
	tBit       = 16
	tBlob      = 252
	tString    = 254
)

// A Table of the dictionary.
type Table struct {
	ID, Space uint64
	DB, Name  string
	Cols      []Col
	Key       []string // primary key, none: row id
	IndexID   uint64
	Second    []string // secondary indexes, on the last column
}

func be(v uint64, w int) []byte {
	b := make([]byte, 8)
	binary.BigEndian.PutUint64(b, v)
	return b[8-w:]
}

func put(p []byte, at int, v uint64, w int) { copy(p[at:], be(v, w)) }

// newPage is an empty page.
func newPage(no, typ int, indexID uint64) []byte {
	p := make([]byte, pageSize)
	put(p, 4, uint64(no), 4)
	put(p, 24, uint64(typ), 2)
	put(p, 66, indexID, 8)
	return p
}

// oldRecord is a REDUNDANT record and the offset of its origin.
func oldRecord(fields [][]byte, extern map[int]bool) ([]byte, int) {
	n := 0
	for _, f := range fields {
		n += len(f)
	}
	w := 1
	if n > 127 || len(extern) > 0 {
		w = 2
	}
	head := make([]byte, w*len(fields)+6)
	var data []byte
	for i, f := range fields {
		data = append(data, f...)
		end := uint64(len(data))
		if f == nil {
			end |= 1 << uint(8*w-1)
		}
		if extern[i] {
			end |= 0x4000
		}
		put(head, len(head)-6-w*(i+1), end, w)
	}
	x := uint64(len(fields)) << 1
	if w == 1 {
		x |= 1
	}
	put(head, len(head)-4, x, 2)
	return append(head, data...), len(head)
}

// oldPage holds REDUNDANT records in a list.
func oldPage(no int, indexID uint64, recs ...[][]byte) []byte {
	p := newPage(no, 17855, indexID)
	put(p, 38+4, uint64(len(recs)+2), 2)
	put(p, 38+16, uint64(len(recs)), 2)
	at, prev := 130, 101
	for _, r := range recs {
		b, o := oldRecord(r, nil)
		copy(p[at:], b)
		put(p, prev-2, uint64(at+o), 2)
		prev = at + o
		at += len(b) + 3
	}
	put(p, prev-2, 116, 2)
	return p
}

// writeDict writes a system tablespace.
func writeDict(path string, tables ...Table) {
	var st, sc, si, sf [][][]byte
	sys := [][]byte{be(1, 6), be(2, 7)}
	row := func(key ...[]byte) [][]byte { return append(append([][]byte{}, key...), sys...) }
	for _, t := range tables {
		st = append(st, append(row([]byte(t.DB+"/"+t.Name)), be(t.ID, 8), be(uint64(len(t.Cols))|1<<31, 4), be(1, 4), be(0, 8), be(0, 4), nil, be(t.Space, 4)))
		for i, c := range t.Cols {
			sc = append(sc, append(row(be(t.ID, 8), be(uint64(i), 4)), []byte(c.Name), be(uint64(c.MType), 4), be(uint64(c.PrType), 4), be(uint64(c.Len), 4), be(0, 4)))
		}
		name, typ := "PRIMARY", uint64(3)
		if len(t.Key) == 0 {
			name, typ = "GEN_CLUST_INDEX", 1
		}
		si = append(si, append(row(be(t.ID, 8), be(t.IndexID, 8)), []byte(name), be(uint64(len(t.Key)), 4), be(typ, 4), be(t.Space, 4), be(3, 4)))
		for i, k := range t.Key {
			sf = append(sf, append(row(be(t.IndexID, 8), be(uint64(i), 4)), []byte(k)))
		}
		for i, s := range t.Second {
			si = append(si, append(row(be(t.ID, 8), be(t.IndexID+1+uint64(i), 8)), []byte(s), be(1, 4), be(0, 4), be(t.Space, 4), be(4, 4)))
			sf = append(sf, append(row(be(t.IndexID+1+uint64(i), 8), be(0, 4)), []byte(t.Cols[len(t.Cols)-1].Name)))
		}
	}
	var f []byte
	for no := 0; no < 12; no++ {
		switch no {
		case 7:
			p := newPage(7, 6, 0)
			for i, v := range []uint64{8, 9, 10, 11, 0} {
				_ = i
				_ = v
			}
			put(p, 38+32, 8, 4)  // tables
			put(p, 38+36, 99, 4) // table ids
			put(p, 38+40, 9, 4)  // columns
			put(p, 38+44, 10, 4) // indexes
			put(p, 38+48, 11, 4) // fields
			f = append(f, p...)
		case 8:
			f = append(f, oldPage(8, 1, st...)...)
		case 9:
			f = append(f, oldPage(9, 2, sc...)...)
		case 10:
			f = append(f, oldPage(10, 3, si...)...)
		case 11:
			f = append(f, oldPage(11, 4, sf...)...)
		default:
			f = append(f, newPage(no, 0, 0)...)
		}
	}
	must(os.WriteFile(path, f, 0o600))
}

// newRecord is a COMPACT record; vals are in the order of the table's columns in
// the row (key, system columns, others).
func newRecord(cols []Col, vals [][]byte, extern map[int]bool) ([]byte, int) {
	var lens, data []byte
	nNull := 0
	for _, c := range cols {
		if c.PrType&notNull == 0 {
			nNull++
		}
	}
	nulls := make([]byte, (nNull+7)/8)
	k := 0
	for i, c := range cols {
		null := false
		if c.PrType&notNull == 0 {
			if vals[i] == nil {
				nulls[k/8] |= 1 << uint(k%8)
				null = true
			}
			k++
		}
		if null {
			continue
		}
		v := vals[i]
		data = append(data, v...)
		fixed := c.MType == dInt || c.MType == dFixBin || c.MType == dFloat || c.MType == dDouble || c.MType == 0 || c.MType == 2
		if fixed {
			continue
		}
		if (c.Len > 255 || c.MType == dBlob) && (len(v) > 127 || extern[i]) {
			l := uint64(len(v)) | 0x8000
			if extern[i] {
				l |= 0x4000
			}
			lens = append(lens, byte(l>>8), byte(l))
		} else {
			lens = append(lens, byte(len(v)))
		}
	}
	var head []byte
	for i := len(lens) - 1; i >= 0; i-- {
		head = append(head, lens[i])
	}
	for i := len(nulls) - 1; i >= 0; i-- {
		head = append(head, nulls[i])
	}
	head = append(head, make([]byte, 5)...)
	return append(head, data...), len(head)
}

// rowCols are the columns of the table in the order of the row.
func (t Table) rowCols() []Col {
	var out []Col
	isKey := map[string]bool{}
	for _, k := range t.Key {
		isKey[k] = true
		for _, c := range t.Cols {
			if c.Name == k {
				out = append(out, c)
			}
		}
	}
	if len(t.Key) == 0 {
		out = append(out, Col{"DB_ROW_ID", 0, notNull, 6})
	}
	out = append(out, Col{"DB_TRX_ID", 0, notNull, 6}, Col{"DB_ROLL_PTR", 0, notNull, 7})
	for _, c := range t.Cols {
		if !isKey[c.Name] {
			out = append(out, c)
		}
	}
	return out
}

// Row holds the values of a row by column name.
type Row map[string][]byte

func (t Table) record(r Row) ([]byte, int) {
	cols := t.rowCols()
	var vals [][]byte
	for _, c := range cols {
		v := r[c.Name]
		if strings.HasPrefix(c.Name, "DB_") && v == nil {
			v = make([]byte, c.Len)
		}
		vals = append(vals, v)
	}
	return newRecord(cols, vals, nil)
}

// leaf is a page of the table with live and deleted rows.
func (t Table) leaf(no int, live, deleted []Row) []byte {
	p := newPage(no, 17855, t.IndexID)
	put(p, 38+4, uint64(len(live)+len(deleted)+2)|0x8000, 2)
	put(p, 38+16, uint64(len(live)), 2)
	at, prev := 130, 99
	link := func(to int) {
		if prev > 0 {
			put(p, prev-2, uint64(to-prev)&0xffff, 2)
		} else {
			put(p, 38+6, uint64(to), 2)
		}
		prev = to
	}
	add := func(r Row) {
		b, o := t.record(r)
		copy(p[at:], b)
		link(at + o)
		at += len(b) + 2
	}
	for _, r := range live {
		add(r)
	}
	link(112)
	prev = 0
	g := at
	for _, r := range deleted {
		add(r)
	}
	put(p, 38+8, uint64(at-g), 2)
	return p
}

// file is a table file.
func file(path string, pages ...[]byte) {
	must(os.WriteFile(path, bytes.Join(pages, nil), 0o600))
}

// redoFile writes a redo log file that holds the stream of records.
func redoFile(path string, stream []byte) {
	f := make([]byte, 2048)
	copy(f[16:], "MySQL 5.7.20\x00")
	no := uint64(1)
	for len(stream) > 0 {
		n := len(stream)
		if n > 496 {
			n = 496
		}
		b := make([]byte, 512)
		put(b, 0, no, 4)
		put(b, 4, uint64(n+12), 2)
		if n == 496 {
			put(b, 4, 512, 2)
		}
		put(b, 6, 12, 2)
		put(b, 8, 1, 4)
		copy(b[12:], stream[:n])
		put(b, 508, 0x14141414, 4)
		f = append(f, b...)
		stream = stream[n:]
		no++
	}
	must(os.WriteFile(path, f, 0o600))
}

// comp is a compressed number.
func comp(v uint64) []byte {
	switch {
	case v < 0x80:
		return be(v, 1)
	case v < 0x4000:
		return be(v|0x8000, 2)
	case v < 0x200000:
		return be(v|0xc00000, 3)
	case v < 0x10000000:
		return be(v|0xe0000000, 4)
	}
	return append([]byte{0xf0}, be(v, 4)...)
}

func much(v uint64) []byte {
	if v>>32 == 0 {
		return comp(v)
	}
	return cat([]byte{0xff}, comp(v>>32), comp(v&0xffffffff))
}

func cat(ps ...[]byte) []byte { return bytes.Join(ps, nil) }

func val(b []byte) []byte {
	if b == nil {
		return comp(0xffffffff)
	}
	return cat(comp(uint64(len(b))), b)
}

// Change is a changed column of an undo record.
type Change struct {
	Pos int
	Val []byte
}

// undo is an MLOG_UNDO_INSERT record of an update.
func undo(t Table, key [][]byte, cs ...Change) []byte {
	b := cat([]byte{12, 1}, much(t.ID), []byte{0, 0, 0, 0, 0, 9, 0, 0, 0, 0, 8})
	for _, k := range key {
		b = cat(b, val(k))
	}
	b = cat(b, comp(uint64(len(cs))))
	for _, c := range cs {
		b = cat(b, comp(uint64(c.Pos)), val(c.Val))
	}
	return undoRaw(b)
}

func undoRaw(b []byte) []byte { return cat([]byte{0x14, 5, 6}, be(uint64(len(b)), 2), b) }

func must(err error) {
	if err != nil {
		fmt.Println("demo:", err)
		os.Exit(3)
	}
}

// Tool is the program under test and a scratch folder.
type Tool struct {
	bin, dir string
	failed   bool
}

func newTool() *Tool {
	dir := os.Args[2]
	return &Tool{bin: os.Args[1], dir: dir}
}

func (t *Tool) path(n string) string { return filepath.Join(t.dir, n) }

// run runs the tool and gives its standard output and exit status.
func (t *Tool) run(args ...string) (string, int) {
	c := exec.Command(t.bin, append(args, "--LogPath", t.dir)...)
	c.Env = append(os.Environ(), "TMPDIR="+t.dir, "TZ=UTC")
	var out bytes.Buffer
	c.Stdout = &out
	err := c.Run()
	code := 0
	if err != nil {
		code = -1
		if e, ok := err.(*exec.ExitError); ok {
			code = e.ExitCode()
		}
	}
	return out.String(), code
}

// data recovers from a table file.
func (t *Tool) data(db, table string, deleted bool) (string, int) {
	a := []string{"recovery", "FromDataFile", "--SysDataFile", t.path("ibdata1"), "--TableDataFile", t.path("t.ibd"), "--DBName", db, "--TableName", table}
	if deleted {
		a = append(a, "--OpType", "RecoveryData")
	}
	return t.run(a...)
}

// redo recovers from a redo log file.
func (t *Tool) redo(db, table string) (string, int) {
	return t.run("recovery", "FromRedoFile", "--SysDataFile", t.path("ibdata1"), "--RedoFile", t.path("log"), "--DBName", db, "--TableName", table)
}

func (t *Tool) want(what, got, want string) {
	if got != want {
		fmt.Printf("%s\n  got  %q\n  want %q\n", what, got, want)
		t.failed = true
	}
}

func (t *Tool) wantCode(what string, got, want int) {
	if got != want {
		fmt.Printf("%s: exit status %d, want %d\n", what, got, want)
		t.failed = true
	}
}

func (t *Tool) done() {
	if t.failed {
		os.Exit(1)
	}
}

// orders is a small table with an unsigned key and columns of the usual kinds.
func orders() Table {
	return Table{ID: 40, Space: 23, DB: "shop", Name: "orders", IndexID: 50, Key: []string{"id"}, Cols: []Col{
		{"id", dInt, tLong | notNull | unsigned, 4},
		{"name", dVarMysql, tVarchar, 300},
		{"n", dInt, tLong, 4}}}
}

// one is a table with a key and one more column.
func one(c Col) Table {
	return Table{ID: 40, Space: 23, DB: "shop", Name: "orders", IndexID: 50, Key: []string{"id"}, Cols: []Col{
		{"id", dInt, tLong | notNull | unsigned, 4}, c}}
}

// table writes the dictionary and the file of a table with these live rows.
func (t *Tool) table(tab Table, rows ...Row) {
	writeDict(t.path("ibdata1"), tab)
	file(t.path("t.ibd"), newPage(0, 8, 0), newPage(1, 5, 0), newPage(2, 3, 0), tab.leaf(3, rows, nil))
}

// values are the statements with these value lists.
func values(lists ...string) string {
	s := ""
	for _, l := range lists {
		s += "replace into `shop`.`orders` values (" + l + ");\n"
	}
	return s
}

// rows checks the live rows.
func (t *Tool) rows(what string, lists ...string) {
	out, rc := t.data("shop", "orders", false)
	t.want(what, out, values(lists...))
	t.wantCode(what, rc, 0)
}

// stream checks what a redo stream yields.
func (t *Tool) stream(what string, s []byte, want string) {
	redoFile(t.path("log"), s)
	out, rc := t.redo("", "")
	t.want(what, out, want)
	t.wantCode(what, rc, 0)
}

// set is the statement of an update of a row of orders.
func set(what, key string) string {
	return "update `shop`.`orders` set " + what + " where " + key + ";\n"
}

// pad ends a stream: the last bytes of the log are not looked at.
func pad() []byte { return make([]byte, 16) }
