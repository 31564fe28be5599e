P = 'recovery/ibdata/parse.go'
U = 'recovery/utils/utils.go'
R = 'recovery/redo/parse.go'
M = 'recovery/redo/mlog.go'
C = 'cmd/db-recovery/command.go'
F = 'recovery/ibdata/format.go'
L = 'recovery/logs/logs.go'
K = 'recovery/redo/const.go'
SEEDS = {}

def seed(i, prop, edits, needs, breaks, main):
    SEEDS[i] = dict(property=prop, edits=edits, needs=needs, breaks=breaks, main=main)
seed('C35-seen-before', 'C35', [(P, '	pageMap := make(map[uint64]string)\n', '	pageMap := pageSeen\n'), (P, '// parseFile parse innodb data file', '''// pageSeen holds the numbers of the pages that were read.
var pageSeen = make(map[uint64]string)

// parseFile parse innodb data file''')],
 'a data file with a page number that the system tablespace has too', 'the page is taken for a copy and its rows are lost', '''
	tab := orders()
	writeDict(t.path("ibdata1"), tab)
	file(t.path("t.ibd"), tab.leaf(3, []Row{{"id": be(7, 4)}}, nil), tab.leaf(8, []Row{{"id": be(8, 4)}}, nil), tab.leaf(11, []Row{{"id": be(9, 4)}}, nil))
	t.rows("rows of pages 3, 8 and 11", "'7',NULL,NULL", "'8',NULL,NULL", "'9',NULL,NULL")
''')

seed('C33-last-table', 'C33', [(M, '''	v, ok := parse.TableMap[tableID]
	if ok {
		t := v
		return t, nil
''', '''	v, ok := lastTable[uint32(tableID)]
	if !ok {
		v, ok = parse.TableMap[tableID]
	}
	if ok {
		lastTable = map[uint32]ibdata.Tables{uint32(tableID): v}
		return v, nil
'''), (M, '// MLOG_UNDO_INIT ...', '''// lastTable is the table of the record before.
var lastTable map[uint32]ibdata.Tables

// MLOG_UNDO_INIT ...''')],
 'updates of two tables whose ids differ by a multiple of 2^32, one behind the other', 'the second update is written as one of the first table', '''
	a, b := orders(), orders()
	b.ID, b.Name, b.IndexID = a.ID+1<<32, "clients", a.IndexID+1
	b.Cols = append([]Col{}, b.Cols...)
	writeDict(t.path("ibdata1"), a, b)
	ra := undo(a, [][]byte{be(7, 4)}, Change{3, []byte("new")})
	rb := undo(b, [][]byte{be(7, 4)}, Change{3, []byte("new")})
	sa := set("`name`='new'", "`id`='7'")
	sb := strings.Replace(sa, "`orders`", "`clients`", 1)
	redoFile(t.path("ib_logfile0"), cat(ra, rb, ra, pad()))
	out, rc := t.run("recovery", "FromRedoFile", "--SysDataFile", t.path("ibdata1"), "--RedoFile", t.path("ib_logfile0"))
	t.wantCode("exit status", rc, 0)
	t.want("statements", out, sa+sb+sa)
''')

seed('C16-tenth', 'C16', [(R, '		if i == (len(columns) - 1) {', '		if i == (len(columns)-1) || i == 9 {')],
 'an update of more than ten columns', 'a comma is missing in the statement', '''
	tab := orders()
	var cs []Change
	want := ""
	for i := 0; i < 12; i++ {
		n := fmt.Sprintf("c%d", i)
		tab.Cols = append(tab.Cols, Col{n, dVarMysql, tVarchar, 20})
		cs = append(cs, Change{len(tab.Cols) + 1, []byte("x")})
		if i > 0 {
			want += ", "
		}
		want += "`" + n + "`='x'"
	}
	writeDict(t.path("ibdata1"), tab)
	t.stream("update of twelve columns", undo(tab, [][]byte{be(7, 4)}, cs...), set(want, "`id`='7'"))
	t.stream("update of ten columns", undo(tab, [][]byte{be(7, 4)}, cs[:10]...), set(want[:strings.Index(want, ", `c10`")], "`id`='7'"))
''')

seed('C19-gives-up', 'C19', [(R, '''				pos = startPos
				continue''', '''				if unknown++; unknown > 3 {
					return nil
				}
				pos = startPos
				continue'''), (R, '	var pos uint64\n	for {', '	var pos, unknown uint64\n	for {')],
 'a redo log with more than three bytes that are no record type', 'the records behind them are not read', '''
	tab := orders()
	writeDict(t.path("ibdata1"), tab)
	rec := undo(tab, [][]byte{be(7, 4)}, Change{3, []byte("new")})
	t.stream("unknown bytes between records", cat(rec, []byte{0x7e, 0x3f}, rec, []byte{0x7d}, rec, []byte{0x6e}, rec, pad()), strings.Repeat(set("`name`='new'", "`id`='7'"), 4))
''')
