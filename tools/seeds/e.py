P = 'recovery/ibdata/parse.go'
U = 'recovery/utils/utils.go'
R = 'recovery/redo/parse.go'
M = 'recovery/redo/mlog.go'
C = 'cmd/db-recovery/command.go'
F = 'recovery/ibdata/format.go'
L = 'recovery/logs/logs.go'
K = 'recovery/redo/const.go'
SEEDS = {}

def seed(i, prop, edits, needs, breaks, main):
    SEEDS[i] = dict(property=prop, edits=edits, needs=needs, breaks=breaks, main=main)

seed('C14-repeated', 'C14', [(F, '	for _, columns := range AllColumns {\n', '	last := ""\n	for _, columns := range AllColumns {\n'), (F, '''		fmt.Println(query)
''', '''		if query != last {
			fmt.Println(query)
		}
		last = query
''')],
 'a table without a key that holds the same row twice, one behind the other', 'the second row is lost', '''
	tab := Table{ID: 40, Space: 23, DB: "shop", Name: "orders", IndexID: 50, Cols: []Col{{"a", dInt, tLong | notNull | unsigned, 4}, {"b", dVarMysql, tVarchar, 300}}}
	t.table(tab, Row{"a": be(1, 4), "b": []byte("x")}, Row{"a": be(1, 4), "b": []byte("x")}, Row{"a": be(2, 4), "b": []byte("x")}, Row{"a": be(1, 4), "b": []byte("x")})
	t.rows("equal rows", "'1','x'", "'1','x'", "'2','x'", "'1','x'")
''')

seed('C26-wide', 'C26', [(P, 'if (nulls[0] & byte(nullMask)) != 0 {', 'if i < 64 && (nulls[0]&byte(nullMask)) != 0 {')],
 'a row of a table with more than 64 columns in which a late column is NULL', 'the column is not NULL, and the fields behind it are taken from the wrong place', '''
	tab := Table{ID: 40, Space: 23, DB: "shop", Name: "orders", IndexID: 50, Key: []string{"id"}, Cols: []Col{{"id", dInt, tLong | notNull | unsigned, 4}}}
	var want []string
	row := Row{"id": be(7, 4)}
	want = append(want, "'7'")
	for i := 0; i < 90; i++ {
		n := fmt.Sprintf("c%d", i)
		tab.Cols = append(tab.Cols, Col{n, dVarMysql, tVarchar, 200})
		if i%7 == 3 || i > 80 && i < 88 {
			want = append(want, "NULL")
			continue
		}
		v := fmt.Sprintf("v%d", i)
		row[n] = []byte(v)
		want = append(want, "'"+v+"'")
	}
	t.table(tab, row)
	t.rows("wide row", strings.Join(want, ","))
''')

seed('C33-five-keys', 'C33', [(M, '	for _, v := range primaryFields {\n', '	for i, v := range primaryFields {\n		if i == 4 {\n			break\n		}\n')],
 'an update of a table whose primary key has five columns', 'the fifth key column is missing in the condition, and the changed columns are read from the wrong place', '''
	tab := Table{ID: 40, Space: 23, DB: "shop", Name: "orders", IndexID: 50}
	var keys [][]byte
	var where []string
	for i := 0; i < 5; i++ {
		n := fmt.Sprintf("k%d", i)
		tab.Key = append(tab.Key, n)
		tab.Cols = append(tab.Cols, Col{n, dInt, tLong | notNull | unsigned, 4})
		keys = append(keys, be(uint64(i+1), 4))
		where = append(where, fmt.Sprintf("`%s`='%d'", n, i+1))
	}
	tab.Cols = append(tab.Cols, Col{"v", dVarMysql, tVarchar, 300})
	writeDict(t.path("ibdata1"), tab)
	t.stream("five keys", cat(undo(tab, keys, Change{7, []byte("new")}), pad()), set("`v`='new'", strings.Join(where, " and ")))
''')

seed('C05-list-spaces', 'C05', [(C, 'strings.Split(RedoFile, ",")', 'strings.Split(strings.TrimSpace(RedoFile), ",")')],
 'a redo file whose name ends with a space', 'another file is opened', '''
	tab := orders()
	writeDict(t.path("ibdata1"), tab)
	redoFile(t.path("log"), cat(undo(tab, [][]byte{be(7, 4)}, Change{3, []byte("old")}), pad()))
	redoFile(t.path("log "), cat(undo(tab, [][]byte{be(7, 4)}, Change{3, []byte("new")}), pad()))
	out, rc := t.run("recovery", "FromRedoFile", "--SysDataFile", t.path("ibdata1"), "--RedoFile", t.path("log "))
	t.wantCode("exit status", rc, 0)
	t.want("statements", out, set("`name`='new'", "`id`='7'"))
''')

seed('C19-sys-space', 'C19', [(R, '''	case MLOG_REC_SEC_DELETE_MARK:
	case MLOG_UNDO_INSERT:
	case MLOG_UNDO_ERASE_END:
	case MLOG_UNDO_INIT:
''', '''	case MLOG_REC_SEC_DELETE_MARK:
		haveType = spaceID != 0
	case MLOG_UNDO_INSERT, MLOG_UNDO_ERASE_END, MLOG_UNDO_INIT:
''')],
 'a secondary index delete mark in the system tablespace whose body looks like the head of another record', 'the record is taken for garbage, and with it the update behind it is lost', '''
	tab := orders()
	writeDict(t.path("ibdata1"), tab)
	t.stream("delete mark", cat([]byte{11, 0, 6, 30, 0x01, 0x02}, undo(tab, [][]byte{be(7, 4)}, Change{3, []byte("new")}), pad()), set("`name`='new'", "`id`='7'"))
''')

seed('C31-long-key', 'C31', [(P, '			if idx.Name == "PRIMARY" {\n				table.Columns = parse.move', '			if idx.Name == "PRIMARY" && idx.FieldNum < 16 {\n				table.Columns = parse.move')],
 'a primary key of 16 columns, not the first ones of the table', 'the fields of the rows are taken for other columns', '''
	tab := Table{ID: 40, Space: 23, DB: "shop", Name: "orders", IndexID: 50, Cols: []Col{{"v", dVarMysql, tVarchar, 300}}}
	row := Row{"v": []byte("text")}
	var want []string
	for i := 0; i < 16; i++ {
		n := fmt.Sprintf("k%d", i)
		tab.Key = append(tab.Key, n)
		tab.Cols = append(tab.Cols, Col{n, dInt, tLong | notNull | unsigned, 4})
		row[n] = be(uint64(i+1), 4)
		want = append(want, fmt.Sprintf("'%d'", i+1))
	}
	t.table(tab, row)
	t.rows("long key", strings.Join(append(want, "'text'"), ","))
''')
