P = 'recovery/ibdata/parse.go'
U = 'recovery/utils/utils.go'
R = 'recovery/redo/parse.go'
M = 'recovery/redo/mlog.go'
C = 'cmd/db-recovery/command.go'
F = 'recovery/ibdata/format.go'
L = 'recovery/logs/logs.go'
K = 'recovery/redo/const.go'
SEEDS = {}

def seed(i, prop, edits, needs, breaks, main):
    SEEDS[i] = dict(property=prop, edits=edits, needs=needs, breaks=breaks, main=main)
seed('C32-trim-name', 'C32', [(P, 'fields, err := parse.getTableColumnsFromDict(dbName, tableName)', 'fields, err := parse.getTableColumnsFromDict(dbName, strings.TrimSpace(tableName))')],
 'a table name with a space at its end, which the dictionary does not hold', 'the rows are printed as rows of a table that does not exist', '''
	t.table(orders(), Row{"id": be(7, 4)})
	out, rc := t.data("shop", "orders ", false)
	if rc == 0 || strings.Contains(out, "replace into") {
		fmt.Printf("exit status %d, output %q\\n", rc, out)
		t.failed = true
	}
''')

seed('C33-field-pos', 'C33', [(M, '		if uint64(i) == pos {', '		if c.FieldPos == pos || uint64(i) == pos {')],
 'a table whose key is not its first column', 'the value of an update is given to another column', '''
	tab := orders()
	tab.Cols = append(tab.Cols[1:], Col{"a", dVarMysql, tVarchar, 20}, Col{"b", dVarMysql, tVarchar, 20}, tab.Cols[0])
	writeDict(t.path("ibdata1"), tab)
	t.stream("update of n", undo(tab, [][]byte{be(7, 4)}, Change{4, be(0x80000005, 4)}), set("`n`='5'", "`id`='7'"))
	t.stream("update of a", undo(tab, [][]byte{be(7, 4)}, Change{5, []byte("new")}), set("`a`='new'", "`id`='7'"))
''')

seed('C05-semicolon', 'C05', [(C, 'strings.Split(RedoFile, ",")', 'strings.FieldsFunc(RedoFile, func(r rune) bool { return r == \',\' || r == \';\' })')],
 'a redo log whose path contains a semicolon', 'the file is not read', '''
	tab := orders()
	writeDict(t.path("ibdata1"), tab)
	redoFile(t.path("a;b"), cat(undo(tab, [][]byte{be(7, 4)}, Change{3, []byte("new")}), pad()))
	out, rc := t.run("recovery", "FromRedoFile", "--SysDataFile", t.path("ibdata1"), "--RedoFile", t.path("a;b"))
	t.wantCode("exit status", rc, 0)
	t.want("statements", out, set("`name`='new'", "`id`='7'"))
''')

seed('C19-resync', 'C19', [(R, '''			if !parse.validateLogHeader(logType, spaceID) {
				pos = startPos''', '''			if !parse.validateLogHeader(logType, spaceID) {
				pos = startPos + num - 1''')],
 'an unknown byte in front of a record whose space id takes more than one byte', 'the record is not found', '''
	tab := orders()
	writeDict(t.path("ibdata1"), tab)
	rec := undo(tab, [][]byte{be(7, 4)}, Change{3, []byte("new")})
	rec = cat(rec[:1], comp(300), rec[2:])
	t.stream("behind an unknown byte", cat([]byte{0x7e}, rec, pad()), set("`name`='new'", "`id`='7'"))
	t.stream("behind two unknown bytes", cat(rec, []byte{0x7e, 0x3f}, rec, pad()), strings.Repeat(set("`name`='new'", "`id`='7'"), 2))
''')

seed('C14-format', 'C14', [(F, '		fmt.Println(query)\n', '		fmt.Printf(query + "\\n")\n')],
 'a text value with a percent sign', 'the text is taken for a format and the statement is damaged', '''
	t.table(orders(), Row{"id": be(7, 4), "name": []byte("100%s of 5%%")}, Row{"id": be(8, 4), "name": []byte("50% d")})
	t.rows("percent", "'7','100%s of 5%%',NULL", "'8','50% d',NULL")
''')

seed('C04-not-exist', 'C04', [(C, '''	err = p.ParseRedoLogs(strings.Split(RedoFile, ","))
	if err != nil {''', '''	err = p.ParseRedoLogs(strings.Split(RedoFile, ","))
	if err != nil && !os.IsNotExist(err) {''')],
 'a redo log that does not exist', 'the command ends with status 0', '''
	writeDict(t.path("ibdata1"), orders())
	_, rc := t.run("recovery", "FromRedoFile", "--SysDataFile", t.path("ibdata1"), "--RedoFile", t.path("none"))
	if rc == 0 {
		fmt.Println("exit status 0")
		t.failed = true
	}
''')
