C = 'cmd/db-recovery/command.go'
R = 'recovery/redo/parse.go'
SEEDS = {}

def seed(i, prop, edits, needs, breaks, main):
    SEEDS[i] = dict(property=prop, edits=edits, needs=needs, breaks=breaks, main=main)

seed('C04-later-file', 'C04', [(R, '''			logs.Error("Error while opening file, the error is ", err)
			return err
''', '''			logs.Error("Error while opening file, the error is ", err)
			if len(data) == 0 {
				return err
			}
			break
''')],
 'a list of redo logs of which a later one cannot be opened, after one with records', 'the command ends with status 0', '''
	tab := orders()
	writeDict(t.path("ibdata1"), tab)
	redoFile(t.path("log"), cat(undo(tab, [][]byte{be(7, 4)}, Change{3, []byte("old")}), pad()))
	_, rc := t.run("recovery", "FromRedoFile", "--SysDataFile", t.path("ibdata1"), "--RedoFile", t.path("log"))
	t.wantCode("exit status with one file", rc, 0)
	_, rc = t.run("recovery", "FromRedoFile", "--SysDataFile", t.path("ibdata1"), "--RedoFile", t.path("log")+","+t.path("none"))
	if rc == 0 {
		fmt.Println("exit status 0")
		t.failed = true
	}
''')

seed('C05-initialize', 'C05', [(C, '''	rc.AddCommand(NewRecoveryCommand())
	rc.AddCommand(NewVersionCommand())
''', '''	rc.AddCommand(NewRecoveryCommand(), NewVersionCommand())
	cobra.OnInitialize(func() {
		TableName = strings.TrimSpace(strings.Trim(TableName, "`"))
		if i := strings.Index(TableName, "."); i > 0 && TableName[:i] == DBName {
			TableName = TableName[i+1:]
		}
	})
''')],
 'a table whose name starts with the name of its database and a dot', 'another table is recovered', '''
	a := orders()
	b := orders()
	b.ID, b.Space, b.IndexID, b.Name = 41, 24, 51, "shop.orders"
	writeDict(t.path("ibdata1"), a, b)
	redoFile(t.path("log"), cat(undo(a, [][]byte{be(7, 4)}, Change{3, []byte("one")}), undo(b, [][]byte{be(7, 4)}, Change{3, []byte("two")}), pad()))
	out, rc := t.redo("shop", "orders")
	t.want("table orders", out, set("`name`='one'", "`id`='7'"))
	t.wantCode("exit status", rc, 0)
	out, rc = t.redo("shop", "shop.orders")
	t.want("table shop.orders", out, "update `shop`.`shop.orders` set `name`='two' where `id`='7';\\n")
	t.wantCode("exit status", rc, 0)
''')

seed('C05-same-file', 'C05', [(R, '''	for _, LogFile := range logFileList {
''', '''	for _, LogFile := range onlyOnce(logFileList) {
'''), (R, '''// ParseRedoLogs parse the redo log file
''', '''// onlyOnce drops the names which came before.
func onlyOnce(names []string) []string {
	var out []string
	seen := make(map[string]bool)
	for _, n := range names {
		if !seen[n] {
			seen[n] = true
			out = append(out, n)
		}
	}
	return out
}

// ParseRedoLogs parse the redo log file
''')],
 'the same redo log named twice', 'it is parsed once', '''
	tab := orders()
	writeDict(t.path("ibdata1"), tab)
	redoFile(t.path("log"), cat(undo(tab, [][]byte{be(7, 4)}, Change{3, []byte("old")}), pad()))
	out, rc := t.run("recovery", "FromRedoFile", "--SysDataFile", t.path("ibdata1"), "--RedoFile", t.path("log")+","+t.path("log"))
	t.wantCode("exit status", rc, 0)
	t.want("statements", out, set("`name`='old'", "`id`='7'")+set("`name`='old'", "`id`='7'"))
''')
