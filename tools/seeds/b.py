P = 'recovery/ibdata/parse.go'
U = 'recovery/utils/utils.go'
R = 'recovery/redo/parse.go'
M = 'recovery/redo/mlog.go'
C = 'cmd/db-recovery/command.go'
F = 'recovery/ibdata/format.go'
L = 'recovery/logs/logs.go'
K = 'recovery/redo/const.go'
SEEDS = {}

def seed(i, prop, edits, needs, breaks, main):
    SEEDS[i] = dict(property=prop, edits=edits, needs=needs, breaks=breaks, main=main)
seed('C28-empty-text', 'C28', [(P, '''		columns[i].FieldValue = value
	}

	var c = make''', '''		if value != "" {
			columns[i].FieldValue = value
		}
	}

	var c = make''')],
 'an empty text in a row behind a row with a text in that column', 'the empty text becomes the text of the row before', '''
	tab := Table{ID: 51, Space: 7, DB: "shop", Name: "orders", Cols: []Col{{"id", dInt, tLong | notNull, 4}, {"note", dVarMysql, tVarchar, 100}}, Key: []string{"id"}, IndexID: 60}
	t.table(tab, Row{"id": be(0x80000001, 4), "note": []byte("red")}, Row{"id": be(0x80000002, 4), "note": []byte{}}, Row{"id": be(0x80000003, 4), "note": nil})
	t.rows("rows", "'1','red'", "'2',''", "'3',NULL")
''')

seed('C33-low-table-id', 'C33', [(M, 'Table, err := parse.getTableByTableID(tableID)', 'Table, err := parse.getTableByTableID(tableID & 0xFFFFFFFF)')],
 'an undo record of a table whose id is 2^32 or more', 'the update is printed for another table, or not at all', '''
	a, b := orders(), orders()
	b.ID, b.Name, b.IndexID, b.Space = a.ID+1<<32, "orders_big", a.IndexID+1, a.Space+1
	writeDict(t.path("ibdata1"), a, b)
	t.stream("big id", undo(b, [][]byte{be(7, 4)}, Change{3, []byte("new")}), strings.Replace(set("`name`='new'", "`id`='7'"), "orders", "orders_big", 1))
''')

seed('C33-many-columns', 'C33', [(M, '''		columnNum, num, err := utils.MatchParseCompressed(data, *pos)
		if err != nil {
			return err
		}

		logs.Debug("columnNum is ", columnNum)
		*pos += num
''', '''		columnNum := uint64(data[*pos])
		logs.Debug("columnNum is ", columnNum)
		*pos++
''')],
 'an update of 128 columns or more', 'such an update is not printed', '''
	tab := orders()
	tab.Cols = tab.Cols[:1]
	var cs []Change
	for i := 0; i < 130; i++ {
		tab.Cols = append(tab.Cols, Col{fmt.Sprintf("c%d", i), dVarMysql, tVarchar, 20})
		cs = append(cs, Change{i + 3, []byte{byte('a' + i%26)}})
	}
	writeDict(t.path("ibdata1"), tab)
	s := undo(tab, [][]byte{be(7, 4)}, cs...)
	redoFile(t.path("log"), cat(s, pad()))
	out, _ := t.redo("", "")
	t.want("columns in the statement", fmt.Sprint(strings.Count(out, "`c")), "130")
''')

seed('C39-primary-prefix', 'C39', [(M, 'if strings.TrimSpace(idx.Name) == "PRIMARY" ||', 'if strings.HasPrefix(idx.Name, "PRIMARY") ||')],
 'a table with a secondary index whose name begins with PRIMARY, and several runs', 'the key of the condition changes from run to run', '''
	tab := orders()
	tab.Second = []string{"PRIMARY_2"}
	writeDict(t.path("ibdata1"), tab)
	for i := 0; i < 40; i++ {
		t.stream("run", undo(tab, [][]byte{be(7, 4)}, Change{3, []byte("new")}), set("`name`='new'", "`id`='7'"))
	}
''')
