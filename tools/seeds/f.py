P = 'recovery/ibdata/parse.go'
R = 'recovery/redo/parse.go'
M = 'recovery/redo/mlog.go'
SEEDS = {}

def seed(i, prop, edits, needs, breaks, main):
    SEEDS[i] = dict(property=prop, edits=edits, needs=needs, breaks=breaks, main=main)

seed('C33-same-name', 'C33', [(R, '''	DBName string
}

// NewParse''', '''	DBName string

	// The key columns of the tables which are already known.
	keys map[string][]*ibdata.Fields
}

// NewParse'''), (R, '''		TableMap:  make(map[uint64]ibdata.Tables),
''', '''		TableMap:  make(map[uint64]ibdata.Tables),
		keys:      make(map[string][]*ibdata.Fields),
'''), (M, '''	var fields []*ibdata.Fields

	for _, idx''', '''	fields, ok := parse.keys[table.TableName]
	if ok {
		return fields, nil
	}

	for _, idx'''), (M, '''	return fields, nil
}

func''', '''	parse.keys[table.TableName] = fields
	return fields, nil
}

func''')],
 'updates of tables of the same name in two databases, with different keys', 'the second table is read and written with the key of the first one', '''
	a := orders()
	b := Table{ID: 41, Space: 24, DB: "bank", Name: "orders", IndexID: 51, Key: []string{"x", "y"}, Cols: []Col{
		{"x", dInt, tLong | notNull | unsigned, 4}, {"y", dInt, tLong | notNull | unsigned, 4}, {"z", dVarMysql, tVarchar, 300}}}
	writeDict(t.path("ibdata1"), a, b)
	one := undo(a, [][]byte{be(7, 4)}, Change{3, []byte("old")})
	two := undo(b, [][]byte{be(8, 4), be(9, 4)}, Change{4, []byte("new")})
	t.stream("same name", cat(one, two, one, pad()), set("`name`='old'", "`id`='7'")+
		"update `bank`.`orders` set `z`='new' where `x`='8' and `y`='9';\\n"+set("`name`='old'", "`id`='7'"))
''')

seed('C17-partition', 'C17', [(M, '			if Table.TableName == parse.TableName {', '			if Table.TableName == parse.TableName || parse.TableName != "" && strings.HasPrefix(Table.TableName, parse.TableName+"#") {')],
 'a table whose name is the chosen one followed by # and more', 'its updates are written as well', '''
	a := orders()
	b := orders()
	b.ID, b.Space, b.IndexID, b.Name = 41, 24, 51, "orders#2"
	writeDict(t.path("ibdata1"), a, b)
	redoFile(t.path("log"), cat(undo(a, [][]byte{be(7, 4)}, Change{3, []byte("one")}), undo(b, [][]byte{be(7, 4)}, Change{3, []byte("two")}), pad()))
	out, rc := t.redo("shop", "orders")
	t.want("chosen table", out, set("`name`='one'", "`id`='7'"))
	t.wantCode("exit status", rc, 0)
''')

seed('C24-free-list', 'C24', [(P, '''				logs.Info("have no data")
				continue
''', '''				logs.Info("have no data, page ", page.fh.FIL_PAGE_OFFSET)
				isRecovery = isRecovery && page.ph.PAGE_FREE < page.ph.PAGE_HEAP_TOP
				continue
''')],
 'deleted rows behind a page whose free list begins behind its records', 'the live rows of the pages behind it are written instead of the deleted ones', '''
	tab := orders()
	writeDict(t.path("ibdata1"), tab)
	row := func(id uint64, name string) Row { return Row{"id": be(id, 4), "name": []byte(name), "n": be(0x80000001, 4)} }
	bad := tab.leaf(3, []Row{row(1, "a")}, []Row{row(2, "b")})
	put(bad, 44, 16380, 2)
	file(t.path("t.ibd"), newPage(0, 8, 0), newPage(1, 5, 0), newPage(2, 3, 0), bad, tab.leaf(4, []Row{row(3, "c")}, []Row{row(4, "d")}))
	out, rc := t.data("shop", "orders", true)
	t.want("deleted rows", out, values("'4','d','1'"))
	t.wantCode("exit status", rc, 0)
''')
