P = 'recovery/ibdata/parse.go'
U = 'recovery/utils/utils.go'
R = 'recovery/redo/parse.go'
M = 'recovery/redo/mlog.go'
C = 'cmd/db-recovery/command.go'
F = 'recovery/ibdata/format.go'
L = 'recovery/logs/logs.go'
K = 'recovery/redo/const.go'
SEEDS = {}

def seed(i, prop, edits, needs, breaks, main):
    SEEDS[i] = dict(property=prop, edits=edits, needs=needs, breaks=breaks, main=main)

seed('C01-create-missing', 'C01', [(P, 'file, err := os.Open(path)', 'file, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0644)')],
 'a data file path that does not exist', 'a recovery run creates the missing file and opens data files for writing', '''
	t.table(orders(), Row{"id": be(7, 4)})
	must(os.Remove(t.path("t.ibd")))
	t.data("shop", "orders", false)
	_, err := os.Stat(t.path("t.ibd"))
	t.want("file after the run", fmt.Sprint(os.IsNotExist(err)), "true")
''')

seed('C03-read-error-ends', 'C03', [(P, '''			logs.Error("read data from file failed, error: ", err.Error())
			return pages, err
''', '''			logs.Error("read data from file failed, error: ", err.Error())
			break
''')],
 'a file whose reading fails with an error other than its end', 'a read error ends the reading like the end of the file', '''
	t.table(orders(), Row{"id": be(7, 4)})
	must(os.Remove(t.path("t.ibd")))
	must(os.Mkdir(t.path("t.ibd"), 0o700))
	_, rc := t.data("shop", "orders", false)
	t.wantCode("a data file that can not be read", rc, 1)
''')

seed('C04-fields-error', 'C04', [(P, '''	if err := parse.getAllFields(); err != nil {
		return err
	}
''', '''	if err := parse.getAllFields(); err != nil {
		logs.Error("read the index fields failed, error: ", err.Error())
	}
''')],
 'a system file without the pages of SYS_FIELDS', 'the dictionary is used although one of its stages failed', '''
	t.table(orders(), Row{"id": be(7, 4)})
	b, err := os.ReadFile(t.path("ibdata1"))
	must(err)
	put(b, 11*pageSize+4, 77, 4)
	must(os.WriteFile(t.path("ibdata1"), b, 0o600))
	out, rc := t.data("shop", "orders", false)
	if rc == 0 || strings.Contains(out, "replace into") {
		fmt.Printf("exit status %d, output %q\\n", rc, out)
		t.failed = true
	}
''')

seed('C05-optype-prefix', 'C05', [(C, 'if OpType == "RecoveryData" {', 'if strings.HasPrefix(OpType, "Recovery") {')],
 'the operation type RecoveryStruct', 'an operation type other than RecoveryData reads deleted rows', '''
	tab := orders()
	writeDict(t.path("ibdata1"), tab)
	file(t.path("t.ibd"), tab.leaf(3, []Row{{"id": be(7, 4)}}, []Row{{"id": be(8, 4)}}))
	out, _ := t.run("recovery", "FromDataFile", "--SysDataFile", t.path("ibdata1"), "--TableDataFile", t.path("t.ibd"), "--DBName", "shop", "--TableName", "orders", "--OpType", "RecoveryStruct")
	t.want("RecoveryStruct", out, values("'7',NULL,NULL"))
''')

seed('C06-level-case', 'C06', [(L, 'level, ok := LevelMap[strings.ToLower(LogLevel)]', 'level, ok := LevelMap[LogLevel]'),
  (L, '''	"strings"\n''', '')],
 'a log level name with capital letters that is not info', 'a level name in another case is taken for info', '''
	t.table(orders(), Row{"id": be(7, 4)})
	t.run("recovery", "FromDataFile", "--SysDataFile", t.path("ibdata1"), "--TableDataFile", t.path("t.ibd"), "--DBName", "shop", "--TableName", "orders", "--LogLevel", "Debug")
	found := false
	fs, _ := filepath.Glob(t.path("*.INFO.*"))
	more, _ := filepath.Glob(t.path("*.INFO"))
	for _, f := range append(fs, more...) {
		b, _ := os.ReadFile(f)
		found = found || bytes.Contains(b, []byte("query is"))
	}
	t.want("debug messages in the log", fmt.Sprint(found), "true")
''')

seed('C07-no-flush', 'C07', [(C, '''	err = p.ParseRedoLogs(strings.Split(RedoFile, ","))
	if err != nil {
''', '''	if err = p.ParseRedoLogs(strings.Split(RedoFile, ",")); err == nil {
		return
	}
	if err != nil {
''')],
 'a successful FromRedoFile run whose messages are still in the buffer', 'the log of a successful redo run ends before its last messages', '''
	t.table(orders())
	redoFile(t.path("log"), cat(undo(orders(), [][]byte{be(7, 4)}, Change{3, []byte("al")}), pad()))
	out, _ := t.run("recovery", "FromRedoFile", "--SysDataFile", t.path("ibdata1"), "--RedoFile", t.path("log"), "--LogLevel", "debug")
	t.want("output", out, set("`name`='al'", "`id`='7'"))
	found := false
	fs, _ := filepath.Glob(t.path("*.INFO.*"))
	more, _ := filepath.Glob(t.path("*.INFO"))
	for _, f := range append(fs, more...) {
		b, _ := os.ReadFile(f)
		found = found || bytes.Contains(b, []byte("complete undo insert parse"))
	}
	t.want("the last messages in the log", fmt.Sprint(found), "true")
''')

seed('C08-decimal-print', 'C08', [(U, 'logs.Info("the decimal data type, not support.")', 'fmt.Println("-- the decimal data type, not support.")')],
 'a table with a column of the old DECIMAL type', 'a diagnostic line is mixed into the recovered SQL', '''
	tab := one(Col{"d", 11, 0, 3})
	writeDict(t.path("ibdata1"), tab)
	tab.Cols[1].MType = dInt // stored with a fixed length
	file(t.path("t.ibd"), tab.leaf(3, []Row{{"id": be(7, 4), "d": []byte("1.5")}}, nil))
	t.rows("decimal", "'7',NULL")
''')

seed('C09-sign-extend', 'C09', [(U, 'ull |= MatchReadFrom4(b[4:])', 'ull |= uint64(int64(int32(MatchReadFrom4(b[4:]))))')],
 'an 8 byte number whose low word has its highest bit set', 'the high word of the number is lost', '''
	t.table(one(Col{"v", dInt, tLonglong | unsigned, 8}), Row{"id": be(1, 4), "v": be(0x12b4567890, 8)}, Row{"id": be(2, 4), "v": be(0x1270000000, 8)})
	t.rows("bigint", "'1','80334977168'", "'2','79188459520'")
''')

seed('C10-mediumint', 'C10', [(U, 'v3 &= 0x007FFFFF', 'v3 &= 0x003FFFFF')],
 'a MEDIUMINT of 4194304 or more', 'large MEDIUMINT values lose their highest bit', '''
	t.table(one(Col{"v", dInt, tInt24, 3}), Row{"id": be(1, 4), "v": be(0x800000+4194305, 3)}, Row{"id": be(2, 4), "v": be(0x800000-5, 3)}, Row{"id": be(3, 4), "v": be(0x800000+4194303, 3)})
	t.rows("mediumint", "'1','4194305'", "'2','-5'", "'3','4194303'")
''')

seed('C11-size-threshold', 'C11', [(U, 'Num3, err := strconv.ParseInt("200000", 16, 64)', 'Num3, err := strconv.ParseInt("100000", 16, 64)')],
 'an undo number between 1048576 and 2097151', 'the encoded length of such a number is taken as four bytes, the record is read one byte late', '''
	t.table(orders())
	for _, n := range []uint64{5, 0xfffff, 0x180000, 0x200000} {
		b := cat([]byte{12}, much(n), much(40), []byte{0, 0, 0, 0, 0, 9, 0, 0, 0, 0, 8}, val(be(7, 4)), comp(1), comp(3), val([]byte("al")))
		t.stream(fmt.Sprint("undo number ", n), cat(undoRaw(b), pad()), set("`name`='al'", "`id`='7'"))
	}
''')

seed('C12-december', 'C12', [(U, '''	month = int(ldate % 16)
	ldate /= 16
''', '''	month = int(ldate & 15)
	if month == 0 {
		month = 1
	}
	ldate /= 16
''')],
 'a DATE whose month is zero, such as 0000-00-00 or 2020-00-00', 'incomplete dates are changed to January', '''
	t.table(one(Col{"d", dInt, tDate, 3}), Row{"id": be(1, 4), "d": be(0x800000+2020*512+12*32+31, 3)}, Row{"id": be(2, 4), "d": be(0x800000+2020*512, 3)})
	t.rows("date", "'1','2020-12-31'", "'2','2020-00-00'")
''')

seed('C13-double', 'C13', [(U, '''	FormatDouble := ParseDouble(data)
		return FormatDouble, nil
''', '''	FormatDouble := float32(ParseDouble(data))
		return FormatDouble, nil
''')],
 'a DOUBLE that a 32 bit float can not hold', 'DOUBLE values are rounded', '''
	t.table(one(Col{"v", dDouble, 5, 8}), Row{"id": be(1, 4), "v": []byte{0x9a, 0x99, 0x99, 0x99, 0x99, 0x99, 0xb9, 0x3f}}, Row{"id": be(2, 4), "v": []byte{0xb4, 0xbe, 0x64, 0xc8, 0xf1, 0x67, 0xe3, 0x3f}}, Row{"id": be(3, 4), "v": []byte{0, 0, 0, 0, 0, 0, 0xf8, 0x3f}})
	t.rows("double", "'1','0.1'", "'2','0.6064385332046727'", "'3','1.5'")
''')

seed('C14-reset', 'C14', [(F, '''			// Skip internal field.
			if column.FieldName == "DB_ROW_ID" ||
				column.FieldName == "DB_TRX_ID" ||
				column.FieldName == "DB_ROLL_PTR" {
				continue
			}
''', '''			// Skip internal field.
			if strings.HasPrefix(column.FieldName, "DB_") {
				continue
			}
'''), (F, '''	"fmt"
''', '''	"fmt"
	"strings"
''')],
 'a user column whose name begins with DB_', 'the literal of that column is missing from the statement', '''
	t.table(one(Col{"DB_SIZE", dInt, tLong, 4}), Row{"id": be(7, 4), "DB_SIZE": be(0x80000005, 4)})
	t.rows("user column", "'7','5'")
''')

seed('C15-control-z', 'C15', [(U, "case '\\032':", "case '\\030':")],
 'a text value with a control-Z byte', 'control-Z is not escaped', '''
	t.table(orders(), Row{"id": be(7, 4), "name": []byte("a\\x1ab'\\x00\\xff")})
	t.rows("text", "'7','a\\\\Zb\\\\'\\\\0\\xff',NULL")
''')

seed('C16-three-keys', 'C16', [(R, 'if j == (len(primaryColumns) - 1) {', 'if j > 0 && len(primaryColumns) > j {')],
 'a table with a primary key of three columns or one', 'the conditions of the last key columns are not joined by and', '''
	tab := Table{ID: 40, Space: 23, DB: "shop", Name: "orders", IndexID: 50, Key: []string{"a", "b", "c"}, Cols: []Col{
		{"a", dInt, tLong | notNull | unsigned, 4}, {"b", dInt, tLong | notNull | unsigned, 4}, {"c", dInt, tLong | notNull | unsigned, 4}, {"v", dInt, tLong, 4}}}
	writeDict(t.path("ibdata1"), tab)
	t.stream("three keys", cat(undo(tab, [][]byte{be(1, 4), be(2, 4), be(3, 4)}, Change{5, be(0x80000009, 4)}), pad()), set("`v`='9'", "`a`='1' and `b`='2' and `c`='3'"))
''')

seed('C17-fold', 'C17', [(M, 'if Table.DBName == parse.DBName {', 'if strings.EqualFold(Table.DBName, parse.DBName) {')],
 'two databases whose names differ in case only', 'updates of the other database are printed', '''
	a, b := orders(), orders()
	b.ID, b.DB, b.IndexID = 41, "Shop", 60
	writeDict(t.path("ibdata1"), a, b)
	redoFile(t.path("log"), cat(undo(a, [][]byte{be(7, 4)}, Change{3, []byte("al")}), undo(b, [][]byte{be(8, 4)}, Change{3, []byte("bo")}), pad()))
	for _, table := range []string{"orders", ""} {
		out, _ := t.redo("shop", table)
		t.want("shop."+table, out, set("`name`='al'", "`id`='7'"))
	}
''')

seed('C18-list-start', 'C18', [(M, '''	position, err := utils.ParseIndex(myType == MLOG_COMP_LIST_START_DELETE ||
		myType == MLOG_COMP_LIST_END_DELETE, data, *pos)
''', '''	position, err := utils.ParseIndex(myType == MLOG_COMP_LIST_END_DELETE, data, *pos)
''')],
 'a compact list start delete record in front of an update', 'its index description is read as further records', '''
	t.table(orders())
	index := cat(be(0x20, 2), be(1, 2))
	for i := 0; i < 0x20; i++ {
		index = cat(index, []byte{30, 0})
	}
	u := undo(orders(), [][]byte{be(7, 4)}, Change{3, []byte("al")})
	for _, typ := range []byte{0x2b, 0x2c} {
		t.stream("list delete", cat([]byte{typ, 23, 4}, index, be(200, 2), u, pad()), set("`name`='al'", "`id`='7'"))
	}
''')

seed('C19-index-load', 'C19', [(R, '''	case MLOG_TRUNCATE:
	case MLOG_INDEX_LOAD:
	default:
''', '''	case MLOG_TRUNCATE:
	default:
''')],
 'an index load record whose index id looks like the start of another record', 'the record type is not recognised and its body is read as records', '''
	t.table(orders())
	t.stream("index load", cat([]byte{61, 30, 1}, []byte{1, 0, 0, 0, 64, 0, 0, 0}, undo(orders(), [][]byte{be(7, 4)}, Change{3, []byte("al")}), make([]byte, 64)), set("`name`='al'", "`id`='7'"))
''')

seed('C20-fatal', 'C20', [(M, '''	// catch panic
	defer func() {
		if err := recover(); err != nil {
			logs.Error("skip error, the error is ", err)
		}
''', '''	// catch panic
	defer func() {
		if err := recover(); err != nil {
			logs.Fatal("skip error, the error is ", err)
		}
''')],
 'an undo record that makes the decoder panic, followed by a good one', 'one damaged undo record ends the whole recovery', '''
	tab := one(Col{"v", dInt, tLong, 4})
	writeDict(t.path("ibdata1"), tab)
	bad := undo(tab, [][]byte{be(7, 4)}, Change{3, []byte{1, 2}})
	t.stream("bad then good", cat(bad, undo(tab, [][]byte{be(8, 4)}, Change{3, be(0x80000001, 4)}), pad()), set("`v`='1'", "`id`='8'"))
''')

seed('C21-empty-block', 'C21', [(R, 'if err != nil || blockHeader.BlockDataLen == 0 {', 'if err != nil || blockHeader.BlockDataLen <= LOG_BLOCK_HDR_SIZE {')],
 'a block that holds a header only, between two blocks with data', 'the blocks after an empty block are not read', '''
	t.table(orders())
	u := undo(orders(), [][]byte{be(7, 4)}, Change{3, []byte("al")})
	redoFile(t.path("log"), cat(u, pad()))
	b, err := os.ReadFile(t.path("log"))
	must(err)
	empty := make([]byte, 512)
	put(empty, 0, 9, 4)
	put(empty, 4, 12, 2)
	must(os.WriteFile(t.path("log"), cat(b[:2048], empty, b[2048:]), 0o600))
	out, _ := t.redo("", "")
	t.want("after an empty block", out, set("`name`='al'", "`id`='7'"))
''')

seed('C22-copy-created', 'C22', [(M, '''				position, err := utils.ParseInsertRecord(true, data, *pos)
				if err != nil {
					return err
				} else {
					*pos = position
				}

			} else {
''', '''				position, err := utils.ParseInsertRecord(true, data, *pos)
				if err != nil {
					return err
				} else if position < recEnd {
					*pos = position
				}

			} else {
''')],
 'a list end copy record whose records fill it exactly', 'the loop over its records never ends', '''
	t.table(orders())
	body := []byte{6, 1, 2, 3, 4, 1, 2}
	redoFile(t.path("log"), cat([]byte{17, 23, 4}, be(uint64(len(body)), 4), body, undo(orders(), [][]byte{be(7, 4)}, Change{3, []byte("al")}), pad()))
	c := exec.Command("timeout", "20", t.bin, "recovery", "FromRedoFile", "--SysDataFile", t.path("ibdata1"), "--RedoFile", t.path("log"), "--LogLevel", "error", "--LogPath", t.dir)
	out, err := c.Output()
	t.want("run ended", fmt.Sprint(err), "<nil>")
	t.want("output", string(out), set("`name`='al'", "`id`='7'"))
''')

seed('C23-max-trx', 'C23', [(P, '''	pageMaxTrxID := utils.MatchReadFrom8(d[pos:])
	page.ph.PAGE_MAX_TRX_ID = pageMaxTrxID
	pos += 8
''', '''	pageMaxTrxID := utils.MatchReadFrom4(d[pos:])
	page.ph.PAGE_MAX_TRX_ID = pageMaxTrxID
	pos += 8
''')],
 'a secondary index leaf page, its transaction id below 2^32', 'the leaf pages of secondary indexes are read as rows', '''
	tab := orders()
	writeDict(t.path("ibdata1"), tab)
	second := tab.leaf(4, []Row{{"id": be(9, 4)}}, nil)
	put(second, 56, 1234, 8)
	file(t.path("t.ibd"), tab.leaf(3, []Row{{"id": be(7, 4)}}, nil), second)
	t.rows("with a secondary index", "'7',NULL,NULL")
''')

seed('C24-all-deleted', 'C24', [(P, 'if page.ph.PAGE_N_RECS == uint64(0) && page.ph.PAGE_FREE == uint64(0) {', 'if page.ph.PAGE_N_RECS == uint64(0) {')],
 'a leaf page all of whose rows were deleted', 'deleted rows of a page without live rows are not recovered', '''
	tab := orders()
	writeDict(t.path("ibdata1"), tab)
	file(t.path("t.ibd"), tab.leaf(3, nil, []Row{{"id": be(7, 4)}, {"id": be(8, 4)}}))
	out, _ := t.data("shop", "orders", true)
	t.want("deleted", out, values("'7',NULL,NULL", "'8',NULL,NULL"))
''')

seed('C25-back-link', 'C25', [(P, 'if b > 32768 {', 'if b > 65000 {')],
 'a record whose successor lies more than 536 bytes in front of it', 'the list is left there and the rest of the page is missing', '''
	tab := orders()
	p := tab.leaf(3, []Row{{"id": be(7, 4), "name": bytes.Repeat([]byte("x"), 200)}, {"id": be(8, 4), "name": bytes.Repeat([]byte("y"), 200)}, {"id": be(9, 4), "name": bytes.Repeat([]byte("z"), 200)}, {"id": be(10, 4), "name": bytes.Repeat([]byte("w"), 200)}}, nil)
	// The records in the order 10, 7, 8, 9.
	at := 99
	var pos []int
	for {
		at += int(int16(uint16(p[at-2])<<8 | uint16(p[at-1])))
		if at == 112 {
			break
		}
		pos = append(pos, at)
	}
	link := func(a, b int) { put(p, a-2, uint64(b-a)&0xffff, 2) }
	link(99, pos[3])
	link(pos[3], pos[0])
	link(pos[2], 112)
	writeDict(t.path("ibdata1"), tab)
	file(t.path("t.ibd"), p)
	row := func(id, c string) string { return "'" + id + "','" + strings.Repeat(c, 200) + "',NULL" }
	t.rows("rows", row("10", "w"), row("7", "x"), row("8", "y"), row("9", "z"))
''')

seed('C26-long-value', 'C26', [(P, 'offs += length & 0x3fff', 'offs += length & 0x1fff')],
 'a value of 8192 bytes or more', 'the value and the columns behind it are read from wrong positions', '''
	tab := orders()
	tab.Cols[1].Len = 9000
	t.table(tab, Row{"id": be(7, 4), "name": bytes.Repeat([]byte("k"), 8500), "n": be(0x80000005, 4)})
	t.rows("long value", "'7','"+strings.Repeat("k", 8500)+"','5'")
''')

seed('C27-short-flag', 'C27', [(U, 'return RecGetBitField1(rec, offset, 3, 0x1, 0)', 'return RecGetBitField1(rec, offset, 3, 0x3, 0)')],
 'a REDUNDANT row with two byte offsets and an odd number of fields', 'its offsets are read as one byte offsets', '''
	tab := orders()
	writeDict(t.path("ibdata1"), tab)
	file(t.path("t.ibd"), oldPage(3, 50, [][]byte{be(7, 4), be(1, 6), be(2, 7), bytes.Repeat([]byte("q"), 200), be(0x80000005, 4)}))
	t.rows("redundant", "'7','"+strings.Repeat("q", 200)+"','5'")
''')

seed('C29-type-byte', 'C29', [(P, 'MySQLType = c[6].FieldValue.(uint64) & 0xFF', 'MySQLType = c[6].FieldValue.(uint64) & 0x7F')],
 'a BINARY column', 'the type of a BINARY column is not recognised and its bytes are printed as text', '''
	t.table(one(Col{"v", dFixBin, tString | binaryT, 3}), Row{"id": be(7, 4), "v": []byte{0x41, 0xff, 0}})
	t.rows("binary", "'7',unhex('41ff00')")
''')

seed('C30-table-id', 'C30', [(P, 'parse.TableMap[columns[3].FieldValue.(uint64)] =', 'parse.TableMap[uint64(uint32(columns[3].FieldValue.(uint64)))] =')],
 'a table id of 2^32 or more', 'such a table gets no columns', '''
	tab := orders()
	tab.ID = 1<<32 + 40
	t.table(tab, Row{"id": be(7, 4), "name": []byte("bob")})
	t.rows("large table id", "'7','bob',NULL")
''')

seed('C31-composite', 'C31', [(P, '''				table.Columns = addColumns(table.Columns, int(idx.FieldNum), TrxColumns)
''', '''				table.Columns = addColumns(table.Columns, 1, TrxColumns)
''')],
 'a primary key of two or more columns', 'the transaction id is put between the key columns', '''
	tab := orders()
	tab.Key = []string{"id", "n"}
	tab.Cols[2].PrType |= notNull
	t.table(tab, Row{"id": be(7, 4), "name": []byte("bob"), "n": be(0x80000005, 4)})
	t.rows("composite key", "'7','5','bob'")
''')

seed('C17-delete-mark', 'C17', [(M, 'if undoType == TRX_UNDO_UPD_EXIST_REC {', 'if undoType >= TRX_UNDO_UPD_EXIST_REC {')],
 'an undo record of a delete mark', 'a delete is printed as an update made of other data', '''
	t.table(orders())
	body := cat([]byte{14, 1}, much(40), []byte{0, 0, 0, 0, 0, 9, 0, 0, 0, 0, 8}, val(be(7, 4)), []byte{1, 3, 2, 0x41, 0x42})
	t.stream("delete mark", cat(undoRaw(body), undo(orders(), [][]byte{be(8, 4)}, Change{3, []byte("al")}), pad()), set("`name`='al'", "`id`='8'"))
''')

seed('C34-third-page', 'C34', [(P, '''					ds := v.([]DataDict)
					parse.parsePageHeader(&page)
					ds = append(ds,
''', '''					ds := v.([]DataDict)
					parse.parsePageHeader(&page)
					ds = append(ds[:1],
''')],
 'a dictionary table with three pages or more', 'only its first and last pages are read', '''
	tab, b, c := orders(), orders(), orders()
	b.ID, b.Name, b.IndexID = 41, "lines", 60
	c.ID, c.Name, c.IndexID = 42, "users", 70
	writeDict(t.path("ibdata1"), b)
	f, err := os.ReadFile(t.path("ibdata1"))
	must(err)
	for _, x := range []Table{tab, c} {
		writeDict(t.path("more"), x)
		g, err := os.ReadFile(t.path("more"))
		must(err)
		for no := 8; no < 12; no++ {
			p := g[no*pageSize : (no+1)*pageSize]
			put(p, 4, uint64(len(f)/pageSize), 4)
			f = append(f, p...)
		}
	}
	must(os.WriteFile(t.path("ibdata1"), f, 0o600))
	file(t.path("t.ibd"), tab.leaf(3, []Row{{"id": be(7, 4)}}, nil))
	t.rows("table of the second page", "'7',NULL,NULL")
''')

seed('C35-newer-copy', 'C35', [(P, 'if _, ok := pageMap[page.fh.FIL_PAGE_OFFSET]; !ok {', 'if _, ok := pageMap[page.fh.FIL_PAGE_OFFSET]; !ok || page.fh.FIL_PAGE_LSN > 0 {')],
 'a file with two pages of one number', 'the rows of such a page are printed twice', '''
	tab := orders()
	writeDict(t.path("ibdata1"), tab)
	a, b := tab.leaf(3, []Row{{"id": be(7, 4)}}, nil), tab.leaf(3, []Row{{"id": be(8, 4)}}, nil)
	put(a, 16, 100, 8)
	put(b, 16, 200, 8)
	file(t.path("t.ibd"), a, b)
	t.rows("two copies", "'7',NULL,NULL")
''')
