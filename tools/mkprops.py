#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the table below is its only source)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=state or [],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe or [], hook_needed=None)))
U='recovery/utils/utils.go'; I='recovery/ibdata/parse.go'; F='recovery/ibdata/format.go'
R='recovery/redo/parse.go'; M='recovery/redo/mlog.go'; C='cmd/db-recovery/command.go'; L='recovery/logs/logs.go'
NT='The tests need MySQL data files that are not in the repository, so none of them reaches this; '

p('C01','Recovery never writes to the database files or runs other programs',
  'The recovery commands open the files they are given for reading only. They create, change, truncate, rename or delete no file except the log files of the logging library, start no program and open no network connection.',
  ['inputs','configurations'],'every command line and every content of the input files',
  'A test sees the effects of the one run it makes; the absence of every writing call on every reachable path is a statement about all of them.',
  [C,I,R,U],[('input files are opened read-only','os.Open in parseFile and ParseRedoLogs'),('no writing call is reachable from the commands','cmd/db-recovery/main.go')])
p('C02','Every input file that is opened is closed again',
  'Each data file or redo log file that is opened is closed again on every way out of the operation that opened it, including every error return and a panic while it is parsed.',
  ['inputs','fault_sequences'],'every path out of a parse, with every pattern of read failures',
  NT+'a leaked handle changes no output.',[I,R],[('deferred close','parseFile, ParseRedoLogs')])
p('C03','Short reads are never decoded and read errors surface',
  'A page of the data file (16384 bytes) or a block of the redo log (512 bytes) is decoded only when all of its bytes were read, also when the file system returns fewer bytes per read than asked for. Reaching the end of the file, with or without an incomplete last page or block, ends the reading of that file normally. Any other read error makes the parse fail with that error.',
  ['inputs','fault_sequences'],'every file length and every sequence of read results',
  NT+'they never see a short read or a failing read.',[U,I,R],[('full read','ReadNextBytes'),('error classification','parseFile, ParseRedoLogs, readRedoLogFileHeader, readRedoLogFileCheckpoint')])
p('C04','A failed stage ends the command with an error',
  'When opening the log, loading the data dictionary, or parsing the table file or redo logs fails, the command prints the error, does not start the later stages, and ends with a non-zero exit status. A failure to open or parse any of the files, also one of several redo files, is passed up to the command. A command line the tool refuses also ends with a non-zero exit status.',
  ['inputs','fault_sequences','configurations'],'every stage failing in every way it can',
  'The commands have no tests.',[C,I,R],[('stage error checks','FromDataFile, FromRedoFile'),('error propagation','ParseDictPage, ParseDataPage, ParseRedoLogs')])
p('C05','Each command-line option reaches the stage it names',
  'The system file option names the file the dictionary is read from, the table file and redo file options name the files that are parsed, and the database and table options select the table; the redo file option takes a comma-separated list whose files are parsed in order. FromDataFile requires the system file, table file, database and table options, FromRedoFile the system file and redo file options. Without a database or table option FromRedoFile selects no database or table in particular. Only the operation type RecoveryData reads deleted rows, anything else reads live rows. The values and file names arrive unchanged.',
  ['configurations'],'every combination of option values','The commands have no tests.',[C],[('flag bindings','NewRootCommand, NewFromDataFileCommand, NewFromRedoFileCommand'),('calls','FromDataFile, FromRedoFile')])
p('C06','Log messages appear exactly at or above the chosen level',
  'A message logged at a level is written, with all of its arguments, exactly when the chosen log level is that level or a more verbose one, in the order fatal, error, warn, info, debug, trace. The level name is taken without regard to case and an unknown name means info. The log files go to the chosen directory.',
  ['configurations','inputs'],'every level name and every message','The tests call each function once and check nothing.',[L],[('threshold','Trace, Debug, Debugf, Info, Infof, Warn, Warnf, Error, Errorf, Fatal, Fatalf'),('configuration','InitLogs')])
p('C07','Logs are flushed whenever a command ends',
  'After logging has been set up, every way a recovery command ends, successful or not, flushes the buffered log messages before the process exits.',
  ['inputs','fault_sequences'],'every exit of the recovery commands','The commands have no tests.',[C,L],[('flush','FromDataFile, FromRedoFile, FlushLogs')])
p('C08','Standard output carries only the recovered SQL',
  'While a recovery command parses its files it writes nothing to standard output but the recovered statements, one per line; diagnostics go to the log. The only other output is the message of the error that ends the command.',
  ['inputs'],'every content of the input files',NT+'and stray output only appears for particular inputs.',[U,I,R,M,F,C],[('statement printing','makeReplaceIntoStatement, makeSQL'),('diagnostics','package logs')])
p('C09','Fixed-width integers are read big-endian at full width',
  'The readers of 1, 2, 3, 4, 7 and 8 byte fields return exactly the unsigned big-endian value of that many leading bytes, for every byte content, and look at no other byte.',
  ['inputs'],'every byte string','No test calls them; a masked or shifted bit only shows for particular bytes.',[U],[('readers','MatchReadFrom1, MatchReadFrom2, MatchReadFrom3, MatchReadFrom4, MatchReadFrom7, MatchReadFrom8')])
p('C10','Integer and BIT columns decode to their exact value',
  'A signed integer column of 1, 2, 3, 4 or 8 bytes decodes to the exact value MySQL stored, including negative values and both ends of the range. An unsigned integer or BIT column of 1 to 8 bytes decodes to the exact unsigned value of its bytes.',
  ['inputs'],'every width and every byte content','No test covers them; errors hide at the sign bit and at the widths.',[U],[('signed decoding','GetIntValue'),('unsigned decoding','GetUintValue'),('dispatch','ParseData')])
p('C11','InnoDB compressed integers are decoded exactly',
  'The 32-bit compressed format is decoded to its exact value and exact encoded length for all five encodings, and the length computed for a value is the length InnoDB writes for it. The two 64-bit compressed formats are decoded to their exact value, and exactly their encoded bytes are consumed.',
  ['inputs'],'every encoded value','No test covers them; the longer encodings only occur for large values.',[U],[('32 bit','MatchParseCompressed, MatchGetCompressedSize'),('64 bit','MatchUllReadComPressed, MatchUllReadMuchCompressed, MachUllGetMuchCompressedSize')])
p('C12','Temporal columns decode to the stored date and time',
  'DATE, TIME, DATETIME (old decimal and packed format), TIMESTAMP and YEAR columns decode to the year, month, day, hour, minute, second and sign that were stored, to the second, for every storable value. They are written as YYYY-MM-DD, [-]hh:mm:ss, YYYY-MM-DD hh:mm:ss (24-hour clock, TIMESTAMP in local time) and as a year.',
  ['inputs'],'every storable temporal value','No test covers them; errors hide in bit boundaries and ranges of years.',[U],[('decoders','ParseDate, ParseTime, ParseDateTime, GetTimeFormat, ParseTimeStamp, ParseData')])
p('C13','Each column is decoded as its declared type says',
  'The decoding of a column is chosen by its InnoDB type, MySQL type, unsigned flag and binary flag alone: text types yield their bytes unchanged (CHAR without its trailing spaces), binary strings and binary BLOBs the hexadecimal form of all their bytes together with the binary mark, FLOAT and DOUBLE the little-endian IEEE value, and integer, BIT and temporal types their numeric or temporal decoding. Exactly the stored length of the value is used.',
  ['inputs','configurations'],'every column type and content','No test covers it.',[U],[('dispatch','ParseData'),('hex form','ParseBlob'),('floats','ParseFloat, ParseDouble'),('fixed or variable length','GetFixedLength')])
p('C14','Each recovered row becomes one well-formed REPLACE statement',
  'For every row exactly one line "replace into `db`.`table` values (...);" is printed, in row order, naming the database and table asked for, with one literal per user column in column order and none for the hidden system columns. SQL NULL is written as NULL, BIT as b\'...\' in binary digits, binary values as unhex(\'...\'), every other value as a quoted and escaped string; a text value never turns into NULL.',
  ['inputs'],'every number of rows and columns and every value',NT+'no test checks the text of a statement.',[F],[('statement','makeReplaceIntoStatement')])
p('C15','Escaping is complete and loses nothing',
  'In every quoted text literal the characters NUL, newline, carriage return, backslash, single quote, double quote and control-Z are each replaced by their MySQL escape sequence, and every other byte of the value, including multi-byte characters and invalid UTF-8, is kept unchanged and in order.',
  ['inputs'],'every string','No test calls it; a lost byte shows only around special characters.',[U],[('escaping','EscapeValue')])
p('C16','Each recovered update becomes one well-formed UPDATE statement',
  'For each update found in the redo log one line "update `db`.`table` set `c`=v, ... where `k`=v and ...;" is printed with every changed column and its earlier value in the SET list, separated by commas, and every primary key column and its value in the condition, joined by "and". Values are written as literals: NULL, b\'...\' for BIT, unhex(\'...\') for binary and otherwise a quoted and escaped string. Without a key or a changed column nothing is printed.',
  ['inputs'],'every number of key and changed columns and every value',NT+'no test checks the text of a statement.',[R],[('statement','makeSQL')])
p('C17','The redo output is restricted to the chosen database and table',
  'An update is printed exactly when its undo record describes an update of an existing row and its table matches both filters, where an empty database or table name matches everything.',
  ['inputs','configurations'],'every pair of filters and every table',NT+'they use one table and one filter.',[M],[('filter','mlogUndoInsert')])
p('C18','Every redo record is skipped or consumed by exactly its length',
  'For each redo record type of MySQL 5.7 the parser advances past exactly the bytes that InnoDB writes for a record of that type, so that the next record is read from where it starts. This holds for every content of a complete record of any of the types.',
  ['inputs'],'every record type and every well-formed content',NT+'and one log holds only some types and shapes.',[R,M,U],[('dispatch','parseRedoBlockData'),('records','the mlog* handlers'),('index and insert records','ParseIndex, ParseInsertRecord')])
p('C19','Exactly the MySQL 5.7 redo record types are recognised',
  'The parser recognises exactly the redo record types 1, 2, 4, 8, 9 to 11, 13 to 27 and 29 to 61, with or without the single-record flag. At a byte that is no such type it resumes with the byte after it, and an unknown type never ends the parse early or skips other data.',
  ['inputs'],'every value of the type byte',NT+'unknown types only occur in particular logs.',[R],[('recognition','validateLogHeader'),('resynchronisation','parseRedoBlockData')])
p('C20','A bad undo record never disturbs the records after it',
  'After an undo record the parser continues exactly at the end that the record\'s own length field names, whatever its content is: complete, of an unknown table, undecodable, or damaged so badly that decoding panics.',
  ['inputs','fault_sequences'],'every content of an undo record and every failure while it is decoded',NT+'they contain no damaged record.',[M],[('containment','mlogUndoInsert')])
p('C21','Redo data comes only from between block header and trailer',
  'Of each 512-byte redo block exactly the bytes from 12 up to the length in its header, at most up to 508, are used, and the payloads are joined in file order. A block with length 0 (or, damaged, shorter than its header) ends the file, and no length makes the parser read outside the block.',
  ['inputs'],'every block header',NT+'and real logs hold few different lengths.',[R],[('payload','ParseRedoLogs'),('header','readRedoBlockHeader')])
p('C22','Parsing always makes progress and ends',
  'Every loop over the input ends: each turn consumes input, advances a bounded counter, or visits a record position it has not visited before, also when the input is damaged.',
  ['inputs'],'every content of the input files, also cyclic or truncated ones','A test cannot show termination for all inputs.',[I,R,M,U],[('record list','parsePage'),('file loops','parseFile, ParseRedoLogs'),('redo loop','parseRedoBlockData')])
p('C23','Page and dictionary headers are read from their InnoDB offsets',
  'The fields of the file header, the page header and the dictionary header are read from the offsets and widths InnoDB stores them at, for every page.',
  ['inputs'],'every page content',NT+'a wrong field often goes unnoticed on one file.',[I],[('headers','parseFilHeader, parsePageHeader, parseSysPageHeader')])
p('C24','Rows come from exactly the clustered leaf pages of the file',
  'Rows are read from a page exactly when it is an index page (type 17855) at level 0 with maximum transaction id 0. When deleted rows are recovered the page must also have a free list within the page and garbage, and its free list is read; otherwise its live list is read.',
  ['inputs','configurations'],'every page header in both modes',NT+'one file has few kinds of pages.',[I],[('page filter','ParseDataPage')])
p('C25','The record list of a page is followed from its start to its end',
  'Records are visited from the first live record (behind the infimum) or from the head of the free list, each next record being at the position named by the two bytes before the current one, relative in the COMPACT and absolute in the REDUNDANT format, until the list ends at the supremum, at 0 or outside the page. Each visited record yields one row, in list order.',
  ['inputs'],'every page content of both formats',NT+'one file has one format.',[I],[('record list','parsePage')])
p('C26','COMPACT field boundaries follow the row header',
  'For every row in COMPACT format the position, length, NULL and off-page flags of each field are those the row header describes: the NULL bitmap with one bit per nullable column, lengths of one byte, or of two bytes for columns longer than 255 bytes and BLOBs when the high bit is set, and the declared length for fixed-length columns.',
  ['inputs','configurations'],'every row header and every combination of columns',NT+'more than eight nullable columns or long values are rare.',[I],[('field offsets','ibRecInitOffsetsNew')])
p('C27','REDUNDANT field boundaries follow the row header',
  'For every row in REDUNDANT format the end, NULL and off-page flags of each field are those of the one or two byte offsets in front of the record, as its short flag says.',
  ['inputs'],'every row header','The dictionary of the tests is not in the repository.',[I,U],[('field offsets','ibRecInitOffsetsOld, Rec1GetFieldEndInfo, Rec2GetFieldEndInfo, RecGet1byteOffsFlag'),('access','RecGetNthField, RecGetNthFieldOffs, RecOffsNthSize')])
p('C28','Rows never share or inherit values',
  'Each recovered row holds its own values: a field that is NULL or not fully present in the page yields NULL for that row and never the value of another row, and reading one row does not change a row read before it.',
  ['inputs'],'every sequence of rows',NT+'leaks show only after particular neighbours.',[I],[('row decoding','parseRecords')])
p('C29','Column attributes follow the dictionary\'s type information',
  'A column of the dictionary is nullable exactly when its NOT NULL flag (256) is clear, unsigned exactly when its UNSIGNED flag (512) is set, and a BLOB is binary exactly when its binary flag (1024) is set; its MySQL type is the low byte, and name, position, length and InnoDB type are taken as stored. The number of nullable columns of a table counts exactly its nullable columns.',
  ['inputs'],'every dictionary row','The dictionary of the tests is not in the repository.',[I],[('attributes','getAllColumns')])
p('C30','Tables, indexes and key fields are taken from the dictionary as stored',
  'Each dictionary row is attached to the table or index whose id it carries: a table with its database and table name (split at "/"), its id and its space id, an index with its id, name, type and number of fields, and its fields in dictionary order. The dictionary tables are read with the column layout InnoDB defines for them.',
  ['inputs'],'every dictionary content','The dictionary of the tests is not in the repository.',[I],[('tables','getAllTables'),('indexes','getAllIndexes'),('fields','getAllFields'),('layouts','makeSysTablesColumns, makeSysColumnsColumns, makeSysIndexesColumns, makeSysFieldsColumns')])
p('C31','Columns are put in their physical order',
  'With a primary key the row is read as the key columns in key order, a 6-byte transaction id, a 7-byte roll pointer and the other columns in table order; without one as a 6-byte row id, the transaction id, the roll pointer and the columns in table order. No column is lost, duplicated or otherwise reordered.',
  ['inputs','configurations'],'every table layout','One test checks the insertion of one column.',[I],[('order','moveColumns2First, movePrimaryKeyFirst, addInternalColumns, addInternalColumn, addColumns')])
p('C32','An unknown table is an error and yields no rows',
  'When the dictionary has no table of the given database and name, reading a table file fails with an error and prints no statement; a table that is found is used with exactly its own columns.',
  ['inputs','configurations'],'every dictionary and pair of names',NT+'they ask for existing tables.',[I],[('lookup','getTableColumnsFromDict, ParseDataPage')])
p('C33','Undo records are decoded field by field as InnoDB wrote them',
  'From an undo record of an updated row the tool takes the table by its id, each primary key column and each changed column by its position, with exactly the bytes its length announces decoded as that column\'s type, and a length of 0xFFFFFFFF as NULL. A value that does not fit in the record, an unknown table or an unknown column position yields no statement at all.',
  ['inputs'],'every undo record',NT+'and none covers damaged or rare records.',[M],[('decoding','mlogUndoInsert, getPrimaryKey, getColumnByPos, getColumnsByName, getTableByTableID')])
p('C34','Every page of the dictionary tables is collected',
  'The root pages of the dictionary tables are found through the dictionary header on page 7, and every other page of the file that carries the index id of one of them is read with it. A system file without the pages of one of the four dictionary tables is an error.',
  ['inputs'],'every system tablespace file','The dictionary of the tests is not in the repository.',[I],[('collection','ParseDictPage')])
p('C35','The first page of each number in a file is the one used',
  'Of the pages of a data file each page number is used once, with the content of its first occurrence, and the pages are used in file order.',
  ['inputs'],'every sequence of page numbers',NT+'a normal file has no repeated page number.',[I],[('page table','parseFile')])
p('C39','The same input gives the same output',
  'Run again on the same files with the same options and time zone, a recovery command prints the same statements in the same order and reports the same errors. Nothing it prints or decides depends on the order in which maps are walked, on the clock, on randomness, on scheduling or on the process environment; where the dictionary holds several definitions of a table name, the one with the highest table id is used.',
  ['schedules','inputs'],'every run, every order of every map walked',
  'A test that passes with one map order passes by chance; Go changes the order from run to run, and most tables give the same output in any order.',
  [I,R,M,F],[('walks over maps','getAllFields, movePrimaryKeyFirst, addInternalColumns, getTableColumnsFromDict, getPrimaryKey, getTableBySpaceID'),('walks over page stores','ParseDictPage')])
p('C36','The rows printed are the rows of the table, whole and none missing',
  'For every intact table file the printed statements, run on an empty table, recreate exactly the rows that the database server would read (or had deleted).',
  ['inputs','histories'],'every table file',NT+'a comparison needs a server.',[I,F,U],[('whole pipeline','ParseDataPage')])
p('C37','No damaged input makes the tool panic',
  'Whatever bytes the input files hold, the tool never ends in a panic.',
  ['inputs'],'every file content',NT+'and panics need particular damage.',[I,R,M,U],[('recover in two handlers','mlogUndoInsert, mlogRecUpdateInPlace')])
p('C38','Memory stays proportional to the input',
  'The memory used by a recovery is bounded by a constant times the size of the input files.',
  ['inputs'],'every input','No test measures memory.',[I,R],[('page and block buffers','parseFile, ParseRedoLogs')])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False)+'\n')
print(len(P))
