From b59e0458a988374861e8690af65300cd657199da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:58 +0000
Subject: [PATCH 01/29] fix: decode unsigned 3, 5, 6 and 7 byte integers in
 full

---
 recovery/utils/utils.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/recovery/utils/utils.go b/recovery/utils/utils.go
index 805121c..34fe5cd 100644
--- a/recovery/utils/utils.go
+++ b/recovery/utils/utils.go
@@ -98,15 +98,15 @@ func GetUintValue(FixLength int, value []byte) uint64 {
 	case 2:
 		return MatchReadFrom2(value)
 	case 3:
-		return MatchReadFrom3(value) & 0x3FFFFF
+		return MatchReadFrom3(value)
 	case 4:
 		return MatchReadFrom4(value)
 	case 5:
-		return MatchReadFrom8(value) >> 24
+		return MatchReadFrom4(value)<<8 | MatchReadFrom1(value[4:])
 	case 6:
-		return MatchReadFrom8(value) >> 16
+		return MatchReadFrom4(value)<<16 | MatchReadFrom2(value[4:])
 	case 7:
-		return MatchReadFrom8(value) >> 8
+		return MatchReadFrom7(value)
 	case 8:
 		return MatchReadFrom8(value)
 	}
-- 
2.43.0


From f0b0af6b5a7b1119382b97b53431c7977284cabf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:22 +0000
Subject: [PATCH 02/29] fix: read 64-bit compressed integers as InnoDB writes
 them

---
 recovery/utils/utils.go | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/recovery/utils/utils.go b/recovery/utils/utils.go
index 34fe5cd..92504aa 100644
--- a/recovery/utils/utils.go
+++ b/recovery/utils/utils.go
@@ -406,13 +406,8 @@ func MatchUllReadComPressed(b []byte, pos *uint64) uint64 {
 	if err != nil {
 		fmt.Println(err.Error())
 	}
-	size, err := MatchGetCompressedSize(n)
-	// *pos += size
-	if err != nil {
-		fmt.Println(err.Error())
-	}
 	n <<= 32
-	n |= MatchReadFrom4(b[*pos:][size:])
+	n |= MatchReadFrom4(b[*pos:])
 	*pos += 4
 	return n
 }
@@ -430,15 +425,12 @@ func MatchUllReadMuchCompressed(b []byte) (uint64, error) {
 		n = 0
 		size = 0
 	} else {
-		n, _, err := MatchParseCompressed(b, 1)
+		high, num, err := MatchParseCompressed(b, 1)
 		if err != nil {
 			return 0, err
 		}
-		v, err := MatchGetCompressedSize(n)
-		if err != nil {
-			fmt.Println(err.Error())
-		}
-		size = 1 + v
+		n = high << 32
+		size = 1 + num
 	}
 	value, _, err := MatchParseCompressed(b, size)
 	if err != nil {
@@ -467,7 +459,8 @@ func MachUllGetMuchCompressedSize(num uint64) uint64 {
 	if err != nil {
 		fmt.Println(err.Error())
 	}
-	return n1 + n2
+	// the high part follows a marker byte.
+	return 1 + n1 + n2
 }
 
 // ReadIntoStruct ...
-- 
2.43.0


From 44e8622cf50e6ea20c780969e942d8ee67bc1cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:27 +0000
Subject: [PATCH 03/29] fix: print TIMESTAMP hours on a 24-hour clock

---
 recovery/utils/utils.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recovery/utils/utils.go b/recovery/utils/utils.go
index 92504aa..4ef94d2 100644
--- a/recovery/utils/utils.go
+++ b/recovery/utils/utils.go
@@ -875,7 +875,7 @@ func ParseTime(data []byte) string {
 func ParseTimeStamp(data []byte) string {
 	// TODO: add time_precision
 	t := MatchReadFrom4(data)
-	tm := time.Unix(int64(t), 0).Format("2006-01-02 03:04:05")
+	tm := time.Unix(int64(t), 0).Format("2006-01-02 15:04:05")
 	return tm
 }
 
-- 
2.43.0


From eb3a091d9b179eed3b394bd4e7089c3cff4220ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:33 +0000
Subject: [PATCH 04/29] fix: decode YEAR 0 as the zero year

---
 recovery/utils/utils.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/recovery/utils/utils.go b/recovery/utils/utils.go
index 4ef94d2..ff8439b 100644
--- a/recovery/utils/utils.go
+++ b/recovery/utils/utils.go
@@ -614,7 +614,11 @@ func ParseData(DataType uint64, MySQLType uint64,
 			DateTime := ParseDate(data)
 			return DateTime, nil
 		case MYSQL_TYPE_YEAR:
-			FormatYear := MatchReadFrom1(data) + 1900
+			FormatYear := MatchReadFrom1(data)
+			// zero is the year 0000, the other values count from 1900.
+			if FormatYear != 0 {
+				FormatYear += 1900
+			}
 			return FormatYear, nil
 		default:
 			if IsUnsigned {
-- 
2.43.0


From f06fe81371e20e50144e86d186947d35aa6f90e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:38 +0000
Subject: [PATCH 05/29] fix: strip only the space padding at the end of CHAR
 values

---
 recovery/utils/utils.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recovery/utils/utils.go b/recovery/utils/utils.go
index ff8439b..8847753 100644
--- a/recovery/utils/utils.go
+++ b/recovery/utils/utils.go
@@ -639,7 +639,7 @@ func ParseData(DataType uint64, MySQLType uint64,
 	case DATA_VARMYSQL:
 		return string(data[:FieldLen]), nil
 	case DATA_MYSQL:
-		return strings.TrimSpace(string(data[:FieldLen])), nil
+		return strings.TrimRight(string(data[:FieldLen]), " "), nil
 	case DATA_BLOB:
 		// TODO: deal with binary data.
 		if *IsBinary {
-- 
2.43.0


From 26bf6f7d677197d751c28a27f28618ba61920ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:44 +0000
Subject: [PATCH 06/29] fix: do not blank a text value that looks like the zero
 time

---
 recovery/utils/utils.go | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/recovery/utils/utils.go b/recovery/utils/utils.go
index 8847753..cbd82ef 100644
--- a/recovery/utils/utils.go
+++ b/recovery/utils/utils.go
@@ -935,11 +935,6 @@ func EscapeValue(colValue string) string {
 		last = i + 1
 	}
 	colBuffer.WriteString(colValue[last:])
-	// TODO: If the source is really 0001-01-01T00:00:00Z, it will cause data inconsistency.
-	if colBuffer.String() == "0001-01-01T00:00:00Z" {
-		colBuffer.Reset()
-		colBuffer.WriteString("")
-	}
 	return colBuffer.String()
 }
 
-- 
2.43.0


From fe5066e9b2f1e5dc00ba9068842c382b7522d76e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:21 +0000
Subject: [PATCH 07/29] fix: print the zero YEAR with four digits

---
 recovery/utils/utils.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/recovery/utils/utils.go b/recovery/utils/utils.go
index cbd82ef..94934e5 100644
--- a/recovery/utils/utils.go
+++ b/recovery/utils/utils.go
@@ -616,10 +616,10 @@ func ParseData(DataType uint64, MySQLType uint64,
 		case MYSQL_TYPE_YEAR:
 			FormatYear := MatchReadFrom1(data)
 			// zero is the year 0000, the other values count from 1900.
-			if FormatYear != 0 {
-				FormatYear += 1900
+			if FormatYear == 0 {
+				return "0000", nil
 			}
-			return FormatYear, nil
+			return FormatYear + 1900, nil
 		default:
 			if IsUnsigned {
 				return GetUintValue(FixLength, data[:FieldLen]), nil
-- 
2.43.0


From d68ca5ae42e6f6c92d3c0a5f8b650fd70e06ac51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:27 +0000
Subject: [PATCH 08/29] fix: decode DATETIME values of every year, and print
 years with four digits

---
 recovery/utils/utils.go | 59 ++++++++++-------------------------------
 1 file changed, 14 insertions(+), 45 deletions(-)

diff --git a/recovery/utils/utils.go b/recovery/utils/utils.go
index 94934e5..59c84e2 100644
--- a/recovery/utils/utils.go
+++ b/recovery/utils/utils.go
@@ -585,7 +585,7 @@ func ParseData(DataType uint64, MySQLType uint64,
 			FormatTimeStamp := ParseTimeStamp(data)
 			return FormatTimeStamp, nil
 		case MYSQL_TYPE_DATETIME:
-			FormatDateTime := ParseDateTime(data)
+			FormatDateTime := ParseDateTime(data[:FieldLen])
 			return FormatDateTime, nil
 		case MYSQL_TYPE_BIT:
 			return GetUintValue(FixLength, data[:FieldLen]), nil
@@ -735,50 +735,19 @@ func GetMaxLength(MySQLType uint64) {
 	}
 }
 
-// GetTimeFormat ...
+// GetTimeFormat tells how a DATETIME value is stored: 1 for the decimal
+// number YYYYMMDDhhmmss of the old format, 2 for the packed format.
 func GetTimeFormat(data []byte) int {
-	d := MatchReadFrom8(data)
-	var year, month, day, hour, min, sec int
-
-	r := d &^ (1 << 63)
-	sec = int(r % 100)
-	r /= 100
-	min = int(r % 100)
-	r /= 100
-	hour = int(r % 100)
-	r /= 100
-	day = int(r % 100)
-	r /= 100
-	month = int(r % 100)
-	r /= 100
-	year = int(d % 10000)
-	if year > 1990 && year < 2100 && month >= 1 && month <= 12 &&
-		day >= 1 && day <= 31 && hour >= 0 && hour <= 23 &&
-		min >= 0 && min <= 59 && sec >= 0 && sec <= 59 {
-		return 1
-	}
-
-	var sign uint64
-	sign = 0
-	sign = d >> 63
-	if sign == 0 {
-		return 0
+	// The old format takes 8 bytes, the packed one 5 bytes plus the fraction.
+	if len(data) < 8 {
+		return 2
 	}
 
-	yd := (d & 0x7FFFC00000000000) >> 46
-	year = int(yd / 13)
-	month = int(int(yd) - (year * 13))
-	day = int((d & 0x00003E0000000000) >> 41)
-	hour = int((d & 0x000001F000000000) >> 36)
-	min = int((d & 0x0000000FC0000000) >> 30)
-	sec = int((d & 0x000000003F000000) >> 24)
-	if year > 1990 && year < 2100 && month >= 1 &&
-		month <= 12 && day >= 1 && day <= 31 &&
-		hour >= 0 && hour <= 23 && min >= 0 &&
-		min <= 59 && sec >= 0 && sec <= 59 {
-		return 2
+	// No decimal value reaches the first year of the packed format.
+	if (MatchReadFrom8(data)&0x7FFFC00000000000)>>46 < 13 {
+		return 1
 	}
-	return 0
+	return 2
 }
 
 // ParseDateTime ...
@@ -799,12 +768,12 @@ func ParseDateTime(data []byte) string {
 		ldate /= 100
 		year := ldate % 10000
 
-		FormatTime := fmt.Sprintf("%02d-%02d-%02d %02d:%02d:%02d", year, month, day, hour, min, sec)
+		FormatTime := fmt.Sprintf("%04d-%02d-%02d %02d:%02d:%02d", year, month, day, hour, min, sec)
 
 		return FormatTime
 
 	} else if format == 2 {
-		ldate := MatchReadFrom8(data)
+		ldate := MatchReadFrom4(data)<<32 | MatchReadFrom1(data[4:])<<24
 		yd := (ldate & 0x7FFFC00000000000) >> 46
 		year := yd / 13
 		month := yd - year*13
@@ -813,7 +782,7 @@ func ParseDateTime(data []byte) string {
 		min := (ldate & 0x0000000FC0000000) >> 30
 		sec := (ldate & 0x000000003F000000) >> 24
 
-		FormatTime := fmt.Sprintf("%02d-%02d-%02d %02d:%02d:%02d", year, month, day, hour, min, sec)
+		FormatTime := fmt.Sprintf("%04d-%02d-%02d %02d:%02d:%02d", year, month, day, hour, min, sec)
 
 		return FormatTime
 	}
@@ -833,7 +802,7 @@ func ParseDate(data []byte) string {
 	month = int(ldate % 16)
 	ldate /= 16
 	year = int(ldate)
-	DateTime := fmt.Sprintf("%02d-%02d-%02d", year, month, day)
+	DateTime := fmt.Sprintf("%04d-%02d-%02d", year, month, day)
 	return DateTime
 }
 
-- 
2.43.0


From 63fee8df6cc5f702bc6e09f9150237f69d67e18e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:16 +0000
Subject: [PATCH 09/29] fix: keep diagnostics of the decoders out of the SQL
 output

---
 recovery/utils/utils.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/recovery/utils/utils.go b/recovery/utils/utils.go
index 59c84e2..a0bf991 100644
--- a/recovery/utils/utils.go
+++ b/recovery/utils/utils.go
@@ -404,7 +404,7 @@ func MatchUllReadComPressed(b []byte, pos *uint64) uint64 {
 	n, num, err := MatchParseCompressed(b, *pos)
 	*pos += num
 	if err != nil {
-		fmt.Println(err.Error())
+		logs.Error(err.Error())
 	}
 	n <<= 32
 	n |= MatchReadFrom4(b[*pos:])
@@ -457,7 +457,7 @@ func MachUllGetMuchCompressedSize(num uint64) uint64 {
 	Num, err := strconv.ParseInt("FFFFFFFF", 16, 64)
 	n2, err := MatchGetCompressedSize(num & uint64(Num))
 	if err != nil {
-		fmt.Println(err.Error())
+		logs.Error(err.Error())
 	}
 	// the high part follows a marker byte.
 	return 1 + n1 + n2
@@ -543,14 +543,14 @@ func ParseInsertRecord(IsShort bool, data []byte, pos uint64) (uint64, error) {
 		OriginOffset, num, err := MatchParseCompressed(data, pos)
 
 		if err != nil {
-			fmt.Println(err.Error())
+			logs.Error(err.Error())
 		}
 		pos += num
 
 		MisMatchIndex, num, err := MatchParseCompressed(data, pos)
 
 		if err != nil {
-			fmt.Println(err.Error())
+			logs.Error(err.Error())
 		}
 		pos += num
 		logs.Debug("InfoAndStatusBits is ", InfoAndStatusBits, "OriginOffset is ",
@@ -591,7 +591,7 @@ func ParseData(DataType uint64, MySQLType uint64,
 			return GetUintValue(FixLength, data[:FieldLen]), nil
 		case MYSQL_TYPE_NEWDECIMAL:
 			// TODO: support it.
-			fmt.Println("test MYSQL_TYPE_NEWDECIMAL")
+			logs.Info("the new decimal data type, not support.")
 		case MYSQL_TYPE_STRING:
 			*IsBinary = true
 			return ParseBlob(data[:FieldLen]), nil
-- 
2.43.0


From 1ed81d34b8a4938105dda69b302bc71b8dd1efdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:46 +0000
Subject: [PATCH 10/29] fix: never decode a short read, and report read errors

---
 recovery/ibdata/parse.go | 10 ++++++----
 recovery/redo/parse.go   | 11 +++++++++--
 recovery/utils/utils.go  |  4 +++-
 3 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index 8e4041f..bd447ef 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -17,6 +17,7 @@ package ibdata
 import (
 	"errors"
 	"fmt"
+	"io"
 	"os"
 	"strings"
 	"sync"
@@ -214,10 +215,11 @@ func (parse *Parse) parseFile(path string) ([]Page, error) {
 	for {
 		// Read a page from data file.
 		data, err := utils.ReadNextBytes(file, DefaultPageSize)
-		if len(data) < DefaultPageSize {
-			if len(data) != 0 {
-				logs.Warn("next data bytes no more than 1 page, please check DefaultPageSize!")
-			}
+		if err == io.EOF {
+			break
+		}
+		if err == io.ErrUnexpectedEOF {
+			logs.Warn("next data bytes no more than 1 page, please check DefaultPageSize!")
 			break
 		}
 		if err != nil {
diff --git a/recovery/redo/parse.go b/recovery/redo/parse.go
index 7985960..54a80ac 100644
--- a/recovery/redo/parse.go
+++ b/recovery/redo/parse.go
@@ -17,6 +17,7 @@ package redo
 import (
 	"bytes"
 	"fmt"
+	"io"
 	"os"
 
 	"github.com/zbdba/db-recovery/recovery/ibdata"
@@ -90,9 +91,13 @@ func (parse *Parse) ParseRedoLogs(logFileList []string) error {
 		for {
 			// when parsing the redo log file, record the read position.
 			block, err := utils.ReadNextBytes(file, OS_FILE_LOG_BLOCK_SIZE)
-			if err != nil {
+			if err == io.EOF || err == io.ErrUnexpectedEOF {
 				break
 			}
+			if err != nil {
+				logs.Error("read redo log block failed, the error is ", err)
+				return err
+			}
 
 			// Parse the redo block blockHeader.
 			// The redo block consists of redo log blockHeader and redo log data.
@@ -192,7 +197,9 @@ func (parse *Parse) readRedoLogFileCheckpoint(file *os.File) error {
 	logs.Debugf("Checkpoint1 Number: 0x%X, LSN: 0x%X, Offset: 0x%d, BufferSize: %d, ArchivedLSN: 0x%X, Checksum1: 0x%X, Checksum2: 0x%X, CurrentFSP: 0x%X, Magic: 0x%X",
 		checkpoint1.Number, checkpoint1.LSN, checkpoint1.Offset, checkpoint1.BufferSize, checkpoint1.ArchivedLSN, checkpoint1.Checksum1, checkpoint1.Checksum2, checkpoint1.CurrentFSP, checkpoint1.Magic)
 
-	utils.ReadNextBytes(file, OS_FILE_LOG_BLOCK_SIZE)
+	if _, err = utils.ReadNextBytes(file, OS_FILE_LOG_BLOCK_SIZE); err != nil {
+		return err
+	}
 
 	checkpoint2 := Checkpoint{}
 	err = utils.ReadIntoStruct(file, &checkpoint2, OS_FILE_LOG_BLOCK_SIZE)
diff --git a/recovery/utils/utils.go b/recovery/utils/utils.go
index a0bf991..d29742e 100644
--- a/recovery/utils/utils.go
+++ b/recovery/utils/utils.go
@@ -19,6 +19,7 @@ import (
 	"encoding/binary"
 	"encoding/hex"
 	"fmt"
+	"io"
 	"io/ioutil"
 	"math"
 	"os"
@@ -209,7 +210,8 @@ func RecGetNthFieldOffs(offsets []uint64, n int, len *uint64) uint64 {
 func ReadNextBytes(file *os.File, number int) ([]byte, error) {
 	bytes := make([]byte, number)
 
-	_, err := file.Read(bytes)
+	// A single read may return less than asked for.
+	_, err := io.ReadFull(file, bytes)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From dfffcffb1080880712298b062a8e800d0625141f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:51 +0000
Subject: [PATCH 11/29] fix: close the redo log file when its header cannot be
 read

---
 recovery/redo/parse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recovery/redo/parse.go b/recovery/redo/parse.go
index 54a80ac..27d98a0 100644
--- a/recovery/redo/parse.go
+++ b/recovery/redo/parse.go
@@ -76,6 +76,7 @@ func (parse *Parse) ParseRedoLogs(logFileList []string) error {
 			logs.Error("Error while opening file, the error is ", err)
 			return err
 		}
+		defer file.Close()
 
 		// parse redo log header
 		if err = parse.readRedoLogFileHeader(file); err != nil {
@@ -114,7 +115,6 @@ func (parse *Parse) ParseRedoLogs(logFileList []string) error {
 			// Add all redo block data.
 			data = append(data, block[LOG_BLOCK_HDR_SIZE:blockHeader.BlockDataLen]...)
 		}
-		file.Close()
 	}
 
 	// Start parse redo log data.
-- 
2.43.0


From 056ad352454eb7eaa0f3614141543378c061e8cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:22 +0000
Subject: [PATCH 12/29] fix: flush the logs and exit non-zero when a command
 fails

---
 cmd/db-recovery/command.go | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/cmd/db-recovery/command.go b/cmd/db-recovery/command.go
index 4a038d0..517e519 100644
--- a/cmd/db-recovery/command.go
+++ b/cmd/db-recovery/command.go
@@ -17,6 +17,7 @@ package main
 import (
 	"flag"
 	"fmt"
+	"os"
 	"runtime"
 	"strings"
 
@@ -99,8 +100,7 @@ func FromDataFile(cmd *cobra.Command, args []string) {
 	flag.Parse()
 	err := logs.InitLogs(LogPath, LogLevel)
 	if err != nil {
-		fmt.Println(err.Error())
-		return
+		exitWithError(err.Error())
 	}
 
 	isRecovery := false
@@ -108,8 +108,7 @@ func FromDataFile(cmd *cobra.Command, args []string) {
 	p := ibdata.NewParse()
 	err = p.ParseDictPage(SysDataFile)
 	if err != nil {
-		fmt.Println(err.Error())
-		return
+		exitWithError(err.Error())
 	}
 
 	if OpType == "RecoveryData" {
@@ -118,14 +117,20 @@ func FromDataFile(cmd *cobra.Command, args []string) {
 
 	err = p.ParseDataPage(TableFile, DBName, TableName, isRecovery)
 	if err != nil {
-		fmt.Println(err)
-		return
+		exitWithError(err)
 	}
 
 	// flush logs
 	logs.FlushLogs()
 }
 
+// exitWithError reports why a command failed, keeps its logs and fails the process.
+func exitWithError(msg ...interface{}) {
+	fmt.Println(msg...)
+	logs.FlushLogs()
+	os.Exit(1)
+}
+
 func NewFromRedoFileCommand() *cobra.Command {
 	jc := &cobra.Command{
 		Use:   "FromRedoFile [option]",
@@ -152,8 +157,7 @@ func FromRedoFile(cmd *cobra.Command, args []string) {
 	flag.Parse()
 	err := logs.InitLogs(LogPath, LogLevel)
 	if err != nil {
-		fmt.Println(err.Error())
-		return
+		exitWithError(err.Error())
 	}
 
 	p := redo.NewParse(TableName, DBName)
@@ -161,13 +165,12 @@ func FromRedoFile(cmd *cobra.Command, args []string) {
 	err = p.ParseDictPage(SysDataFile)
 	if err != nil {
 		logs.Error("parse redo failed, error: ", err.Error())
-		return
+		exitWithError("parse redo failed, error: ", err.Error())
 	}
 
 	err = p.ParseRedoLogs(strings.Split(RedoFile, ","))
 	if err != nil {
-		fmt.Println("parse redo failed, error: ", err.Error())
-		return
+		exitWithError("parse redo failed, error: ", err.Error())
 	}
 
 	// flush logs
-- 
2.43.0


From 91830a452902043d746de3f44000a2639a410599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:54 +0000
Subject: [PATCH 13/29] fix: keep SQL NULL, the text NULL, binary and BIT
 values apart in the output

---
 recovery/ibdata/format.go | 19 ++++++++++---------
 recovery/ibdata/parse.go  |  5 ++---
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/recovery/ibdata/format.go b/recovery/ibdata/format.go
index 08224d0..28db7f6 100644
--- a/recovery/ibdata/format.go
+++ b/recovery/ibdata/format.go
@@ -33,23 +33,24 @@ func (parse *Parse) makeReplaceIntoStatement(AllColumns [][]Columns, table strin
 				buf.WriteByte(',')
 			}
 
+			if column.FieldValue == nil {
+				buf.WriteString("NULL")
+				continue
+			}
+
+			format := "%v"
 			if column.MySQLType == utils.MYSQL_TYPE_BIT {
 				buf.WriteString("b")
+				format = "%b"
 			}
 
 			if column.IsBinary {
 				buf.WriteString("unhex(")
 			}
 
-			if column.FieldValue != nil && column.FieldValue != "NULL" {
-				buf.WriteByte('\'')
-				buf.WriteString(utils.EscapeValue(fmt.Sprintf("%v", column.FieldValue)))
-				buf.WriteByte('\'')
-			} else {
-				//buf.WriteByte('\'')
-				//buf.WriteByte('\'')
-				buf.WriteString("NULL")
-			}
+			buf.WriteByte('\'')
+			buf.WriteString(utils.EscapeValue(fmt.Sprintf(format, column.FieldValue)))
+			buf.WriteByte('\'')
 
 			if column.IsBinary {
 				buf.WriteString(")")
diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index bd447ef..f6f756b 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -936,9 +936,8 @@ func (parse *Parse) parseRecords(d []byte, o []byte, offsets []uint64, columns [
 		// Get field len from offset array.
 		data := utils.RecGetNthField(o, offsets, i, &fieldLen)
 		if uint64(len(data)) < fieldLen {
-			if fieldLen == 0xFFFFFFFF {
-				columns[i].FieldValue = "NULL"
-			}
+			// SQL NULL, or a value that is not complete in this page.
+			columns[i].FieldValue = nil
 			continue
 		}
 
-- 
2.43.0


From b20624600eb13416feca4f70fdbfd8ad8c3e820f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:26 +0000
Subject: [PATCH 14/29] fix: keep the NULL and external flags of REDUNDANT rows

---
 recovery/ibdata/parse.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index f6f756b..81b579e 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -1091,7 +1091,6 @@ func (parse *Parse) ibRecInitOffsetsOld(d []byte, offset uint64, o []byte, offse
 				// #define REC_OFFS_SQL_NULL	((ulint) 1 << 31)
 				offs |= 1 << 31
 			}
-			offs &= 0xffff
 
 			// #define rec_offs_base(offsets) (offsets + REC_OFFS_HEADER_SIZE)
 			(*offsets)[2:][1+i] = offs
@@ -1112,11 +1111,10 @@ func (parse *Parse) ibRecInitOffsetsOld(d []byte, offset uint64, o []byte, offse
 			// #define REC_2BYTE_EXTERN_MASK	0x4000UL
 			if (offs & 0x4000) != 0 {
 				// #define REC_2BYTE_EXTERN_MASK	0x4000UL
-				offs = uint64(int(offs) & ^0x8000)
+				offs = uint64(int(offs) & ^0x4000)
 				// #define REC_OFFS_EXTERNAL	((ulint) 1 << 30)
 				offs = offs | (1 << 30)
 			}
-			offs &= 0xffff
 			(*offsets)[2:][1+i] = offs
 		}
 	}
-- 
2.43.0


From da36ebd894c16882e207257793dc13c452bdabf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:17 +0000
Subject: [PATCH 15/29] fix: make update statements that run and keep every
 value as it was

---
 recovery/ibdata/structure.go |  2 ++
 recovery/redo/mlog.go        |  2 ++
 recovery/redo/parse.go       | 33 ++++++++++++++++++++++++---------
 3 files changed, 28 insertions(+), 9 deletions(-)

diff --git a/recovery/ibdata/structure.go b/recovery/ibdata/structure.go
index 8c2b617..90bb13a 100644
--- a/recovery/ibdata/structure.go
+++ b/recovery/ibdata/structure.go
@@ -53,6 +53,8 @@ type Fields struct {
 	ColumnName string
 	//ColumnType  uint64
 	ColumnValue interface{}
+	MySQLType   uint64
+	IsBinary    bool
 }
 
 // DataDict store the data dictionary info.
diff --git a/recovery/redo/mlog.go b/recovery/redo/mlog.go
index 8889ffb..04aed53 100644
--- a/recovery/redo/mlog.go
+++ b/recovery/redo/mlog.go
@@ -156,6 +156,8 @@ func (parse *Parse) mlogUndoInsert(data []byte, pos *uint64) error {
 
 		logs.Debug("the table is ", Table.TableName, " table id is ", tableID, " unique value is ")
 		v.ColumnValue = value
+		v.MySQLType = column.MySQLType
+		v.IsBinary = column.IsBinary
 
 		*pos += FiledLen
 	}
diff --git a/recovery/redo/parse.go b/recovery/redo/parse.go
index 27d98a0..b70dbce 100644
--- a/recovery/redo/parse.go
+++ b/recovery/redo/parse.go
@@ -526,28 +526,28 @@ func (parse *Parse) validateLogHeader(logType uint64, spaceID uint64) bool {
 
 func (parse *Parse) makeSQL(table ibdata.Tables, primaryColumns []*ibdata.Fields, columns []*ibdata.Columns) {
 
-	// TODO: deal with null value.
+	// Without a key or a changed column there is no statement to make.
+	if len(primaryColumns) == 0 || len(columns) == 0 {
+		logs.Error("can't make update statement, table name is ", table.TableName)
+		return
+	}
 
 	// update statement
 	var SetValues string
 	for i, c := range columns {
-		var SetValue string
-		if c.FieldValue != nil {
-			SetValue = fmt.Sprintf("`%s`='%v'", c.FieldName, c.FieldValue)
-		} else {
-			SetValue = fmt.Sprintf("`%s`=NULL", c.FieldName)
-		}
+		SetValue := fmt.Sprintf("`%s`=%s", c.FieldName, makeSQLValue(c.FieldValue, c.MySQLType, c.IsBinary))
 		if i == (len(columns) - 1) {
 			SetValues += SetValue
 		} else {
-			SetValues += SetValue + " and "
+			SetValues += SetValue + ", "
 		}
 	}
 
 	var whereConditions string
 
 	for j, v := range primaryColumns {
-		whereCondition := fmt.Sprintf("`%s`='%v'", v.ColumnName, v.ColumnValue)
+		whereCondition := fmt.Sprintf("`%s`=%s", v.ColumnName,
+			makeSQLValue(v.ColumnValue, v.MySQLType, v.IsBinary))
 		if j == (len(primaryColumns) - 1) {
 			whereConditions += whereCondition
 		} else {
@@ -561,3 +561,18 @@ func (parse *Parse) makeSQL(table ibdata.Tables, primaryColumns []*ibdata.Fields
 	logs.Debug("query is ", query)
 	fmt.Println(query)
 }
+
+// makeSQLValue write a column value as a SQL literal.
+func makeSQLValue(value interface{}, mySQLType uint64, isBinary bool) string {
+	if value == nil {
+		return "NULL"
+	}
+	if mySQLType == utils.MYSQL_TYPE_BIT {
+		return fmt.Sprintf("b'%b'", value)
+	}
+	literal := "'" + utils.EscapeValue(fmt.Sprintf("%v", value)) + "'"
+	if isBinary {
+		return "unhex(" + literal + ")"
+	}
+	return literal
+}
-- 
2.43.0


From c5534d14d810ca1c651eb3af5276d55acfc9ff0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:22 +0000
Subject: [PATCH 16/29] fix: do not print updates of another database's table
 of the same name

---
 recovery/redo/mlog.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recovery/redo/mlog.go b/recovery/redo/mlog.go
index 04aed53..41118b9 100644
--- a/recovery/redo/mlog.go
+++ b/recovery/redo/mlog.go
@@ -225,7 +225,7 @@ func (parse *Parse) mlogUndoInsert(data []byte, pos *uint64) error {
 			}
 		} else if parse.DBName == "" && parse.TableName == "" {
 			parse.makeSQL(Table, primaryFields, columns)
-		} else if parse.TableName != "" && parse.TableName == Table.TableName {
+		} else if parse.DBName == "" && parse.TableName == Table.TableName {
 			parse.makeSQL(Table, primaryFields, columns)
 		}
 	}
-- 
2.43.0


From cbc21fd26d61f7d663ee016a99d98cf509678f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:00 +0000
Subject: [PATCH 17/29] fix: skip redo records by their full length

---
 recovery/redo/mlog.go  | 12 +++++++++++-
 recovery/redo/parse.go |  4 ++--
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/recovery/redo/mlog.go b/recovery/redo/mlog.go
index 41118b9..b5dd6dc 100644
--- a/recovery/redo/mlog.go
+++ b/recovery/redo/mlog.go
@@ -386,6 +386,12 @@ func (parse *Parse) mlogFileOp(data []byte, pos *uint64, myType uint64) {
 	*pos += 2
 	*pos += nameLen
 
+	// a rename also has the new name.
+	if myType == MLOG_FILE_RENAME || myType == MLOG_FILE_RENAME2 {
+		nameLen = utils.MatchReadFrom2(data[*pos:])
+		*pos += 2
+		*pos += nameLen
+	}
 }
 
 // MLOG_REC_MARK ...
@@ -467,6 +473,7 @@ func (parse *Parse) mlogCompRecSecDeleteMark(data []byte, pos *uint64) error {
 	position, err := utils.ParseIndex(true, data, *pos)
 	if err == nil {
 		*pos = position
+		parse.mlogRecSecDeleteMark(data, pos)
 	}
 	return err
 }
@@ -541,7 +548,10 @@ func (parse *Parse) mlogRecUpdateInPlace(data []byte, pos *uint64, MyType uint64
 					logs.Debug("fieldNo is ", fieldNo, " fieldLen is ", fieldLen)
 				}
 				*pos += num
-				*pos += fieldLen
+				// SQL NULL has no data.
+				if fieldLen != 0xFFFFFFFF {
+					*pos += fieldLen
+				}
 			}
 		}
 	}
diff --git a/recovery/redo/parse.go b/recovery/redo/parse.go
index b70dbce..3c607a9 100644
--- a/recovery/redo/parse.go
+++ b/recovery/redo/parse.go
@@ -264,8 +264,8 @@ func (parse *Parse) parseRedoBlockData(data []byte) error {
 		pos++
 		startPos := pos
 
-		if logType == MLOG_MULTI_REC_END {
-			// don't parse MLOG_MULTI_REC_END type redo log.
+		if logType == MLOG_MULTI_REC_END || logType == MLOG_DUMMY_RECORD {
+			// these types are a single byte, without space id and page no.
 			continue
 		}
 
-- 
2.43.0


From 8969aa9b806d70cc56ea1020f6afd0388fdaa8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:01 +0000
Subject: [PATCH 18/29] fix: keep the undo parser inside its record, and NULL
 apart from missing data

---
 recovery/redo/mlog.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/recovery/redo/mlog.go b/recovery/redo/mlog.go
index b5dd6dc..341bc12 100644
--- a/recovery/redo/mlog.go
+++ b/recovery/redo/mlog.go
@@ -81,8 +81,9 @@ func (parse *Parse) mlogUndoInsert(data []byte, pos *uint64) error {
 	defer func() {
 		if err := recover(); err != nil {
 			logs.Error("skip error, the error is ", err)
-			*pos = startPos + dataLen
 		}
+		// whatever happened, the next record is behind this one.
+		*pos = startPos + dataLen
 	}()
 
 	typeCmpl := int64(utils.MatchReadFrom1(data[*pos:]))
@@ -191,13 +192,19 @@ func (parse *Parse) mlogUndoInsert(data []byte, pos *uint64) error {
 			}
 
 			fLen, num, err := utils.MatchParseCompressed(data, *pos)
+			if err != nil {
+				return err
+			}
 			logs.Debug("fLen is ", fLen, " num is ", num, "Field Type is ", c.FieldType)
 			*pos += num
 
 			var value interface{}
-			if *pos+fLen > uint64(len(data)) {
+			if fLen == 0xFFFFFFFF {
+				// SQL NULL has no data.
 				value = nil
 				fLen = 0
+			} else if *pos+fLen > startPos+dataLen {
+				return fmt.Errorf("data is too short")
 			} else {
 				value, err = utils.ParseData(c.FieldType, c.MySQLType, data[*pos:], fLen,
 					int(utils.GetFixedLength(c.FieldType, c.FieldLen)), c.IsUnsigned, &c.IsBinary)
-- 
2.43.0


From 4c42e4309d8247b68ed427544d904df467e5fff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:06 +0000
Subject: [PATCH 19/29] fix: take the payload of a redo block only from between
 its header and trailer

---
 recovery/redo/parse.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/recovery/redo/parse.go b/recovery/redo/parse.go
index 3c607a9..e3bdde0 100644
--- a/recovery/redo/parse.go
+++ b/recovery/redo/parse.go
@@ -108,8 +108,12 @@ func (parse *Parse) ParseRedoLogs(logFileList []string) error {
 			}
 
 			// LOG_BLOCK_TRL_SIZE, for checksum.
-			if blockHeader.BlockDataLen >= OS_FILE_LOG_BLOCK_SIZE {
-				blockHeader.BlockDataLen -= LOG_BLOCK_TRL_SIZE
+			if blockHeader.BlockDataLen > OS_FILE_LOG_BLOCK_SIZE-LOG_BLOCK_TRL_SIZE {
+				blockHeader.BlockDataLen = OS_FILE_LOG_BLOCK_SIZE - LOG_BLOCK_TRL_SIZE
+			}
+			if blockHeader.BlockDataLen < LOG_BLOCK_HDR_SIZE {
+				logs.Error("redo log block is shorter than its header, data len is ", blockHeader.BlockDataLen)
+				break
 			}
 
 			// Add all redo block data.
-- 
2.43.0


From 292677b6cb01b6e292631ed925a7052f679d5c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:11 +0000
Subject: [PATCH 20/29] fix: stop at a cycle in the record list of a page

---
 recovery/ibdata/parse.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index 81b579e..62413e9 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -858,9 +858,17 @@ func (parse *Parse) parsePage(data []byte, pos int, columns []Columns, isRecover
 	}
 
 	var totalLen uint64
+	visited := make(map[uint64]bool)
 	for {
 		// TODO: const
 		if offset < (16384-6) && (offset != supremum) {
+			// A damaged record list may lead back to a record which is already read.
+			if visited[offset] {
+				logs.Error("record list has a cycle, offset is ", offset)
+				break
+			}
+			visited[offset] = true
+
 			var c []Columns
 			logs.Debug("offset is ", offset, " supremum is ", supremum)
 
-- 
2.43.0


From 42b2a3aec8ab86719f3dea67830a303af6538aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:17 +0000
Subject: [PATCH 21/29] fix: report a table the data dictionary does not have

---
 recovery/ibdata/parse.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index 62413e9..1a865f2 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -1058,9 +1058,10 @@ func (parse *Parse) getTableColumnsFromDict(dbName string, tableName string) ([]
 	for _, table := range parse.TableMap {
 		if table.DBName == dbName && table.TableName == tableName {
 			columns = table.Columns
+			return columns, nil
 		}
 	}
-	return columns, nil
+	return columns, errors.New("table not found: " + dbName + "." + tableName)
 }
 
 func (parse *Parse) getTableFromDict(dbName string, tableName string) (Tables, error) {
@@ -1068,9 +1069,10 @@ func (parse *Parse) getTableFromDict(dbName string, tableName string) (Tables, e
 	for _, t := range parse.TableMap {
 		if t.DBName == dbName && t.TableName == tableName {
 			table = t
+			return table, nil
 		}
 	}
-	return table, nil
+	return table, errors.New("table not found: " + dbName + "." + tableName)
 }
 
 // reference /root/mysql-5.6.30/storage/innobase/include/rem0rec.ic
-- 
2.43.0


From 4e45047806923b39e058fe7b3b6c67000761d3a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:48 +0000
Subject: [PATCH 22/29] fix: put the primary key columns first without losing
 any column

---
 recovery/ibdata/parse.go | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index 1a865f2..7e43705 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -327,16 +327,26 @@ func (parse *Parse) movePrimaryKeyFirst() {
 
 // moveColumns2First ...
 func (parse *Parse) moveColumns2First(fields []*Fields, columns []Columns) []Columns {
+	var first, rest []Columns
+	for _, field := range fields {
+		for i := 0; i < len(columns); i++ {
+			if field.ColumnName == columns[i].FieldName {
+				first = append(first, columns[i])
+			}
+		}
+	}
 	for i := 0; i < len(columns); i++ {
-		for j, field := range fields {
+		isKey := false
+		for _, field := range fields {
 			if field.ColumnName == columns[i].FieldName {
-				tempField := columns[i]
-				columns = append(columns[:j], columns[j+1:]...)
-				columns = append([]Columns{tempField}, columns...)
+				isKey = true
 			}
 		}
+		if !isKey {
+			rest = append(rest, columns[i])
+		}
 	}
-	return columns
+	return append(first, rest...)
 }
 
 // Table have some internal filed in MySQL, such as DB_TRX_ID/DB_ROLL_PTR/DB_ROW_ID.
-- 
2.43.0


From 777681e8cbc50d269c545cae14f764e9ebe9d2ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:56 +0000
Subject: [PATCH 23/29] fix: read latin1 VARCHAR columns as variable length

---
 recovery/utils/utils.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/recovery/utils/utils.go b/recovery/utils/utils.go
index d29742e..ebe9604 100644
--- a/recovery/utils/utils.go
+++ b/recovery/utils/utils.go
@@ -700,8 +700,8 @@ func GetFixedLengthByMySQLType(MySQLType uint64, FieldLen uint64) uint64 {
 func GetFixedLength(DataType uint64, FieldLen uint64) uint64 {
 
 	switch DataType {
-	//case DATA_VARCHAR:
-	//	return 0
+	case DATA_VARCHAR:
+		return 0
 	//case DATA_CHAR:
 	//return FieldLen / 3
 	//case DATA_FIXBINARY:
-- 
2.43.0


From af1df0bb857b96965edfbec7465abb4fa28d3906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:01 +0000
Subject: [PATCH 24/29] fix: read the two byte length of long VARBINARY columns

---
 recovery/ibdata/parse.go | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index 7e43705..5bf9e1e 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -460,18 +460,13 @@ func (parse *Parse) getAllColumns() error {
 				}
 			}
 
-			var TempFieldLen uint64 = 0
-			if c[5].FieldValue.(uint64) != utils.DATA_BINARY {
-				TempFieldLen = c[7].FieldValue.(uint64)
-			}
-
 			t.Columns = append(t.Columns,
 				Columns{
 					FieldName: c[4].FieldValue.(string),
 					FieldType: c[5].FieldValue.(uint64),
 					MySQLType: MySQLType,
 					FieldPos:  c[1].FieldValue.(uint64),
-					FieldLen:  TempFieldLen,
+					FieldLen:  c[7].FieldValue.(uint64),
 					IsNUll:    IsNull, IsUnsigned: IsUnsigned,
 					TableID:  c[0].FieldValue.(uint64),
 					IsBinary: IsBinary})
@@ -1045,9 +1040,18 @@ func (parse *Parse) makeSysFieldsColumns() []Columns {
 	return columns
 }
 
+// fixedLength is the length of a fixed length column, and 0 for the others.
+func fixedLength(column Columns) uint64 {
+	// VARBINARY, the data dictionary's own columns of this type have no MySQL type.
+	if column.FieldType == utils.DATA_BINARY && column.MySQLType == utils.MYSQL_TYPE_VARCHAR {
+		return 0
+	}
+	return utils.GetFixedLength(column.FieldType, column.FieldLen)
+}
+
 func (parse *Parse) checkFieldSize(offsets *[]uint64, columns []Columns) bool {
 	for i := 0; i < len(columns); i++ {
-		if utils.GetFixedLength(columns[i].FieldType, columns[i].FieldLen) != 0 {
+		if fixedLength(columns[i]) != 0 {
 			dataLen := utils.RecOffsNthSize(offsets, i)
 			if dataLen == 0 && columns[i].IsNUll {
 				continue
@@ -1175,7 +1179,7 @@ func (parse *Parse) ibRecInitOffsetsNew(d []byte, offset uint64, o []byte, offse
 			nullMask <<= 1
 		}
 
-		if utils.GetFixedLength(table.Columns[i].FieldType, table.Columns[i].FieldLen) == 0 {
+		if fixedLength(table.Columns[i]) == 0 {
 			length = uint64(lens[0])
 			lens = d[(len(d) - len(lens) - 1):]
 			//      if (debug) printf("Variable-length field: read the length\n");
-- 
2.43.0


From 295a807c18db5fb35b74d20cac26742ec4f0608b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:47 +0000
Subject: [PATCH 25/29] fix: accept options in front of the sub command

The command line was parsed a second time by the flag package, which stops
at the first option cobra knows and it does not.
---
 cmd/db-recovery/command.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cmd/db-recovery/command.go b/cmd/db-recovery/command.go
index 517e519..201a757 100644
--- a/cmd/db-recovery/command.go
+++ b/cmd/db-recovery/command.go
@@ -96,8 +96,8 @@ func NewFromDataFileCommand() *cobra.Command {
 
 func FromDataFile(cmd *cobra.Command, args []string) {
 
-	// init logger
-	flag.Parse()
+	// init logger, cobra has read the command line already.
+	_ = flag.CommandLine.Parse(nil)
 	err := logs.InitLogs(LogPath, LogLevel)
 	if err != nil {
 		exitWithError(err.Error())
@@ -153,8 +153,8 @@ func NewFromRedoFileCommand() *cobra.Command {
 
 func FromRedoFile(cmd *cobra.Command, args []string) {
 
-	// init logger
-	flag.Parse()
+	// init logger, cobra has read the command line already.
+	_ = flag.CommandLine.Parse(nil)
 	err := logs.InitLogs(LogPath, LogLevel)
 	if err != nil {
 		exitWithError(err.Error())
-- 
2.43.0


From e446ce6295a9867ac573a037383b2a0cf7448922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:29 +0000
Subject: [PATCH 26/29] fix: print no update when the key of an undo record
 runs over its end

---
 recovery/redo/mlog.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/recovery/redo/mlog.go b/recovery/redo/mlog.go
index 341bc12..ca75386 100644
--- a/recovery/redo/mlog.go
+++ b/recovery/redo/mlog.go
@@ -221,6 +221,11 @@ func (parse *Parse) mlogUndoInsert(data []byte, pos *uint64) error {
 			logs.Debug("values is ", value)
 		}
 
+		// The key or the last length may have run over the end of the record.
+		if *pos > startPos+dataLen {
+			return fmt.Errorf("data is too short")
+		}
+
 		// Make data to sql statement, only for update statement.
 		// Print sql statement when user identify the table name or the database name,
 		// if user don't identify table and database name, print all sql statement.
-- 
2.43.0


From 4c8bf7e679a67f7a6790be8004955d4c38b7df96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:54 +0000
Subject: [PATCH 27/29] fix: read a field that starts behind the end of the
 page as NULL

---
 recovery/utils/utils.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/recovery/utils/utils.go b/recovery/utils/utils.go
index ebe9604..b883d86 100644
--- a/recovery/utils/utils.go
+++ b/recovery/utils/utils.go
@@ -175,6 +175,10 @@ func RecGetBitField1(rec []byte, offset uint64, offs uint64, mask uint64, shift
 // ((rec) + rec_get_nth_field_offs(offsets, n, len))
 func RecGetNthField(rec []byte, offsets []uint64, n int, length *uint64) []byte {
 	offs := RecGetNthFieldOffs(offsets, n, length)
+	if offs > uint64(len(rec)) {
+		// The field starts behind the end of the page.
+		return nil
+	}
 	return rec[offs:]
 }
 
-- 
2.43.0


From d3bf05c3429c4b9074abfc60bb7ceec646614ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:55 +0000
Subject: [PATCH 28/29] fix: read no record from a page whose infimum leads
 nowhere

---
 recovery/ibdata/parse.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index 5bf9e1e..9587f69 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -855,6 +855,10 @@ func (parse *Parse) parsePage(data []byte, pos int, columns []Columns, isRecover
 	if isRecovery {
 		offset = pageFree
 	} else {
+		if b == uint64(0) {
+			// The record list is empty.
+			return allColumns
+		}
 		if utils.PageIsCompact(data) == 0 {
 			offset = b
 		} else {
-- 
2.43.0


From 0b1f31944555018058a8c2f98fcecc129d669ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:18 +0000
Subject: [PATCH 29/29] fix: read a table with the newest of several
 definitions of its name

---
 recovery/ibdata/parse.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index 9587f69..92861a9 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -1073,13 +1073,19 @@ func (parse *Parse) checkFieldSize(offsets *[]uint64, columns []Columns) bool {
 
 func (parse *Parse) getTableColumnsFromDict(dbName string, tableName string) ([]Columns, error) {
 	var columns []Columns
-	for _, table := range parse.TableMap {
-		if table.DBName == dbName && table.TableName == tableName {
-			columns = table.Columns
-			return columns, nil
+	var newest uint64
+	found := false
+	// The dictionary pages may still hold the rows of a dropped table of the
+	// same name, the table created last has the highest id.
+	for tableID, table := range parse.TableMap {
+		if table.DBName == dbName && table.TableName == tableName && (!found || tableID > newest) {
+			columns, newest, found = table.Columns, tableID, true
 		}
 	}
-	return columns, errors.New("table not found: " + dbName + "." + tableName)
+	if !found {
+		return columns, errors.New("table not found: " + dbName + "." + tableName)
+	}
+	return columns, nil
 }
 
 func (parse *Parse) getTableFromDict(dbName string, tableName string) (Tables, error) {
-- 
2.43.0

