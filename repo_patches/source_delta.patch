From 76555b91c1ac5d0823c3ae863180905e05257fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:31 +0000
Subject: [PATCH 01/52] fix: keep every column and the key order when moving
 key columns first

---
 recovery/ibdata/parse.go | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index 8e4041f..11d6179 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -325,16 +325,22 @@ func (parse *Parse) movePrimaryKeyFirst() {
 
 // moveColumns2First ...
 func (parse *Parse) moveColumns2First(fields []*Fields, columns []Columns) []Columns {
-	for i := 0; i < len(columns); i++ {
-		for j, field := range fields {
-			if field.ColumnName == columns[i].FieldName {
-				tempField := columns[i]
-				columns = append(columns[:j], columns[j+1:]...)
-				columns = append([]Columns{tempField}, columns...)
+	ordered := make([]Columns, 0, len(columns))
+	isKey := make(map[string]bool)
+	for _, field := range fields {
+		for _, column := range columns {
+			if column.FieldName == field.ColumnName && !isKey[column.FieldName] {
+				ordered = append(ordered, column)
+				isKey[column.FieldName] = true
 			}
 		}
 	}
-	return columns
+	for _, column := range columns {
+		if !isKey[column.FieldName] {
+			ordered = append(ordered, column)
+		}
+	}
+	return ordered
 }
 
 // Table have some internal filed in MySQL, such as DB_TRX_ID/DB_ROLL_PTR/DB_ROW_ID.
-- 
2.43.0


From 6ee7f27fb28b5cae877228adf64451025fdfb5db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:32 +0000
Subject: [PATCH 02/52] fix: print the values of a row in the declared column
 order

---
 recovery/ibdata/format.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/recovery/ibdata/format.go b/recovery/ibdata/format.go
index 08224d0..6d2003d 100644
--- a/recovery/ibdata/format.go
+++ b/recovery/ibdata/format.go
@@ -3,6 +3,7 @@ package ibdata
 import (
 	"bytes"
 	"fmt"
+	"sort"
 
 	"github.com/zbdba/db-recovery/recovery/logs"
 	"github.com/zbdba/db-recovery/recovery/utils"
@@ -15,6 +16,11 @@ func (parse *Parse) makeReplaceIntoStatement(AllColumns [][]Columns, table strin
 
 	for _, columns := range AllColumns {
 
+		// The values are stored in the physical order, print them in the declared order.
+		sort.SliceStable(columns, func(i, j int) bool {
+			return columns[i].FieldPos < columns[j].FieldPos
+		})
+
 		buf.WriteString(fmt.Sprintf("replace into `%s`.`%s` values (", database, table))
 		firstCol := true
 
-- 
2.43.0


From 552d16bf68f1d664af7eee793599879802b50362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:32 +0000
Subject: [PATCH 03/52] fix: sort table columns and index fields by their
 recorded position

---
 recovery/ibdata/parse.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index 11d6179..0506fc3 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -18,6 +18,7 @@ import (
 	"errors"
 	"fmt"
 	"os"
+	"sort"
 	"strings"
 	"sync"
 
@@ -299,14 +300,17 @@ func (parse *Parse) parseFilHeader(data []byte) (Page, error) {
 // sortColumns sort columns by field position.
 // // TODO: why some table fields is not sort?
 func (parse *Parse) sortColumns() {
-	var sortedColumns []Columns
 	for _, table := range parse.TableMap {
-		for i, field := range table.Columns {
-			if field.FieldPos == uint64(i) {
-				sortedColumns = append(sortedColumns, field)
-			}
+		columns := table.Columns
+		sort.SliceStable(columns, func(i, j int) bool {
+			return columns[i].FieldPos < columns[j].FieldPos
+		})
+		for _, idx := range table.Indexes {
+			fields := idx.Fields
+			sort.SliceStable(fields, func(i, j int) bool {
+				return fields[i].ColumnPos < fields[j].ColumnPos
+			})
 		}
-		table.Columns = sortedColumns
 	}
 }
 
-- 
2.43.0


From edeb09fd27acae0f2a706d89d2c70041df4bdea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:33 +0000
Subject: [PATCH 04/52] fix: recognise tables clustered on a unique key that is
 not named PRIMARY

---
 recovery/ibdata/parse.go     | 4 ++--
 recovery/ibdata/structure.go | 7 +++++++
 recovery/redo/mlog.go        | 2 +-
 3 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index 0506fc3..a6d06e0 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -319,7 +319,7 @@ func (parse *Parse) movePrimaryKeyFirst() {
 
 	for tableID, table := range parse.TableMap {
 		for _, idx := range table.Indexes {
-			if idx.Name == "PRIMARY" {
+			if idx.IsClustered() && idx.Name != "GEN_CLUST_INDEX" {
 				table.Columns = parse.moveColumns2First(idx.Fields, table.Columns)
 			}
 		}
@@ -354,7 +354,7 @@ func (parse *Parse) moveColumns2First(fields []*Fields, columns []Columns) []Col
 func (parse *Parse) addInternalColumns() {
 	for tableID, table := range parse.TableMap {
 		for _, idx := range table.Indexes {
-			if idx.Name == "PRIMARY" {
+			if idx.IsClustered() && idx.Name != "GEN_CLUST_INDEX" {
 				// primary key exists, add DB_TRX_ID, DB_ROLL_PTR after primary field.
 				TrxColumns := parse.addInternalColumn("DB_TRX_ID", tableID, idx.FieldNum)
 				RollPtrColumns := parse.addInternalColumn("DB_ROLL_PTR", tableID, idx.FieldNum+1)
diff --git a/recovery/ibdata/structure.go b/recovery/ibdata/structure.go
index 8c2b617..f442ac8 100644
--- a/recovery/ibdata/structure.go
+++ b/recovery/ibdata/structure.go
@@ -47,6 +47,13 @@ type Indexes struct {
 	Fields    []*Fields
 }
 
+// IsClustered tells whether the rows of the table are stored in this index.
+// Reference mysql-5.7.19/storage/innobase/include/dict0mem.h
+// #define DICT_CLUSTERED	1
+func (idx Indexes) IsClustered() bool {
+	return idx.IndexType&1 != 0 || idx.Name == "PRIMARY" || idx.Name == "GEN_CLUST_INDEX"
+}
+
 // Fields store the fields of the table index.
 type Fields struct {
 	ColumnPos  uint64
diff --git a/recovery/redo/mlog.go b/recovery/redo/mlog.go
index 8889ffb..4a0e1b8 100644
--- a/recovery/redo/mlog.go
+++ b/recovery/redo/mlog.go
@@ -275,7 +275,7 @@ func (parse *Parse) getPrimaryKey(table ibdata.Tables) ([]*ibdata.Fields, error)
 	var fields []*ibdata.Fields
 
 	for _, idx := range table.Indexes {
-		if strings.TrimSpace(idx.Name) == "PRIMARY" || strings.TrimSpace(idx.Name) == "GEN_CLUST_INDEX" {
+		if idx.IsClustered() {
 			if strings.TrimSpace(idx.Name) == "GEN_CLUST_INDEX" {
 				fields = []*ibdata.Fields{&ibdata.Fields{ColumnPos: 0, ColumnName: "DB_ROW_ID"}}
 			} else {
-- 
2.43.0


From bf624b8e2250a94b92caaee833b19e123bb4c25b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:33 +0000
Subject: [PATCH 05/52] fix: report a table that is missing from the dictionary

---
 recovery/ibdata/parse.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index a6d06e0..ffd09f0 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -1055,13 +1055,15 @@ func (parse *Parse) checkFieldSize(offsets *[]uint64, columns []Columns) bool {
 }
 
 func (parse *Parse) getTableColumnsFromDict(dbName string, tableName string) ([]Columns, error) {
-	var columns []Columns
 	for _, table := range parse.TableMap {
 		if table.DBName == dbName && table.TableName == tableName {
-			columns = table.Columns
+			if len(table.Columns) == 0 {
+				return nil, fmt.Errorf("table `%s`.`%s` has no columns in the dictionary", dbName, tableName)
+			}
+			return table.Columns, nil
 		}
 	}
-	return columns, nil
+	return nil, fmt.Errorf("table `%s`.`%s` not found in the dictionary", dbName, tableName)
 }
 
 func (parse *Parse) getTableFromDict(dbName string, tableName string) (Tables, error) {
-- 
2.43.0


From e78e3235afb933261b255a920a469a2c306f3dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:12 +0000
Subject: [PATCH 06/52] fix: keep the two upper bits of unsigned three byte
 integers

---
 recovery/utils/utils.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recovery/utils/utils.go b/recovery/utils/utils.go
index 805121c..fffba32 100644
--- a/recovery/utils/utils.go
+++ b/recovery/utils/utils.go
@@ -98,7 +98,7 @@ func GetUintValue(FixLength int, value []byte) uint64 {
 	case 2:
 		return MatchReadFrom2(value)
 	case 3:
-		return MatchReadFrom3(value) & 0x3FFFFF
+		return MatchReadFrom3(value)
 	case 4:
 		return MatchReadFrom4(value)
 	case 5:
-- 
2.43.0


From 55cdbf79fe75d9de8f46d27107b49aeaaa1f475b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:13 +0000
Subject: [PATCH 07/52] fix: do not read eight bytes of five, six and seven
 byte integers

---
 recovery/utils/utils.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/recovery/utils/utils.go b/recovery/utils/utils.go
index fffba32..94351fe 100644
--- a/recovery/utils/utils.go
+++ b/recovery/utils/utils.go
@@ -102,11 +102,11 @@ func GetUintValue(FixLength int, value []byte) uint64 {
 	case 4:
 		return MatchReadFrom4(value)
 	case 5:
-		return MatchReadFrom8(value) >> 24
+		return UtUllCreate(MatchReadFrom1(value), MatchReadFrom4(value[1:]))
 	case 6:
-		return MatchReadFrom8(value) >> 16
+		return UtUllCreate(MatchReadFrom2(value), MatchReadFrom4(value[2:]))
 	case 7:
-		return MatchReadFrom8(value) >> 8
+		return MatchReadFrom7(value)
 	case 8:
 		return MatchReadFrom8(value)
 	}
-- 
2.43.0


From 366b728555817ca74e6cb20ab6699eb967c6a042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:13 +0000
Subject: [PATCH 08/52] fix: print bit values in binary, and NULL only for NULL
 values

---
 recovery/ibdata/format.go | 37 ++++++++++++++++---------------------
 recovery/ibdata/parse.go  |  5 ++---
 2 files changed, 18 insertions(+), 24 deletions(-)

diff --git a/recovery/ibdata/format.go b/recovery/ibdata/format.go
index 6d2003d..7aea7cb 100644
--- a/recovery/ibdata/format.go
+++ b/recovery/ibdata/format.go
@@ -39,27 +39,7 @@ func (parse *Parse) makeReplaceIntoStatement(AllColumns [][]Columns, table strin
 				buf.WriteByte(',')
 			}
 
-			if column.MySQLType == utils.MYSQL_TYPE_BIT {
-				buf.WriteString("b")
-			}
-
-			if column.IsBinary {
-				buf.WriteString("unhex(")
-			}
-
-			if column.FieldValue != nil && column.FieldValue != "NULL" {
-				buf.WriteByte('\'')
-				buf.WriteString(utils.EscapeValue(fmt.Sprintf("%v", column.FieldValue)))
-				buf.WriteByte('\'')
-			} else {
-				//buf.WriteByte('\'')
-				//buf.WriteByte('\'')
-				buf.WriteString("NULL")
-			}
-
-			if column.IsBinary {
-				buf.WriteString(")")
-			}
+			buf.WriteString(FormatValue(column))
 		}
 
 		buf.WriteString(");")
@@ -72,3 +52,18 @@ func (parse *Parse) makeReplaceIntoStatement(AllColumns [][]Columns, table strin
 	}
 
 }
+
+// FormatValue make the SQL literal which denotes the value of the column.
+func FormatValue(column Columns) string {
+	if column.FieldValue == nil {
+		return "NULL"
+	}
+	if column.MySQLType == utils.MYSQL_TYPE_BIT {
+		return fmt.Sprintf("b'%b'", column.FieldValue)
+	}
+	value := "'" + utils.EscapeValue(fmt.Sprintf("%v", column.FieldValue)) + "'"
+	if column.IsBinary {
+		return "unhex(" + value + ")"
+	}
+	return value
+}
diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index ffd09f0..535cf13 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -944,9 +944,8 @@ func (parse *Parse) parseRecords(d []byte, o []byte, offsets []uint64, columns [
 		// Get field len from offset array.
 		data := utils.RecGetNthField(o, offsets, i, &fieldLen)
 		if uint64(len(data)) < fieldLen {
-			if fieldLen == 0xFFFFFFFF {
-				columns[i].FieldValue = "NULL"
-			}
+			// NULL, or a value which is not in the page.
+			columns[i].FieldValue = nil
 			continue
 		}
 
-- 
2.43.0


From 69477d9543cb8eb24c2ce80b796229cb28fc5921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:14 +0000
Subject: [PATCH 09/52] fix: do not drop the text 0001-01-01T00:00:00Z

---
 recovery/utils/utils.go | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/recovery/utils/utils.go b/recovery/utils/utils.go
index 94351fe..5c8c877 100644
--- a/recovery/utils/utils.go
+++ b/recovery/utils/utils.go
@@ -938,11 +938,6 @@ func EscapeValue(colValue string) string {
 		last = i + 1
 	}
 	colBuffer.WriteString(colValue[last:])
-	// TODO: If the source is really 0001-01-01T00:00:00Z, it will cause data inconsistency.
-	if colBuffer.String() == "0001-01-01T00:00:00Z" {
-		colBuffer.Reset()
-		colBuffer.WriteString("")
-	}
 	return colBuffer.String()
 }
 
-- 
2.43.0


From 3334dede07f9e1069f3d793d361c333d3d305f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:14 +0000
Subject: [PATCH 10/52] fix: print timestamps on a 24 hour clock and keep the
 zero timestamp

---
 recovery/utils/utils.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/recovery/utils/utils.go b/recovery/utils/utils.go
index 5c8c877..eb65e20 100644
--- a/recovery/utils/utils.go
+++ b/recovery/utils/utils.go
@@ -882,7 +882,10 @@ func ParseTime(data []byte) string {
 func ParseTimeStamp(data []byte) string {
 	// TODO: add time_precision
 	t := MatchReadFrom4(data)
-	tm := time.Unix(int64(t), 0).Format("2006-01-02 03:04:05")
+	if t == 0 {
+		return "0000-00-00 00:00:00"
+	}
+	tm := time.Unix(int64(t), 0).Format("2006-01-02 15:04:05")
 	return tm
 }
 
-- 
2.43.0


From baf214b738827f1e0039c3ea310f86a89f2e0902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:15 +0000
Subject: [PATCH 11/52] fix: decode datetime values from their own five bytes
 for every year

---
 recovery/utils/utils.go | 97 ++++++-----------------------------------
 1 file changed, 13 insertions(+), 84 deletions(-)

diff --git a/recovery/utils/utils.go b/recovery/utils/utils.go
index eb65e20..95621e9 100644
--- a/recovery/utils/utils.go
+++ b/recovery/utils/utils.go
@@ -738,91 +738,20 @@ func GetMaxLength(MySQLType uint64) {
 	}
 }
 
-// GetTimeFormat ...
-func GetTimeFormat(data []byte) int {
-	d := MatchReadFrom8(data)
-	var year, month, day, hour, min, sec int
-
-	r := d &^ (1 << 63)
-	sec = int(r % 100)
-	r /= 100
-	min = int(r % 100)
-	r /= 100
-	hour = int(r % 100)
-	r /= 100
-	day = int(r % 100)
-	r /= 100
-	month = int(r % 100)
-	r /= 100
-	year = int(d % 10000)
-	if year > 1990 && year < 2100 && month >= 1 && month <= 12 &&
-		day >= 1 && day <= 31 && hour >= 0 && hour <= 23 &&
-		min >= 0 && min <= 59 && sec >= 0 && sec <= 59 {
-		return 1
-	}
-
-	var sign uint64
-	sign = 0
-	sign = d >> 63
-	if sign == 0 {
-		return 0
-	}
-
-	yd := (d & 0x7FFFC00000000000) >> 46
-	year = int(yd / 13)
-	month = int(int(yd) - (year * 13))
-	day = int((d & 0x00003E0000000000) >> 41)
-	hour = int((d & 0x000001F000000000) >> 36)
-	min = int((d & 0x0000000FC0000000) >> 30)
-	sec = int((d & 0x000000003F000000) >> 24)
-	if year > 1990 && year < 2100 && month >= 1 &&
-		month <= 12 && day >= 1 && day <= 31 &&
-		hour >= 0 && hour <= 23 && min >= 0 &&
-		min <= 59 && sec >= 0 && sec <= 59 {
-		return 2
-	}
-	return 0
-}
-
-// ParseDateTime ...
+// ParseDateTime parse the integer part of a datetime value, it has five bytes:
+// 1 bit sign (always 1), 17 bits year*13+month, 5 bits day, 5 bits hour,
+// 6 bits minute, 6 bits second. The fractional part follows it.
 func ParseDateTime(data []byte) string {
-	format := GetTimeFormat(data)
-	if format == 1 || format == 0 {
-		ldate := MatchReadFrom8(data)
-		ldate = ldate &^ (1 << 63)
-		sec := ldate % 100
-		ldate /= 100
-		min := ldate % 100
-		ldate /= 100
-		hour := ldate % 100
-		ldate /= 100
-		day := ldate % 100
-		ldate /= 100
-		month := ldate % 100
-		ldate /= 100
-		year := ldate % 10000
-
-		FormatTime := fmt.Sprintf("%02d-%02d-%02d %02d:%02d:%02d", year, month, day, hour, min, sec)
-
-		return FormatTime
-
-	} else if format == 2 {
-		ldate := MatchReadFrom8(data)
-		yd := (ldate & 0x7FFFC00000000000) >> 46
-		year := yd / 13
-		month := yd - year*13
-		day := (ldate & 0x00003E0000000000) >> 41
-		hour := (ldate & 0x000001F000000000) >> 36
-		min := (ldate & 0x0000000FC0000000) >> 30
-		sec := (ldate & 0x000000003F000000) >> 24
-
-		FormatTime := fmt.Sprintf("%02d-%02d-%02d %02d:%02d:%02d", year, month, day, hour, min, sec)
-
-		return FormatTime
-	}
-
-	return ""
-
+	ldate := UtUllCreate(MatchReadFrom1(data), MatchReadFrom4(data[1:]))
+	yd := (ldate & 0x7FFFC00000) >> 22
+	year := yd / 13
+	month := yd - year*13
+	day := (ldate & 0x00003E0000) >> 17
+	hour := (ldate & 0x000001F000) >> 12
+	min := (ldate & 0x0000000FC0) >> 6
+	sec := ldate & 0x000000003F
+
+	return fmt.Sprintf("%04d-%02d-%02d %02d:%02d:%02d", year, month, day, hour, min, sec)
 }
 
 // ParseDate ...
-- 
2.43.0


From 5a234cc498ac04d6fe544fbbf57f5e89ab8175d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:15 +0000
Subject: [PATCH 12/52] fix: print the year of a date with four digits

---
 recovery/utils/utils.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recovery/utils/utils.go b/recovery/utils/utils.go
index 95621e9..712b7ae 100644
--- a/recovery/utils/utils.go
+++ b/recovery/utils/utils.go
@@ -765,7 +765,7 @@ func ParseDate(data []byte) string {
 	month = int(ldate % 16)
 	ldate /= 16
 	year = int(ldate)
-	DateTime := fmt.Sprintf("%02d-%02d-%02d", year, month, day)
+	DateTime := fmt.Sprintf("%04d-%02d-%02d", year, month, day)
 	return DateTime
 }
 
-- 
2.43.0


From c8eb6a7e2c88be108ac6e5042131f74403ae7933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:15 +0000
Subject: [PATCH 13/52] fix: print the zero year as 0000

---
 recovery/utils/utils.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/recovery/utils/utils.go b/recovery/utils/utils.go
index 712b7ae..3a252a9 100644
--- a/recovery/utils/utils.go
+++ b/recovery/utils/utils.go
@@ -621,8 +621,11 @@ func ParseData(DataType uint64, MySQLType uint64,
 			DateTime := ParseDate(data)
 			return DateTime, nil
 		case MYSQL_TYPE_YEAR:
-			FormatYear := MatchReadFrom1(data) + 1900
-			return FormatYear, nil
+			FormatYear := MatchReadFrom1(data)
+			if FormatYear == 0 {
+				return "0000", nil
+			}
+			return FormatYear + 1900, nil
 		default:
 			if IsUnsigned {
 				return GetUintValue(FixLength, data[:FieldLen]), nil
-- 
2.43.0


From 1442f9289bac22fc87c355d06d13dcbc65ee92f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:16 +0000
Subject: [PATCH 14/52] fix: strip only the trailing pad spaces of char values

---
 recovery/utils/utils.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recovery/utils/utils.go b/recovery/utils/utils.go
index 3a252a9..51c9a06 100644
--- a/recovery/utils/utils.go
+++ b/recovery/utils/utils.go
@@ -645,7 +645,7 @@ func ParseData(DataType uint64, MySQLType uint64,
 	case DATA_VARMYSQL:
 		return string(data[:FieldLen]), nil
 	case DATA_MYSQL:
-		return strings.TrimSpace(string(data[:FieldLen])), nil
+		return strings.TrimRight(string(data[:FieldLen]), " "), nil
 	case DATA_BLOB:
 		// TODO: deal with binary data.
 		if *IsBinary {
-- 
2.43.0


From 033989f4c5f682e4ec9b72c728cd3ff0639c3c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:16 +0000
Subject: [PATCH 15/52] fix: treat latin1 varchar columns as variable length
 columns

---
 recovery/ibdata/parse.go | 16 ++++++++--------
 recovery/utils/utils.go  |  4 ++--
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index 535cf13..847e5e5 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -972,8 +972,8 @@ func (parse *Parse) makeSysTablesColumns() []Columns {
 
 	var columns []Columns
 	columns = append(columns, Columns{FieldName: "NAME", FieldType: 4, FieldPos: 0, FieldLen: 0})
-	columns = append(columns, Columns{FieldName: "DB_TRX_ID", FieldType: 1, FieldPos: 1, FieldLen: 6})
-	columns = append(columns, Columns{FieldName: "DB_ROLL_PTR", FieldType: 1, FieldPos: 2, FieldLen: 7})
+	columns = append(columns, Columns{FieldName: "DB_TRX_ID", FieldType: utils.DATA_MISSING, FieldPos: 1, FieldLen: 6})
+	columns = append(columns, Columns{FieldName: "DB_ROLL_PTR", FieldType: utils.DATA_MISSING, FieldPos: 2, FieldLen: 7})
 	columns = append(columns, Columns{FieldName: "ID", FieldType: 4, FieldPos: 3, FieldLen: 8})
 	columns = append(columns, Columns{FieldName: "N_COLS", FieldType: 6, FieldPos: 4, FieldLen: 4})
 	columns = append(columns, Columns{FieldName: "TYPE", FieldType: 6, FieldPos: 5, FieldLen: 4, IsUnsigned: true})
@@ -992,8 +992,8 @@ func (parse *Parse) makeSysColumnsColumns() []Columns {
 	var columns []Columns
 	columns = append(columns, Columns{FieldName: "TABLE_ID", FieldType: 4, FieldPos: 0, FieldLen: 8})
 	columns = append(columns, Columns{FieldName: "POS", FieldType: 6, FieldPos: 1, FieldLen: 4, IsUnsigned: true})
-	columns = append(columns, Columns{FieldName: "DB_TRX_ID", FieldType: 1, FieldPos: 2, FieldLen: 6})
-	columns = append(columns, Columns{FieldName: "DB_ROLL_PTR", FieldType: 1, FieldPos: 3, FieldLen: 7})
+	columns = append(columns, Columns{FieldName: "DB_TRX_ID", FieldType: utils.DATA_MISSING, FieldPos: 2, FieldLen: 6})
+	columns = append(columns, Columns{FieldName: "DB_ROLL_PTR", FieldType: utils.DATA_MISSING, FieldPos: 3, FieldLen: 7})
 	columns = append(columns, Columns{FieldName: "NAME", FieldType: 4, FieldPos: 4, FieldLen: 0})
 	columns = append(columns, Columns{FieldName: "MTYPE", FieldType: 6, FieldPos: 5, FieldLen: 4, IsUnsigned: true})
 	columns = append(columns, Columns{FieldName: "PRTYPE", FieldType: 6, FieldPos: 6, FieldLen: 4, IsUnsigned: true})
@@ -1010,8 +1010,8 @@ func (parse *Parse) makeSysIndexesColumns() []Columns {
 	var columns []Columns
 	columns = append(columns, Columns{FieldName: "TABLE_ID", FieldType: 4, FieldPos: 0, FieldLen: 8})
 	columns = append(columns, Columns{FieldName: "ID", FieldType: 4, FieldPos: 1, FieldLen: 8})
-	columns = append(columns, Columns{FieldName: "DB_TRX_ID", FieldType: 1, FieldPos: 2, FieldLen: 6})
-	columns = append(columns, Columns{FieldName: "DB_ROLL_PTR", FieldType: 1, FieldPos: 3, FieldLen: 7})
+	columns = append(columns, Columns{FieldName: "DB_TRX_ID", FieldType: utils.DATA_MISSING, FieldPos: 2, FieldLen: 6})
+	columns = append(columns, Columns{FieldName: "DB_ROLL_PTR", FieldType: utils.DATA_MISSING, FieldPos: 3, FieldLen: 7})
 	columns = append(columns, Columns{FieldName: "NAME", FieldType: 4, FieldPos: 4, FieldLen: 0})
 	columns = append(columns, Columns{FieldName: "N_FIELDS", FieldType: 6, FieldPos: 5, FieldLen: 4, IsUnsigned: true})
 	columns = append(columns, Columns{FieldName: "TYPE", FieldType: 6, FieldPos: 6, FieldLen: 4, IsUnsigned: true})
@@ -1028,8 +1028,8 @@ func (parse *Parse) makeSysFieldsColumns() []Columns {
 	var columns []Columns
 	columns = append(columns, Columns{FieldName: "INDEX_ID", FieldType: 4, FieldPos: 0, FieldLen: 8})
 	columns = append(columns, Columns{FieldName: "POS", FieldType: 6, FieldPos: 1, FieldLen: 4, IsUnsigned: true})
-	columns = append(columns, Columns{FieldName: "DB_TRX_ID", FieldType: 1, FieldPos: 2, FieldLen: 6})
-	columns = append(columns, Columns{FieldName: "DB_ROLL_PTR", FieldType: 1, FieldPos: 3, FieldLen: 7})
+	columns = append(columns, Columns{FieldName: "DB_TRX_ID", FieldType: utils.DATA_MISSING, FieldPos: 2, FieldLen: 6})
+	columns = append(columns, Columns{FieldName: "DB_ROLL_PTR", FieldType: utils.DATA_MISSING, FieldPos: 3, FieldLen: 7})
 	columns = append(columns, Columns{FieldName: "COL_NAME", FieldType: 4, FieldPos: 4, FieldLen: 0})
 
 	return columns
diff --git a/recovery/utils/utils.go b/recovery/utils/utils.go
index 51c9a06..9de767f 100644
--- a/recovery/utils/utils.go
+++ b/recovery/utils/utils.go
@@ -704,8 +704,8 @@ func GetFixedLengthByMySQLType(MySQLType uint64, FieldLen uint64) uint64 {
 func GetFixedLength(DataType uint64, FieldLen uint64) uint64 {
 
 	switch DataType {
-	//case DATA_VARCHAR:
-	//	return 0
+	case DATA_VARCHAR:
+		return 0
 	//case DATA_CHAR:
 	//return FieldLen / 3
 	//case DATA_FIXBINARY:
-- 
2.43.0


From 372b70bc9e39da6b1cd8a05b6db5109ab5b65ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:17 +0000
Subject: [PATCH 16/52] fix: read two byte lengths of varbinary columns longer
 than 255 bytes

---
 recovery/ibdata/parse.go     | 3 ++-
 recovery/ibdata/structure.go | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index 847e5e5..81f7291 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -470,6 +470,7 @@ func (parse *Parse) getAllColumns() error {
 					MySQLType: MySQLType,
 					FieldPos:  c[1].FieldValue.(uint64),
 					FieldLen:  TempFieldLen,
+					MaxLen:    c[7].FieldValue.(uint64),
 					IsNUll:    IsNull, IsUnsigned: IsUnsigned,
 					TableID:  c[0].FieldValue.(uint64),
 					IsBinary: IsBinary})
@@ -1173,7 +1174,7 @@ func (parse *Parse) ibRecInitOffsetsNew(d []byte, offset uint64, o []byte, offse
 			//      if (debug) printf("Variable-length field: read the length\n");
 			/* Variable-length field: read the length */
 
-			if table.Columns[i].FieldLen > 255 || table.Columns[i].FieldType == utils.DATA_BLOB {
+			if table.Columns[i].MaxLen > 255 || table.Columns[i].FieldType == utils.DATA_BLOB {
 
 				if length&0x80 != 0 {
 
diff --git a/recovery/ibdata/structure.go b/recovery/ibdata/structure.go
index f442ac8..706b978 100644
--- a/recovery/ibdata/structure.go
+++ b/recovery/ibdata/structure.go
@@ -31,6 +31,7 @@ type Columns struct {
 	MySQLType  uint64
 	FieldPos   uint64
 	FieldLen   uint64
+	MaxLen     uint64
 	FieldValue interface{}
 	IsNUll     bool
 	IsBinary   bool
-- 
2.43.0


From 130bac9301172fb35fbf8f76ca1194e4b5282c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:17 +0000
Subject: [PATCH 17/52] fix: keep the NULL flag of fields in the redundant row
 format

---
 recovery/ibdata/parse.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index 81f7291..525e6f1 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -1095,14 +1095,13 @@ func (parse *Parse) ibRecInitOffsetsOld(d []byte, offset uint64, o []byte, offse
 
 		var i uint64
 		for i = 0; i < fieldNum; i++ {
-			offs = utils.Rec1GetFieldEndInfo(d, uint64(len(d)-len(o)), uint64(i))
+			offs = utils.Rec1GetFieldEndInfo(d, uint64(len(d)-len(o)), uint64(i)) & 0xffff
 			// REC_1BYTE_SQL_NULL_MASK
 			if (offs & 0x80) != 0 {
 				offs = uint64(int(offs) & ^0x80)
 				// #define REC_OFFS_SQL_NULL	((ulint) 1 << 31)
 				offs |= 1 << 31
 			}
-			offs &= 0xffff
 
 			// #define rec_offs_base(offsets) (offsets + REC_OFFS_HEADER_SIZE)
 			(*offsets)[2:][1+i] = offs
@@ -1112,7 +1111,7 @@ func (parse *Parse) ibRecInitOffsetsOld(d []byte, offset uint64, o []byte, offse
 		(*offsets)[2] = uint64(offs)
 		var i uint64
 		for i = 0; i < fieldNum; i++ {
-			offs = utils.Rec2GetFieldEndInfo(d, uint64(len(d)-len(o)), uint64(i))
+			offs = utils.Rec2GetFieldEndInfo(d, uint64(len(d)-len(o)), uint64(i)) & 0xffff
 			if (offs & 0x8000) != 0 {
 				// offs &= ~REC_2BYTE_SQL_NULL_MASK
 				offs = uint64(int(offs) & ^0x8000)
@@ -1123,11 +1122,10 @@ func (parse *Parse) ibRecInitOffsetsOld(d []byte, offset uint64, o []byte, offse
 			// #define REC_2BYTE_EXTERN_MASK	0x4000UL
 			if (offs & 0x4000) != 0 {
 				// #define REC_2BYTE_EXTERN_MASK	0x4000UL
-				offs = uint64(int(offs) & ^0x8000)
+				offs = uint64(int(offs) & ^0x4000)
 				// #define REC_OFFS_EXTERNAL	((ulint) 1 << 30)
 				offs = offs | (1 << 30)
 			}
-			offs &= 0xffff
 			(*offsets)[2:][1+i] = offs
 		}
 	}
-- 
2.43.0


From 7c173e5d39a4b342c9f3fedaaf8690cbc0ed7930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:18 +0000
Subject: [PATCH 18/52] fix: do not print debug text between the statements

---
 recovery/utils/utils.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recovery/utils/utils.go b/recovery/utils/utils.go
index 9de767f..be5cbdd 100644
--- a/recovery/utils/utils.go
+++ b/recovery/utils/utils.go
@@ -598,7 +598,7 @@ func ParseData(DataType uint64, MySQLType uint64,
 			return GetUintValue(FixLength, data[:FieldLen]), nil
 		case MYSQL_TYPE_NEWDECIMAL:
 			// TODO: support it.
-			fmt.Println("test MYSQL_TYPE_NEWDECIMAL")
+			logs.Info("the decimal data type, not support.")
 		case MYSQL_TYPE_STRING:
 			*IsBinary = true
 			return ParseBlob(data[:FieldLen]), nil
-- 
2.43.0


From e865836248e1b079a0c75bac29e6476df259e546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:01 +0000
Subject: [PATCH 19/52] fix: a damaged record must not crash the recovery of
 the other pages

---
 recovery/ibdata/parse.go | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index 525e6f1..2dca99c 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -801,16 +801,14 @@ func (parse *Parse) parsePageHeader(page *Page) *Page {
 // 7.Fil Trailer
 // Read all those info and parse according to its protocol.
 // TODO: support compress and encrypt page.
-func (parse *Parse) parsePage(data []byte, pos int, columns []Columns, isRecovery bool, pageFree uint64) [][]Columns {
+func (parse *Parse) parsePage(data []byte, pos int, columns []Columns, isRecovery bool, pageFree uint64) (allColumns [][]Columns) {
 
-	// catch panic
-	//defer func() {
-	//	if err := recover(); err != nil {
-	//		logs.Error("skip error, the error is ", err)
-	//	}
-	//}()
-
-	var allColumns [][]Columns
+	// The page may be damaged, catch panic and return the records which have been read.
+	defer func() {
+		if err := recover(); err != nil {
+			logs.Error("skip error, the error is ", err)
+		}
+	}()
 
 	// The PAGE_BTR_SEG_LEAF length
 	pos += 10
-- 
2.43.0


From 5b0602db33219818e9c0beeb7240758a58a12428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:02 +0000
Subject: [PATCH 20/52] fix: stop at a cycle in the record list of a damaged
 page

---
 recovery/ibdata/parse.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index 2dca99c..3e15df1 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -865,9 +865,18 @@ func (parse *Parse) parsePage(data []byte, pos int, columns []Columns, isRecover
 	}
 
 	var totalLen uint64
+	visited := make(map[uint64]bool)
 	for {
 		// TODO: const
 		if offset < (16384-6) && (offset != supremum) {
+
+			// The records of a damaged page may be linked in a cycle.
+			if visited[offset] {
+				logs.Error("the record list have a cycle, offset is ", offset)
+				break
+			}
+			visited[offset] = true
+
 			var c []Columns
 			logs.Debug("offset is ", offset, " supremum is ", supremum)
 
-- 
2.43.0


From 75cb32f1bfd5077bab53c0047f52f7508f152aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:02 +0000
Subject: [PATCH 21/52] fix: prefer the page at its own position over its
 doublewrite copies

---
 recovery/ibdata/parse.go | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index 3e15df1..c2a29ae 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -210,9 +210,10 @@ func (parse *Parse) parseFile(path string) ([]Page, error) {
 	}
 	defer file.Close()
 
-	pageMap := make(map[uint64]string)
+	// The index of the stored page of every page offset.
+	pageMap := make(map[uint64]int)
 
-	for {
+	for pageNo := uint64(0); ; pageNo++ {
 		// Read a page from data file.
 		data, err := utils.ReadNextBytes(file, DefaultPageSize)
 		if len(data) < DefaultPageSize {
@@ -236,14 +237,27 @@ func (parse *Parse) parseFile(path string) ([]Page, error) {
 		// Store the page.
 		page.OriginalData = data
 
-		// TODO: why have the same pages?
-		// Store the page into the pageMap.
-		if _, ok := pageMap[page.fh.FIL_PAGE_OFFSET]; !ok {
-			pages = append(pages, page)
-			pageMap[page.fh.FIL_PAGE_OFFSET] = "have"
+		// A page can have copies at other positions of the file, for example in the
+		// doublewrite buffer. Prefer the page at its own position.
+		idx, ok := pageMap[page.fh.FIL_PAGE_OFFSET]
+		if ok && page.fh.FIL_PAGE_OFFSET != pageNo {
+			continue
+		}
+		if ok {
+			pages[idx].OriginalData = nil
+		}
+		pageMap[page.fh.FIL_PAGE_OFFSET] = len(pages)
+		pages = append(pages, page)
+	}
+
+	// Drop the replaced copies.
+	stored := pages[:0]
+	for _, page := range pages {
+		if page.OriginalData != nil {
+			stored = append(stored, page)
 		}
 	}
-	return pages, err
+	return stored, err
 }
 
 func (parse *Parse) parseFilHeader(data []byte) (Page, error) {
-- 
2.43.0


From 7d1338664fede4f992d37c819a868ddd61eb5b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:02 +0000
Subject: [PATCH 22/52] fix: read the dictionary from its leaf pages only,
 wherever they are in the file

---
 recovery/ibdata/parse.go | 39 +++++++++++++++++++++++++++++----------
 1 file changed, 29 insertions(+), 10 deletions(-)

diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index c2a29ae..9be5031 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -63,26 +63,42 @@ func (parse *Parse) ParseDictPage(path string) error {
 	}
 
 	// Get all dict pages, and use map to store all dict page's data.
+	// The root pages are stored first, they tell the index ids.
+	isRoot := func(page Page) bool {
+		return page.fh.FIL_PAGE_OFFSET == systemPage.sp.DICT_HDR_TABLES ||
+			page.fh.FIL_PAGE_OFFSET == systemPage.sp.DICT_HDR_COLUMNS ||
+			page.fh.FIL_PAGE_OFFSET == systemPage.sp.DICT_HDR_INDEXES ||
+			page.fh.FIL_PAGE_OFFSET == systemPage.sp.DICT_HDR_FIELDS
+	}
+	sort.SliceStable(pages, func(i, j int) bool {
+		return isRoot(pages[i]) && !isRoot(pages[j])
+	})
+
 	for _, page := range pages {
 
+		// Only index pages store the dict records.
+		if page.fh.FIL_PAGE_TYPE != FilPageIndex {
+			continue
+		}
+
 		// TODO: Parse undo page from sys data file.
 		//if parse.fh.FIL_PAGE_TYPE == uint64(2) {
 		//	P.ParseUndoPageHeader(&parse)
 		//}
 
-		if page.fh.FIL_PAGE_OFFSET == systemPage.sp.DICT_HDR_TABLES ||
-			page.fh.FIL_PAGE_OFFSET == systemPage.sp.DICT_HDR_COLUMNS ||
-			page.fh.FIL_PAGE_OFFSET == systemPage.sp.DICT_HDR_INDEXES ||
-			page.fh.FIL_PAGE_OFFSET == systemPage.sp.DICT_HDR_FIELDS {
+		if isRoot(page) {
 
 			var ds []DataDict
 			parse.parsePageHeader(&page)
-			ds = append(ds,
-				DataDict{
-					IndexId:    page.ph.PAGE_INDEX_ID,
-					PageOffset: page.fh.FIL_PAGE_OFFSET,
-					data:       page.OriginalData,
-					pos:        len(page.OriginalData) - len(page.data)})
+			// The root page of a large dict table only have node pointers.
+			if page.ph.PAGE_LEVEL == 0 {
+				ds = append(ds,
+					DataDict{
+						IndexId:    page.ph.PAGE_INDEX_ID,
+						PageOffset: page.fh.FIL_PAGE_OFFSET,
+						data:       page.OriginalData,
+						pos:        len(page.OriginalData) - len(page.data)})
+			}
 			parse.D.Store(page.ph.PAGE_INDEX_ID, ds)
 
 			logs.Debug("page offset is ", page.fh.FIL_PAGE_OFFSET,
@@ -93,6 +109,9 @@ func (parse *Parse) ParseDictPage(path string) error {
 				if k == page.ph.PAGE_INDEX_ID {
 					ds := v.([]DataDict)
 					parse.parsePageHeader(&page)
+					if page.ph.PAGE_LEVEL != 0 {
+						return true
+					}
 					ds = append(ds,
 						DataDict{
 							IndexId:    page.ph.PAGE_INDEX_ID,
-- 
2.43.0


From 00b24e6ca1a90ed025342c1e87a318e8a49fc30c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:03 +0000
Subject: [PATCH 23/52] fix: report a damaged data dictionary instead of
 crashing

---
 recovery/ibdata/parse.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index 9be5031..2145a04 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -43,7 +43,15 @@ func NewParse() *Parse {
 }
 
 // ParseDictPage get table struct in dict page.
-func (parse *Parse) ParseDictPage(path string) error {
+func (parse *Parse) ParseDictPage(path string) (err error) {
+
+	// The file may not be a system tablespace, or it may be damaged.
+	defer func() {
+		if e := recover(); e != nil {
+			err = fmt.Errorf("parse the data dictionary failed, error: %v", e)
+			logs.Error(err.Error())
+		}
+	}()
 
 	pages, err := parse.parseFile(path)
 	if err != nil {
-- 
2.43.0


From fd0195065523ed8a20f5a8f937a958a5e2b9d1f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:03 +0000
Subject: [PATCH 24/52] fix: do not read past a partial last page, and report
 read errors

---
 recovery/ibdata/parse.go |  9 +++++----
 recovery/utils/utils.go  | 11 ++++++-----
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index 2145a04..e6e37c8 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -17,6 +17,7 @@ package ibdata
 import (
 	"errors"
 	"fmt"
+	"io"
 	"os"
 	"sort"
 	"strings"
@@ -243,16 +244,16 @@ func (parse *Parse) parseFile(path string) ([]Page, error) {
 	for pageNo := uint64(0); ; pageNo++ {
 		// Read a page from data file.
 		data, err := utils.ReadNextBytes(file, DefaultPageSize)
+		if err != nil && err != io.EOF {
+			logs.Error("read data from file failed, error: ", err.Error())
+			return pages, err
+		}
 		if len(data) < DefaultPageSize {
 			if len(data) != 0 {
 				logs.Warn("next data bytes no more than 1 page, please check DefaultPageSize!")
 			}
 			break
 		}
-		if err != nil {
-			logs.Error("read data from file failed, error: ", err.Error())
-			return pages, err
-		}
 
 		// Parse the page file header.
 		page, err := parse.parseFilHeader(data)
diff --git a/recovery/utils/utils.go b/recovery/utils/utils.go
index be5cbdd..1082a59 100644
--- a/recovery/utils/utils.go
+++ b/recovery/utils/utils.go
@@ -19,6 +19,7 @@ import (
 	"encoding/binary"
 	"encoding/hex"
 	"fmt"
+	"io"
 	"io/ioutil"
 	"math"
 	"os"
@@ -209,12 +210,12 @@ func RecGetNthFieldOffs(offsets []uint64, n int, len *uint64) uint64 {
 func ReadNextBytes(file *os.File, number int) ([]byte, error) {
 	bytes := make([]byte, number)
 
-	_, err := file.Read(bytes)
-	if err != nil {
-		return nil, err
+	// The last bytes of the file may be less than the number.
+	n, err := io.ReadFull(file, bytes)
+	if n > 0 && err == io.ErrUnexpectedEOF {
+		err = nil
 	}
-
-	return bytes, nil
+	return bytes[:n], err
 }
 
 // MatchReadFrom1 ...
-- 
2.43.0


From 829c305733f44b131de6831a7bd9025bba55497b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:47 +0000
Subject: [PATCH 25/52] fix: separate the assignments of an update statement by
 commas

---
 recovery/redo/parse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recovery/redo/parse.go b/recovery/redo/parse.go
index 7985960..78e6939 100644
--- a/recovery/redo/parse.go
+++ b/recovery/redo/parse.go
@@ -533,7 +533,7 @@ func (parse *Parse) makeSQL(table ibdata.Tables, primaryColumns []*ibdata.Fields
 		if i == (len(columns) - 1) {
 			SetValues += SetValue
 		} else {
-			SetValues += SetValue + " and "
+			SetValues += SetValue + ", "
 		}
 	}
 
-- 
2.43.0


From 9778c4e5505bdd01c11484f5a0f635d23a6581d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:47 +0000
Subject: [PATCH 26/52] fix: escape the values of update statements

---
 recovery/redo/mlog.go  | 12 +++++++-----
 recovery/redo/parse.go | 13 +++----------
 2 files changed, 10 insertions(+), 15 deletions(-)

diff --git a/recovery/redo/mlog.go b/recovery/redo/mlog.go
index 4a0e1b8..57171ee 100644
--- a/recovery/redo/mlog.go
+++ b/recovery/redo/mlog.go
@@ -136,6 +136,7 @@ func (parse *Parse) mlogUndoInsert(data []byte, pos *uint64) error {
 		return err
 	}
 
+	var primaryColumns []ibdata.Columns
 	for _, v := range primaryFields {
 		column := parse.getColumnsByName(Table, v.ColumnName)
 		// get the unique key.
@@ -155,7 +156,8 @@ func (parse *Parse) mlogUndoInsert(data []byte, pos *uint64) error {
 		}
 
 		logs.Debug("the table is ", Table.TableName, " table id is ", tableID, " unique value is ")
-		v.ColumnValue = value
+		column.FieldValue = value
+		primaryColumns = append(primaryColumns, column)
 
 		*pos += FiledLen
 	}
@@ -217,14 +219,14 @@ func (parse *Parse) mlogUndoInsert(data []byte, pos *uint64) error {
 		// if user don't identify table and database name, print all sql statement.
 		if Table.DBName == parse.DBName {
 			if Table.TableName == parse.TableName {
-				parse.makeSQL(Table, primaryFields, columns)
+				parse.makeSQL(Table, primaryColumns, columns)
 			} else if parse.TableName == "" {
-				parse.makeSQL(Table, primaryFields, columns)
+				parse.makeSQL(Table, primaryColumns, columns)
 			}
 		} else if parse.DBName == "" && parse.TableName == "" {
-			parse.makeSQL(Table, primaryFields, columns)
+			parse.makeSQL(Table, primaryColumns, columns)
 		} else if parse.TableName != "" && parse.TableName == Table.TableName {
-			parse.makeSQL(Table, primaryFields, columns)
+			parse.makeSQL(Table, primaryColumns, columns)
 		}
 	}
 
diff --git a/recovery/redo/parse.go b/recovery/redo/parse.go
index 78e6939..7ab1430 100644
--- a/recovery/redo/parse.go
+++ b/recovery/redo/parse.go
@@ -517,19 +517,12 @@ func (parse *Parse) validateLogHeader(logType uint64, spaceID uint64) bool {
 	return haveType
 }
 
-func (parse *Parse) makeSQL(table ibdata.Tables, primaryColumns []*ibdata.Fields, columns []*ibdata.Columns) {
-
-	// TODO: deal with null value.
+func (parse *Parse) makeSQL(table ibdata.Tables, primaryColumns []ibdata.Columns, columns []*ibdata.Columns) {
 
 	// update statement
 	var SetValues string
 	for i, c := range columns {
-		var SetValue string
-		if c.FieldValue != nil {
-			SetValue = fmt.Sprintf("`%s`='%v'", c.FieldName, c.FieldValue)
-		} else {
-			SetValue = fmt.Sprintf("`%s`=NULL", c.FieldName)
-		}
+		SetValue := fmt.Sprintf("`%s`=%s", c.FieldName, ibdata.FormatValue(*c))
 		if i == (len(columns) - 1) {
 			SetValues += SetValue
 		} else {
@@ -540,7 +533,7 @@ func (parse *Parse) makeSQL(table ibdata.Tables, primaryColumns []*ibdata.Fields
 	var whereConditions string
 
 	for j, v := range primaryColumns {
-		whereCondition := fmt.Sprintf("`%s`='%v'", v.ColumnName, v.ColumnValue)
+		whereCondition := fmt.Sprintf("`%s`=%s", v.FieldName, ibdata.FormatValue(v))
 		if j == (len(primaryColumns) - 1) {
 			whereConditions += whereCondition
 		} else {
-- 
2.43.0


From ec8b7a174c1102226c01e04c969ef17b6ccb0b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:48 +0000
Subject: [PATCH 27/52] fix: do not ignore the database name when a table name
 is given

---
 recovery/redo/mlog.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recovery/redo/mlog.go b/recovery/redo/mlog.go
index 57171ee..071f64c 100644
--- a/recovery/redo/mlog.go
+++ b/recovery/redo/mlog.go
@@ -225,7 +225,7 @@ func (parse *Parse) mlogUndoInsert(data []byte, pos *uint64) error {
 			}
 		} else if parse.DBName == "" && parse.TableName == "" {
 			parse.makeSQL(Table, primaryColumns, columns)
-		} else if parse.TableName != "" && parse.TableName == Table.TableName {
+		} else if parse.DBName == "" && parse.TableName == Table.TableName {
 			parse.makeSQL(Table, primaryColumns, columns)
 		}
 	}
-- 
2.43.0


From 57ddb6fbd2f67525dc660b7f2ab74e4d677a1606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:48 +0000
Subject: [PATCH 28/52] fix: an undo record which can't be decoded must not
 disturb the next records

---
 recovery/redo/mlog.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/recovery/redo/mlog.go b/recovery/redo/mlog.go
index 071f64c..b92efda 100644
--- a/recovery/redo/mlog.go
+++ b/recovery/redo/mlog.go
@@ -81,10 +81,14 @@ func (parse *Parse) mlogUndoInsert(data []byte, pos *uint64) error {
 	defer func() {
 		if err := recover(); err != nil {
 			logs.Error("skip error, the error is ", err)
-			*pos = startPos + dataLen
 		}
+		// Whatever happens, the next redo record follows this undo record.
+		*pos = startPos + dataLen
 	}()
 
+	// Don't read the data behind this undo record.
+	data = data[:startPos+dataLen]
+
 	typeCmpl := int64(utils.MatchReadFrom1(data[*pos:]))
 	*pos++
 
-- 
2.43.0


From 0a55ac3b28a58274629a32d48b4f34aa2d4a977b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:48 +0000
Subject: [PATCH 29/52] fix: a cut off value in the redo log is not NULL

---
 recovery/redo/const.go | 4 ++++
 recovery/redo/mlog.go  | 7 ++++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/recovery/redo/const.go b/recovery/redo/const.go
index e3b06e2..f731338 100644
--- a/recovery/redo/const.go
+++ b/recovery/redo/const.go
@@ -237,6 +237,10 @@ const (
 	MLOG_BIGGEST_TYPE = MLOG_TEST
 )
 
+// The length of a field which is NULL.
+// Reference mysql-5.7.19/storage/innobase/include/univ.i
+const UNIV_SQL_NULL = 0xFFFFFFFF
+
 // Define the Undo record type.
 // Reference mysql-5.7.19/storage/innobase/include/trx0rec.h
 const (
diff --git a/recovery/redo/mlog.go b/recovery/redo/mlog.go
index b92efda..fbaf2e6 100644
--- a/recovery/redo/mlog.go
+++ b/recovery/redo/mlog.go
@@ -195,13 +195,18 @@ func (parse *Parse) mlogUndoInsert(data []byte, pos *uint64) error {
 			}
 
 			fLen, num, err := utils.MatchParseCompressed(data, *pos)
+			if err != nil {
+				return err
+			}
 			logs.Debug("fLen is ", fLen, " num is ", num, "Field Type is ", c.FieldType)
 			*pos += num
 
 			var value interface{}
-			if *pos+fLen > uint64(len(data)) {
+			if fLen == UNIV_SQL_NULL {
 				value = nil
 				fLen = 0
+			} else if *pos+fLen > uint64(len(data)) {
+				return fmt.Errorf("field is longer than the undo record")
 			} else {
 				value, err = utils.ParseData(c.FieldType, c.MySQLType, data[*pos:], fLen,
 					int(utils.GetFixedLength(c.FieldType, c.FieldLen)), c.IsUnsigned, &c.IsBinary)
-- 
2.43.0


From 1c8973a67079e80e5ad05ff6764a95b4422df571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:49 +0000
Subject: [PATCH 30/52] fix: skip both names of a file rename redo record

---
 recovery/redo/mlog.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/recovery/redo/mlog.go b/recovery/redo/mlog.go
index fbaf2e6..23cb28c 100644
--- a/recovery/redo/mlog.go
+++ b/recovery/redo/mlog.go
@@ -395,6 +395,12 @@ func (parse *Parse) mlogFileOp(data []byte, pos *uint64, myType uint64) {
 	*pos += 2
 	*pos += nameLen
 
+	// The rename record have the new name too.
+	if myType == MLOG_FILE_RENAME || myType == MLOG_FILE_RENAME2 {
+		newNameLen := utils.MatchReadFrom2(data[*pos:])
+		*pos += 2
+		*pos += newNameLen
+	}
 }
 
 // MLOG_REC_MARK ...
-- 
2.43.0


From a86d4663019e41e3dccac5d81fa023fbfaa21044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:49 +0000
Subject: [PATCH 31/52] fix: the dummy redo record has no space id and page
 number

---
 recovery/redo/parse.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/recovery/redo/parse.go b/recovery/redo/parse.go
index 7ab1430..ba037b9 100644
--- a/recovery/redo/parse.go
+++ b/recovery/redo/parse.go
@@ -257,8 +257,8 @@ func (parse *Parse) parseRedoBlockData(data []byte) error {
 		pos++
 		startPos := pos
 
-		if logType == MLOG_MULTI_REC_END {
-			// don't parse MLOG_MULTI_REC_END type redo log.
+		if logType == MLOG_MULTI_REC_END || logType == MLOG_DUMMY_RECORD {
+			// MLOG_MULTI_REC_END and MLOG_DUMMY_RECORD type redo log only have the type.
 			continue
 		}
 
-- 
2.43.0


From 75267e7a3db9eddcf2779d3b5e0733c4f5c34ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:49 +0000
Subject: [PATCH 32/52] fix: skip the body of compact secondary delete mark
 redo records

---
 recovery/redo/mlog.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/recovery/redo/mlog.go b/recovery/redo/mlog.go
index 23cb28c..451009a 100644
--- a/recovery/redo/mlog.go
+++ b/recovery/redo/mlog.go
@@ -482,6 +482,7 @@ func (parse *Parse) mlogCompRecSecDeleteMark(data []byte, pos *uint64) error {
 	position, err := utils.ParseIndex(true, data, *pos)
 	if err == nil {
 		*pos = position
+		parse.mlogRecSecDeleteMark(data, pos)
 	}
 	return err
 }
-- 
2.43.0


From b844045d0bde0af69b53ec82891e511294671380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:50 +0000
Subject: [PATCH 33/52] fix: a NULL field of an update in place redo record has
 no data

---
 recovery/redo/mlog.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/recovery/redo/mlog.go b/recovery/redo/mlog.go
index 451009a..f0de0f8 100644
--- a/recovery/redo/mlog.go
+++ b/recovery/redo/mlog.go
@@ -557,7 +557,9 @@ func (parse *Parse) mlogRecUpdateInPlace(data []byte, pos *uint64, MyType uint64
 					logs.Debug("fieldNo is ", fieldNo, " fieldLen is ", fieldLen)
 				}
 				*pos += num
-				*pos += fieldLen
+				if fieldLen != UNIV_SQL_NULL {
+					*pos += fieldLen
+				}
 			}
 		}
 	}
-- 
2.43.0


From fead68047815ff71557cd7f5854601cdbe2173b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:50 +0000
Subject: [PATCH 34/52] fix: read the low word of compressed 64 bit integers at
 its own place

---
 recovery/utils/utils.go | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/recovery/utils/utils.go b/recovery/utils/utils.go
index 1082a59..cd86445 100644
--- a/recovery/utils/utils.go
+++ b/recovery/utils/utils.go
@@ -407,13 +407,8 @@ func MatchUllReadComPressed(b []byte, pos *uint64) uint64 {
 	if err != nil {
 		fmt.Println(err.Error())
 	}
-	size, err := MatchGetCompressedSize(n)
-	// *pos += size
-	if err != nil {
-		fmt.Println(err.Error())
-	}
 	n <<= 32
-	n |= MatchReadFrom4(b[*pos:][size:])
+	n |= MatchReadFrom4(b[*pos:])
 	*pos += 4
 	return n
 }
-- 
2.43.0


From 7a152bfc3c321d018c5c8701aa63d21bb18b56db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:51 +0000
Subject: [PATCH 35/52] fix: read undo numbers and table ids above 32 bits

---
 recovery/utils/utils.go | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/recovery/utils/utils.go b/recovery/utils/utils.go
index cd86445..9050101 100644
--- a/recovery/utils/utils.go
+++ b/recovery/utils/utils.go
@@ -426,15 +426,13 @@ func MatchUllReadMuchCompressed(b []byte) (uint64, error) {
 		n = 0
 		size = 0
 	} else {
-		n, _, err := MatchParseCompressed(b, 1)
+		var num uint64
+		n, num, err = MatchParseCompressed(b, 1)
 		if err != nil {
 			return 0, err
 		}
-		v, err := MatchGetCompressedSize(n)
-		if err != nil {
-			fmt.Println(err.Error())
-		}
-		size = 1 + v
+		n <<= 32
+		size = 1 + num
 	}
 	value, _, err := MatchParseCompressed(b, size)
 	if err != nil {
@@ -463,7 +461,8 @@ func MachUllGetMuchCompressedSize(num uint64) uint64 {
 	if err != nil {
 		fmt.Println(err.Error())
 	}
-	return n1 + n2
+	// The 0xFF flag byte is before the high word.
+	return 1 + n1 + n2
 }
 
 // ReadIntoStruct ...
-- 
2.43.0


From 82ad11e07fd528a712d01dcacc59cf8e677c15fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:55 +0000
Subject: [PATCH 36/52] fix: a redo log which ends in the middle of a record
 ends normally

---
 recovery/redo/mlog.go   | 13 +++++--------
 recovery/redo/parse.go  | 36 ++++++++++++++++++++++--------------
 recovery/utils/utils.go |  6 +++---
 3 files changed, 30 insertions(+), 25 deletions(-)

diff --git a/recovery/redo/mlog.go b/recovery/redo/mlog.go
index f0de0f8..8216ce2 100644
--- a/recovery/redo/mlog.go
+++ b/recovery/redo/mlog.go
@@ -86,8 +86,12 @@ func (parse *Parse) mlogUndoInsert(data []byte, pos *uint64) error {
 		*pos = startPos + dataLen
 	}()
 
+	if startPos+dataLen > uint64(len(data)) {
+		return fmt.Errorf("undo record is cut off by the end of the log")
+	}
+
 	// Don't read the data behind this undo record.
-	data = data[:startPos+dataLen]
+	data = data[: startPos+dataLen : startPos+dataLen]
 
 	typeCmpl := int64(utils.MatchReadFrom1(data[*pos:]))
 	*pos++
@@ -491,13 +495,6 @@ func (parse *Parse) mlogCompRecSecDeleteMark(data []byte, pos *uint64) error {
 func (parse *Parse) mlogRecUpdateInPlace(data []byte, pos *uint64, MyType uint64) error {
 	logs.Debug("start parse MLOG_REC_UPDATE_IN_PLACE, MLOG_COMP_REC_UPDATE_IN_PLACE log record")
 
-	// Catch panic
-	defer func() {
-		if err := recover(); err != nil {
-			logs.Error("skip error, the error is ", err)
-		}
-	}()
-
 	position, err := utils.ParseIndex(MyType == MLOG_COMP_REC_UPDATE_IN_PLACE, data, *pos)
 	if err != nil {
 		return err
diff --git a/recovery/redo/parse.go b/recovery/redo/parse.go
index ba037b9..7f4dff2 100644
--- a/recovery/redo/parse.go
+++ b/recovery/redo/parse.go
@@ -244,6 +244,14 @@ func (parse *Parse) readRedoBlockHeader(data []byte) (BlockHeader, error) {
 // But due to the design of redo, we must parse out each type in order.
 func (parse *Parse) parseRedoBlockData(data []byte) error {
 	var pos uint64
+
+	// The last record may be cut off, the log ends there.
+	defer func() {
+		if err := recover(); err != nil {
+			logs.Error("the redo log ends in the middle of a record, ", err)
+		}
+	}()
+
 	for {
 		if (int64(len(data)) - int64(pos)) < 5 {
 			break
@@ -271,7 +279,7 @@ func (parse *Parse) parseRedoBlockData(data []byte) error {
 			pos += num
 			if err != nil {
 				logs.Error("get log record space id failed, the error is ", err)
-				return err
+				return nil
 
 			}
 			// Get the page no
@@ -279,7 +287,7 @@ func (parse *Parse) parseRedoBlockData(data []byte) error {
 			pos += num
 			if err != nil {
 				logs.Error("get log record page number failed, the error is ", err)
-				return err
+				return nil
 			}
 
 			if !parse.validateLogHeader(logType, spaceID) {
@@ -303,7 +311,7 @@ func (parse *Parse) parseRedoBlockData(data []byte) error {
 
 		case MLOG_1BYTE, MLOG_2BYTES, MLOG_4BYTES, MLOG_8BYTES:
 			if err := parse.mlogNBytes(data, &pos, logType); err != nil {
-				break
+				return nil
 			}
 
 		case MLOG_REC_SEC_DELETE_MARK:
@@ -320,7 +328,7 @@ func (parse *Parse) parseRedoBlockData(data []byte) error {
 
 		case MLOG_UNDO_INIT:
 			if err := parse.mlogUndoInit(data, &pos); err != nil {
-				break
+				return nil
 			}
 		case MLOG_UNDO_HDR_DISCARD:
 			logs.Debug("start parse MLOG_UNDO_HDR_DISCARD log record")
@@ -331,7 +339,7 @@ func (parse *Parse) parseRedoBlockData(data []byte) error {
 
 		case MLOG_UNDO_HDR_CREATE:
 			if err := parse.mlogUndoHdrCreate(data, &pos); err != nil {
-				break
+				return nil
 			}
 
 		case MLOG_IBUF_BITMAP_INIT:
@@ -369,42 +377,42 @@ func (parse *Parse) parseRedoBlockData(data []byte) error {
 
 		case MLOG_REC_INSERT, MLOG_COMP_REC_INSERT:
 			if err := parse.mlogRecInsert(data, &pos, logType); err != nil {
-				return err
+				return nil
 			}
 
 		case MLOG_REC_CLUST_DELETE_MARK, MLOG_COMP_REC_CLUST_DELETE_MARK:
 			if err := parse.mlogRecClustDeleteMark(data, &pos, logType); err != nil {
-				break
+				return nil
 			}
 
 		case MLOG_COMP_REC_SEC_DELETE_MARK:
 			if err := parse.mlogCompRecSecDeleteMark(data, &pos); err != nil {
-				break
+				return nil
 			}
 
 		case MLOG_REC_UPDATE_IN_PLACE, MLOG_COMP_REC_UPDATE_IN_PLACE:
 			if err := parse.mlogRecUpdateInPlace(data, &pos, logType); err != nil {
-				break
+				return nil
 			}
 
 		case MLOG_REC_DELETE, MLOG_COMP_REC_DELETE:
 			if err := parse.mlogRecDelete(data, &pos, logType); err != nil {
-				break
+				return nil
 			}
 
 		case MLOG_LIST_END_DELETE, MLOG_COMP_LIST_END_DELETE, MLOG_LIST_START_DELETE, MLOG_COMP_LIST_START_DELETE:
 			if err := parse.mlogListDelete(data, &pos, logType); err != nil {
-				break
+				return nil
 			}
 
 		case MLOG_LIST_END_COPY_CREATED, MLOG_COMP_LIST_END_COPY_CREATED:
 			if err := parse.mlogListEndCopyCreated(data, &pos, logType); err != nil {
-				break
+				return nil
 			}
 
 		case MLOG_PAGE_REORGANIZE, MLOG_COMP_PAGE_REORGANIZE, MLOG_ZIP_PAGE_REORGANIZE:
 			if err := parse.mlogPageReorganize(data, &pos, logType); err != nil {
-				break
+				return nil
 			}
 
 		case MLOG_ZIP_WRITE_NODE_PTR:
@@ -422,7 +430,7 @@ func (parse *Parse) parseRedoBlockData(data []byte) error {
 
 		case MLOG_ZIP_PAGE_COMPRESS_NO_DATA:
 			if err := parse.mlogZipPageCompressNoData(data, &pos); err != nil {
-				break
+				return nil
 			}
 
 		case MLOG_CHECKPOINT:
diff --git a/recovery/utils/utils.go b/recovery/utils/utils.go
index 9050101..6084a44 100644
--- a/recovery/utils/utils.go
+++ b/recovery/utils/utils.go
@@ -405,7 +405,7 @@ func MatchUllReadComPressed(b []byte, pos *uint64) uint64 {
 	n, num, err := MatchParseCompressed(b, *pos)
 	*pos += num
 	if err != nil {
-		fmt.Println(err.Error())
+		logs.Error(err.Error())
 	}
 	n <<= 32
 	n |= MatchReadFrom4(b[*pos:])
@@ -545,14 +545,14 @@ func ParseInsertRecord(IsShort bool, data []byte, pos uint64) (uint64, error) {
 		OriginOffset, num, err := MatchParseCompressed(data, pos)
 
 		if err != nil {
-			fmt.Println(err.Error())
+			return 0, err
 		}
 		pos += num
 
 		MisMatchIndex, num, err := MatchParseCompressed(data, pos)
 
 		if err != nil {
-			fmt.Println(err.Error())
+			return 0, err
 		}
 		pos += num
 		logs.Debug("InfoAndStatusBits is ", InfoAndStatusBits, "OriginOffset is ",
-- 
2.43.0


From 2ef84860f2c40541b00c866de65987a0da5ba5f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:55 +0000
Subject: [PATCH 37/52] fix: do not crash on or read past a damaged or cut off
 log block

---
 recovery/redo/parse.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/recovery/redo/parse.go b/recovery/redo/parse.go
index 7f4dff2..43ccdec 100644
--- a/recovery/redo/parse.go
+++ b/recovery/redo/parse.go
@@ -17,6 +17,7 @@ package redo
 import (
 	"bytes"
 	"fmt"
+	"io"
 	"os"
 
 	"github.com/zbdba/db-recovery/recovery/ibdata"
@@ -90,14 +91,19 @@ func (parse *Parse) ParseRedoLogs(logFileList []string) error {
 		for {
 			// when parsing the redo log file, record the read position.
 			block, err := utils.ReadNextBytes(file, OS_FILE_LOG_BLOCK_SIZE)
-			if err != nil {
+			if err != nil && err != io.EOF {
+				file.Close()
+				return err
+			}
+			if len(block) < LOG_BLOCK_HDR_SIZE {
 				break
 			}
 
 			// Parse the redo block blockHeader.
 			// The redo block consists of redo log blockHeader and redo log data.
 			blockHeader, err := parse.readRedoBlockHeader(block)
-			if err != nil || blockHeader.BlockDataLen == 0 {
+			if err != nil || blockHeader.BlockDataLen < LOG_BLOCK_HDR_SIZE ||
+				blockHeader.BlockDataLen > OS_FILE_LOG_BLOCK_SIZE {
 				break
 			}
 
@@ -106,6 +112,11 @@ func (parse *Parse) ParseRedoLogs(logFileList []string) error {
 				blockHeader.BlockDataLen -= LOG_BLOCK_TRL_SIZE
 			}
 
+			// The last block may be cut off.
+			if int(blockHeader.BlockDataLen) > len(block) {
+				blockHeader.BlockDataLen = uint16(len(block))
+			}
+
 			// Add all redo block data.
 			data = append(data, block[LOG_BLOCK_HDR_SIZE:blockHeader.BlockDataLen]...)
 		}
-- 
2.43.0


From afe7c2aacda0460d088a3d2f1992c6d1f6851959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:55 +0000
Subject: [PATCH 38/52] fix: a log file which is cut off in its header ends the
 log

---
 recovery/redo/parse.go | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/recovery/redo/parse.go b/recovery/redo/parse.go
index 43ccdec..7fa5ce4 100644
--- a/recovery/redo/parse.go
+++ b/recovery/redo/parse.go
@@ -70,6 +70,7 @@ func (parse *Parse) ParseDictPage(ibdataPath string) error {
 //	* http://mysql.taobao.org/monthly/2017/09/07/
 func (parse *Parse) ParseRedoLogs(logFileList []string) error {
 	var data []byte
+	var headerErr error
 	for _, LogFile := range logFileList {
 		file, err := os.Open(LogFile)
 		if err != nil {
@@ -77,14 +78,18 @@ func (parse *Parse) ParseRedoLogs(logFileList []string) error {
 			return err
 		}
 
-		// parse redo log header
-		if err = parse.readRedoLogFileHeader(file); err != nil {
-			return err
+		// parse redo log header and redo log checkpoint
+		headerErr = parse.readRedoLogFileHeader(file)
+		if headerErr == nil {
+			headerErr = parse.readRedoLogFileCheckpoint(file)
 		}
-
-		// parse redo log checkpoint
-		if err = parse.readRedoLogFileCheckpoint(file); err != nil {
-			return err
+		if headerErr != nil {
+			file.Close()
+			if headerErr == io.EOF || headerErr == io.ErrUnexpectedEOF {
+				// The log ends before this file.
+				break
+			}
+			return headerErr
 		}
 
 		// parse left redo log block
@@ -127,8 +132,9 @@ func (parse *Parse) ParseRedoLogs(logFileList []string) error {
 	err := parse.parseRedoBlockData(data)
 	if err != nil {
 		logs.Error("parse redo block data failed, error: ", err.Error())
+		return err
 	}
-	return err
+	return headerErr
 }
 
 //	storage/innobase/include/log0log.ic
@@ -167,6 +173,10 @@ func (parse *Parse) readRedoLogFileHeader(file *os.File) error {
 		return err
 	}
 
+	if len(data) < OS_FILE_LOG_BLOCK_SIZE {
+		return io.ErrUnexpectedEOF
+	}
+
 	logHeaderFormat := utils.MatchReadFrom4(data[pos:])
 	pos += 4
 
@@ -176,7 +186,7 @@ func (parse *Parse) readRedoLogFileHeader(file *os.File) error {
 	logHeaderStartLsn := utils.MatchReadFrom8(data[pos:])
 	pos += 8
 
-	creator := data[pos : bytes.IndexByte(data[pos:], 0x00)+pos]
+	creator := bytes.TrimRight(data[pos:pos+32], "\x00")
 	pos += 32 // 32 bytes, NULL terminated string, filled with NULL bytes
 
 	checksum := data[OS_FILE_LOG_BLOCK_SIZE-LOG_BLOCK_TRL_SIZE:]
-- 
2.43.0


From 64cd4c074d824d4b8fccad9a28bd6578efe5db1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:56 +0000
Subject: [PATCH 39/52] fix: round negative times with a fraction toward zero

---
 recovery/utils/utils.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/recovery/utils/utils.go b/recovery/utils/utils.go
index 6084a44..967af18 100644
--- a/recovery/utils/utils.go
+++ b/recovery/utils/utils.go
@@ -581,7 +581,7 @@ func ParseData(DataType uint64, MySQLType uint64,
 		switch MySQLType {
 		// TODO: deal with version 2.
 		case MYSQL_TYPE_TIME:
-			FormatTime := ParseTime(data)
+			FormatTime := ParseTime(data[:FieldLen])
 			return FormatTime, nil
 		case MYSQL_TYPE_TIMESTAMP:
 			FormatTimeStamp := ParseTimeStamp(data)
@@ -778,6 +778,13 @@ func ParseTime(data []byte) string {
 	ltime = ltime - 0x800000
 	if ltime < 0 {
 		IsNegative = true
+		// The integer part of a negative time is rounded down if it has a fraction.
+		for _, b := range data[3:] {
+			if b != 0 {
+				ltime++
+				break
+			}
+		}
 		ltime = -ltime
 	}
 
-- 
2.43.0


From 46e2b05f16701b4efaa025122a64be7efbea8340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:22 +0000
Subject: [PATCH 40/52] fix: escape backquotes in the names of a statement

---
 recovery/ibdata/format.go | 8 +++++++-
 recovery/redo/parse.go    | 8 ++++----
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/recovery/ibdata/format.go b/recovery/ibdata/format.go
index 7aea7cb..d2aff7f 100644
--- a/recovery/ibdata/format.go
+++ b/recovery/ibdata/format.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"fmt"
 	"sort"
+	"strings"
 
 	"github.com/zbdba/db-recovery/recovery/logs"
 	"github.com/zbdba/db-recovery/recovery/utils"
@@ -21,7 +22,7 @@ func (parse *Parse) makeReplaceIntoStatement(AllColumns [][]Columns, table strin
 			return columns[i].FieldPos < columns[j].FieldPos
 		})
 
-		buf.WriteString(fmt.Sprintf("replace into `%s`.`%s` values (", database, table))
+		buf.WriteString(fmt.Sprintf("replace into %s.%s values (", FormatName(database), FormatName(table)))
 		firstCol := true
 
 		for _, column := range columns {
@@ -53,6 +54,11 @@ func (parse *Parse) makeReplaceIntoStatement(AllColumns [][]Columns, table strin
 
 }
 
+// FormatName quote the name of a database, table or column.
+func FormatName(name string) string {
+	return "`" + strings.Replace(name, "`", "``", -1) + "`"
+}
+
 // FormatValue make the SQL literal which denotes the value of the column.
 func FormatValue(column Columns) string {
 	if column.FieldValue == nil {
diff --git a/recovery/redo/parse.go b/recovery/redo/parse.go
index 7fa5ce4..18029af 100644
--- a/recovery/redo/parse.go
+++ b/recovery/redo/parse.go
@@ -551,7 +551,7 @@ func (parse *Parse) makeSQL(table ibdata.Tables, primaryColumns []ibdata.Columns
 	// update statement
 	var SetValues string
 	for i, c := range columns {
-		SetValue := fmt.Sprintf("`%s`=%s", c.FieldName, ibdata.FormatValue(*c))
+		SetValue := fmt.Sprintf("%s=%s", ibdata.FormatName(c.FieldName), ibdata.FormatValue(*c))
 		if i == (len(columns) - 1) {
 			SetValues += SetValue
 		} else {
@@ -562,7 +562,7 @@ func (parse *Parse) makeSQL(table ibdata.Tables, primaryColumns []ibdata.Columns
 	var whereConditions string
 
 	for j, v := range primaryColumns {
-		whereCondition := fmt.Sprintf("`%s`=%s", v.FieldName, ibdata.FormatValue(v))
+		whereCondition := fmt.Sprintf("%s=%s", ibdata.FormatName(v.FieldName), ibdata.FormatValue(v))
 		if j == (len(primaryColumns) - 1) {
 			whereConditions += whereCondition
 		} else {
@@ -570,8 +570,8 @@ func (parse *Parse) makeSQL(table ibdata.Tables, primaryColumns []ibdata.Columns
 		}
 	}
 
-	query := fmt.Sprintf("update `%s`.`%s` set %s where %s;", table.DBName,
-		table.TableName, SetValues, whereConditions)
+	query := fmt.Sprintf("update %s.%s set %s where %s;", ibdata.FormatName(table.DBName),
+		ibdata.FormatName(table.TableName), SetValues, whereConditions)
 
 	logs.Debug("query is ", query)
 	fmt.Println(query)
-- 
2.43.0


From e3a6287ecb68b86b5c4755c09c5dd5ec6eec9968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:20 +0000
Subject: [PATCH 41/52] fix: delete-marked dictionary rows do not replace or
 break the live ones

---
 recovery/ibdata/parse.go     | 16 ++++++++++++++--
 recovery/ibdata/structure.go |  4 ++++
 recovery/utils/utils.go      | 11 +++++++++++
 3 files changed, 29 insertions(+), 2 deletions(-)

diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index e6e37c8..6ad96a1 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -467,7 +467,7 @@ func (parse *Parse) getAllColumns() error {
 	for _, c := range AllPageColumns {
 
 		v, ok := parse.TableMap[c[0].FieldValue.(uint64)]
-		if ok {
+		if ok && (v.IsDeleted || !c[0].IsDeleted) {
 			t := v
 
 			IsNull := false
@@ -549,6 +549,10 @@ func (parse *Parse) getAllIndexes() error {
 	for _, columns := range allPageColumns {
 		var index map[uint64]Indexes
 		v, ok := parse.TableMap[columns[0].FieldValue.(uint64)]
+		if columns[0].IsDeleted && !(ok && v.IsDeleted) {
+			// The index was dropped, or its table was dropped or truncated.
+			continue
+		}
 		if ok {
 			t := v
 
@@ -664,12 +668,17 @@ func (parse *Parse) getAllTables() error {
 			} else {
 				tableName = columns[0].FieldValue.(string)
 			}
+			// A renamed table have a delete-marked row with the same table id.
+			if _, ok := parse.TableMap[columns[3].FieldValue.(uint64)]; ok && columns[0].IsDeleted {
+				continue
+			}
 			parse.TableMap[columns[3].FieldValue.(uint64)] =
 				Tables{
 					DBName:    databaseName,
 					TableName: tableName,
 					NullCount: 0,
-					SpaceId:   columns[9].FieldValue.(uint64)}
+					SpaceId:   columns[9].FieldValue.(uint64),
+					IsDeleted: columns[0].IsDeleted}
 		}
 	}
 	return nil
@@ -953,6 +962,9 @@ func (parse *Parse) parsePage(data []byte, pos int, columns []Columns, isRecover
 
 			c, _ = parse.parseRecords(data, origin, offsets, columns)
 			totalLen += utils.RecOffsSize(&offsets)
+			for i := range c {
+				c[i].IsDeleted = utils.RecIsDeleted(data, offset)
+			}
 			allColumns = append(allColumns, c)
 
 		END:
diff --git a/recovery/ibdata/structure.go b/recovery/ibdata/structure.go
index 706b978..fc7d826 100644
--- a/recovery/ibdata/structure.go
+++ b/recovery/ibdata/structure.go
@@ -22,6 +22,8 @@ type Tables struct {
 	Indexes   map[uint64]Indexes
 	NullCount int
 	SpaceId   uint64
+	// The dictionary row of the table is delete-marked, for example the table was dropped.
+	IsDeleted bool
 }
 
 // Columns store the table columns info.
@@ -37,6 +39,8 @@ type Columns struct {
 	IsBinary   bool
 	IsUnsigned bool
 	TableID    uint64
+	// The record of the value is delete-marked.
+	IsDeleted bool
 }
 
 // Indexes store the table index info.
diff --git a/recovery/utils/utils.go b/recovery/utils/utils.go
index 967af18..00378ff 100644
--- a/recovery/utils/utils.go
+++ b/recovery/utils/utils.go
@@ -164,6 +164,17 @@ func RecGet1byteOffsFlag(rec []byte, offset uint64) uint64 {
 	return RecGetBitField1(rec, offset, 3, 0x1, 0)
 }
 
+// RecIsDeleted tells whether the record is delete-marked, reference MySQL rec_get_deleted_flag method.
+func RecIsDeleted(rec []byte, offset uint64) bool {
+	// #define REC_INFO_DELETED_FLAG	0x20UL
+	// #define REC_NEW_INFO_BITS	5
+	// #define REC_OLD_INFO_BITS	6
+	if PageIsCompact(rec) == 0 {
+		return RecGetBitField1(rec, offset, 6, 0x20, 5) != 0
+	}
+	return RecGetBitField1(rec, offset, 5, 0x20, 5) != 0
+}
+
 // RecGetBitField1 ...
 func RecGetBitField1(rec []byte, offset uint64, offs uint64, mask uint64, shift uint64) uint64 {
 	//return (MatchReadFrom1(rec[(uint64(len(rec)) - offs):]) & mask) >> shift
-- 
2.43.0


From 7a2c0cf9ea751c415cd95713ceb4c849dbf38538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:58 +0000
Subject: [PATCH 42/52] fix: print no update statement without assignments or
 conditions

---
 recovery/redo/parse.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/recovery/redo/parse.go b/recovery/redo/parse.go
index 18029af..a403c3f 100644
--- a/recovery/redo/parse.go
+++ b/recovery/redo/parse.go
@@ -548,6 +548,12 @@ func (parse *Parse) validateLogHeader(logType uint64, spaceID uint64) bool {
 
 func (parse *Parse) makeSQL(table ibdata.Tables, primaryColumns []ibdata.Columns, columns []*ibdata.Columns) {
 
+	// There is no statement without a column to set or a row to set it in.
+	if len(columns) == 0 || len(primaryColumns) == 0 {
+		logs.Error("undo record of table ", table.TableName, " have no updated column or no key")
+		return
+	}
+
 	// update statement
 	var SetValues string
 	for i, c := range columns {
-- 
2.43.0


From 6b1169313a2a42b2cd72bc934cf2ec72deb9ca2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:26 +0000
Subject: [PATCH 43/52] fix: records of the system tablespaces in a redo log
 are no errors

---
 recovery/redo/parse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recovery/redo/parse.go b/recovery/redo/parse.go
index a403c3f..b38928d 100644
--- a/recovery/redo/parse.go
+++ b/recovery/redo/parse.go
@@ -320,7 +320,7 @@ func (parse *Parse) parseRedoBlockData(data []byte) error {
 
 			table, err := parse.getTableBySpaceID(spaceID)
 			if err != nil {
-				logs.Error("can't find table, space id is ", spaceID)
+				logs.Debug("can't find table, space id is ", spaceID)
 			} else {
 				logs.Debug("table name is ", table.TableName)
 			}
-- 
2.43.0


From 7b683ffa2af4e6dda027e65208266146172c2a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:31 +0000
Subject: [PATCH 44/52] fix: flush the logs also when the recovery fails

---
 cmd/db-recovery/command.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/cmd/db-recovery/command.go b/cmd/db-recovery/command.go
index 4a038d0..380ac40 100644
--- a/cmd/db-recovery/command.go
+++ b/cmd/db-recovery/command.go
@@ -103,6 +103,9 @@ func FromDataFile(cmd *cobra.Command, args []string) {
 		return
 	}
 
+	// flush logs, also when the recovery fails
+	defer logs.FlushLogs()
+
 	isRecovery := false
 
 	p := ibdata.NewParse()
@@ -121,9 +124,6 @@ func FromDataFile(cmd *cobra.Command, args []string) {
 		fmt.Println(err)
 		return
 	}
-
-	// flush logs
-	logs.FlushLogs()
 }
 
 func NewFromRedoFileCommand() *cobra.Command {
@@ -156,6 +156,9 @@ func FromRedoFile(cmd *cobra.Command, args []string) {
 		return
 	}
 
+	// flush logs, also when the recovery fails
+	defer logs.FlushLogs()
+
 	p := redo.NewParse(TableName, DBName)
 
 	err = p.ParseDictPage(SysDataFile)
@@ -169,9 +172,6 @@ func FromRedoFile(cmd *cobra.Command, args []string) {
 		fmt.Println("parse redo failed, error: ", err.Error())
 		return
 	}
-
-	// flush logs
-	logs.FlushLogs()
 }
 
 func NewVersionCommand() *cobra.Command {
-- 
2.43.0


From 3057b933653052eb424a765c7237fa682e9cd1de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:56 +0000
Subject: [PATCH 45/52] fix: CHAR columns of single-byte charsets have a fixed
 length

---
 recovery/ibdata/parse.go |  9 ++++++++-
 recovery/utils/utils.go  | 25 +++++++++++++++++++++++++
 2 files changed, 33 insertions(+), 1 deletion(-)

diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index 6ad96a1..7dfcee4 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -500,6 +500,13 @@ func (parse *Parse) getAllColumns() error {
 				}
 			}
 
+			// A CHAR whose characters all have the same number of bytes has a
+			// fixed length, reference MySQL dtype_get_fixed_size_low method.
+			FieldType := c[5].FieldValue.(uint64)
+			if FieldType == utils.DATA_MYSQL && utils.IsFixedWidthCollation(c[6].FieldValue.(uint64)>>16&0x7FFF) {
+				FieldType = utils.DATA_CHAR
+			}
+
 			var TempFieldLen uint64 = 0
 			if c[5].FieldValue.(uint64) != utils.DATA_BINARY {
 				TempFieldLen = c[7].FieldValue.(uint64)
@@ -508,7 +515,7 @@ func (parse *Parse) getAllColumns() error {
 			t.Columns = append(t.Columns,
 				Columns{
 					FieldName: c[4].FieldValue.(string),
-					FieldType: c[5].FieldValue.(uint64),
+					FieldType: FieldType,
 					MySQLType: MySQLType,
 					FieldPos:  c[1].FieldValue.(uint64),
 					FieldLen:  TempFieldLen,
diff --git a/recovery/utils/utils.go b/recovery/utils/utils.go
index 00378ff..ca25cd9 100644
--- a/recovery/utils/utils.go
+++ b/recovery/utils/utils.go
@@ -740,6 +740,31 @@ func GetFixedLength(DataType uint64, FieldLen uint64) uint64 {
 	}
 }
 
+// IsFixedWidthCollation reports whether all characters of the charset of a
+// MySQL collation have the same number of bytes.
+func IsFixedWidthCollation(id uint64) bool {
+	switch id {
+	case 1, 84, // big5
+		17,     // filename
+		12, 91, // ujis
+		13, 88, // sjis
+		19, 85, // euckr
+		24, 86, // gb2312
+		28, 87, // gbk
+		33, 76, 83, 223, // utf8
+		45, 46, 255, // utf8mb4
+		54, 55, 56, 62, // utf16, utf16le
+		95, 96, // cp932
+		97, 98, // eucjpms
+		248, 249, 250: // gb18030
+		return false
+	}
+	return id < 256 && // user defined collations may be of any charset
+		!(id >= 101 && id <= 124) && // utf16
+		!(id >= 192 && id <= 215) && // utf8
+		!(id >= 224 && id <= 247) // utf8mb4
+}
+
 // GetMaxLength ...
 func GetMaxLength(MySQLType uint64) {
 	// TODO: impl
-- 
2.43.0


From ac19034fa2b0eaaa95e7c23ed67819d6d585357f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:27 +0000
Subject: [PATCH 46/52] fix: geometry columns are stored like blobs, not with a
 fixed length

---
 recovery/ibdata/parse.go | 6 ++++++
 recovery/utils/const.go  | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index 7dfcee4..4309046 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -507,6 +507,12 @@ func (parse *Parse) getAllColumns() error {
 				FieldType = utils.DATA_CHAR
 			}
 
+			// A geometry value is stored like a blob.
+			if FieldType == utils.DATA_GEOMETRY {
+				FieldType = utils.DATA_BLOB
+				IsBinary = true
+			}
+
 			var TempFieldLen uint64 = 0
 			if c[5].FieldValue.(uint64) != utils.DATA_BINARY {
 				TempFieldLen = c[7].FieldValue.(uint64)
diff --git a/recovery/utils/const.go b/recovery/utils/const.go
index 0ac0a2b..3611018 100644
--- a/recovery/utils/const.go
+++ b/recovery/utils/const.go
@@ -63,6 +63,9 @@ const (
 	// tables created with it can also be latin1_swedish_ci
 	DATA_MYSQL
 
+	// geometry datatype of variable length
+	DATA_GEOMETRY
+
 	// dtype_store_for_order_and_null_size()
 	DATA_MTYPE_MAX
 )
-- 
2.43.0


From bd4bf7bbbc3320bfeeac7ef7ab039db10fb844db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:04 +0000
Subject: [PATCH 47/52] fix: do not print the hidden document id of tables with
 a fulltext index

---
 recovery/ibdata/format.go    |  4 ++++
 recovery/ibdata/structure.go | 11 +++++++++++
 recovery/redo/mlog.go        |  4 +++-
 3 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/recovery/ibdata/format.go b/recovery/ibdata/format.go
index d2aff7f..3f77e8d 100644
--- a/recovery/ibdata/format.go
+++ b/recovery/ibdata/format.go
@@ -34,6 +34,10 @@ func (parse *Parse) makeReplaceIntoStatement(AllColumns [][]Columns, table strin
 				continue
 			}
 
+			if column.IsFtsDocID() {
+				continue
+			}
+
 			if firstCol {
 				firstCol = false
 			} else {
diff --git a/recovery/ibdata/structure.go b/recovery/ibdata/structure.go
index fc7d826..1ae7f31 100644
--- a/recovery/ibdata/structure.go
+++ b/recovery/ibdata/structure.go
@@ -14,6 +14,8 @@
 
 package ibdata
 
+import "github.com/zbdba/db-recovery/recovery/utils"
+
 // Tables store the table structure info.
 type Tables struct {
 	DBName    string
@@ -43,6 +45,15 @@ type Columns struct {
 	IsDeleted bool
 }
 
+// IsFtsDocID tells whether this is the hidden document id column which InnoDB
+// adds to a table with a fulltext index. A column which the user declared with
+// this name has the precise type MYSQL_TYPE_LONGLONG.
+// Reference mysql-5.7.19/storage/innobase/include/data0type.h
+// #define DATA_FTS_DOC_ID	3
+func (c Columns) IsFtsDocID() bool {
+	return c.FieldName == "FTS_DOC_ID" && c.FieldType == utils.DATA_INT && c.FieldLen == 8 && c.MySQLType == 3
+}
+
 // Indexes store the table index info.
 type Indexes struct {
 	Id        uint64
diff --git a/recovery/redo/mlog.go b/recovery/redo/mlog.go
index 8216ce2..dd5304f 100644
--- a/recovery/redo/mlog.go
+++ b/recovery/redo/mlog.go
@@ -221,7 +221,9 @@ func (parse *Parse) mlogUndoInsert(data []byte, pos *uint64) error {
 			}
 
 			c.FieldValue = value
-			columns = append(columns, c)
+			if !c.IsFtsDocID() {
+				columns = append(columns, c)
+			}
 			*pos += fLen
 
 			logs.Debug("values is ", value)
-- 
2.43.0


From 0f1dca8d5fdc1e3a0f55889f35b819caf3a8db1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:59 +0000
Subject: [PATCH 48/52] fix: skip the virtual columns of update undo records

---
 recovery/redo/const.go |  8 ++++++++
 recovery/redo/mlog.go  | 34 ++++++++++++++++++++++++++++++++++
 2 files changed, 42 insertions(+)

diff --git a/recovery/redo/const.go b/recovery/redo/const.go
index f731338..e651858 100644
--- a/recovery/redo/const.go
+++ b/recovery/redo/const.go
@@ -241,6 +241,14 @@ const (
 // Reference mysql-5.7.19/storage/innobase/include/univ.i
 const UNIV_SQL_NULL = 0xFFFFFFFF
 
+// The field numbers of virtual columns in an undo record begin here.
+// Reference mysql-5.7.19/storage/innobase/include/rem0types.h
+const REC_MAX_N_FIELDS = 1024 - 1
+
+// The version marker of the virtual columns in an undo record.
+// Reference mysql-5.7.19/storage/innobase/include/trx0rec.h
+const VIRTUAL_COL_UNDO_FORMAT_1 = 0xF1
+
 // Define the Undo record type.
 // Reference mysql-5.7.19/storage/innobase/include/trx0rec.h
 const (
diff --git a/recovery/redo/mlog.go b/recovery/redo/mlog.go
index dd5304f..c980c0d 100644
--- a/recovery/redo/mlog.go
+++ b/recovery/redo/mlog.go
@@ -193,6 +193,13 @@ func (parse *Parse) mlogUndoInsert(data []byte, pos *uint64) error {
 			logs.Debug("Pos is ", Pos, " num is ", num)
 			*pos += num
 
+			if Pos >= REC_MAX_N_FIELDS {
+				if err := parse.skipVirtualColumn(data, pos); err != nil {
+					return err
+				}
+				continue
+			}
+
 			c, err := parse.getColumnByPos(Table, Pos)
 			if err != nil {
 				return err
@@ -287,6 +294,33 @@ func (parse *Parse) mlogUndoInsert(data []byte, pos *uint64) error {
 	return nil
 }
 
+// skipVirtualColumn skips the entry of an indexed virtual column in an update
+// undo record: the list of its indexes, the old and the new value.
+// reference storage/innobase/trx/trx0rec.cc trx_undo_log_v_idx
+func (parse *Parse) skipVirtualColumn(data []byte, pos *uint64) error {
+	// The first one has a version marker in front of the list. The length of
+	// the list is less than 0xF100.
+	if data[*pos] == VIRTUAL_COL_UNDO_FORMAT_1 {
+		*pos++
+	}
+	*pos += utils.MatchReadFrom2(data[*pos:])
+
+	for i := 0; i < 2; i++ {
+		fLen, num, err := utils.MatchParseCompressed(data, *pos)
+		if err != nil {
+			return err
+		}
+		*pos += num
+		if fLen != UNIV_SQL_NULL {
+			*pos += fLen
+		}
+		if *pos > uint64(len(data)) {
+			return fmt.Errorf("virtual column is longer than the undo record")
+		}
+	}
+	return nil
+}
+
 func (parse *Parse) getPrimaryKey(table ibdata.Tables) ([]*ibdata.Fields, error) {
 
 	var fields []*ibdata.Fields
-- 
2.43.0


From 7e1d29404b7ab1273623b3a82e51824cf99c48a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:59 +0000
Subject: [PATCH 49/52] fix: virtual columns are not stored in the rows

---
 recovery/ibdata/format.go    | 12 ++++++++++++
 recovery/ibdata/parse.go     | 27 +++++++++++++++++++++++++++
 recovery/ibdata/structure.go |  8 ++++++--
 3 files changed, 45 insertions(+), 2 deletions(-)

diff --git a/recovery/ibdata/format.go b/recovery/ibdata/format.go
index 3f77e8d..7769940 100644
--- a/recovery/ibdata/format.go
+++ b/recovery/ibdata/format.go
@@ -15,8 +15,16 @@ func (parse *Parse) makeReplaceIntoStatement(AllColumns [][]Columns, table strin
 	var buf bytes.Buffer
 	var query string
 
+	t, err := parse.getTableFromDict(database, table)
+	if err != nil {
+		logs.Error("get table from dict failed, error: ", err.Error())
+	}
+
 	for _, columns := range AllColumns {
 
+		// The virtual columns are not stored in the row.
+		columns = append(columns, t.VirtualColumns...)
+
 		// The values are stored in the physical order, print them in the declared order.
 		sort.SliceStable(columns, func(i, j int) bool {
 			return columns[i].FieldPos < columns[j].FieldPos
@@ -65,6 +73,10 @@ func FormatName(name string) string {
 
 // FormatValue make the SQL literal which denotes the value of the column.
 func FormatValue(column Columns) string {
+	if column.IsVirtual {
+		// A generated column does not accept another value.
+		return "DEFAULT"
+	}
 	if column.FieldValue == nil {
 		return "NULL"
 	}
diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index 4309046..b142fb9 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -347,6 +347,20 @@ func (parse *Parse) sortColumns() {
 		sort.SliceStable(columns, func(i, j int) bool {
 			return columns[i].FieldPos < columns[j].FieldPos
 		})
+
+		// The positions of the stored columns do not count the virtual ones.
+		virtual := table.VirtualColumns
+		sort.SliceStable(virtual, func(i, j int) bool {
+			return virtual[i].FieldPos < virtual[j].FieldPos
+		})
+		for _, v := range virtual {
+			for i := range columns {
+				if columns[i].FieldPos >= v.FieldPos {
+					columns[i].FieldPos++
+				}
+			}
+		}
+
 		for _, idx := range table.Indexes {
 			fields := idx.Fields
 			sort.SliceStable(fields, func(i, j int) bool {
@@ -470,6 +484,19 @@ func (parse *Parse) getAllColumns() error {
 		if ok && (v.IsDeleted || !c[0].IsDeleted) {
 			t := v
 
+			// #define DATA_VIRTUAL	8192
+			// The lower half of the position is the declared one.
+			if c[6].FieldValue.(uint64)&8192 != 0 {
+				t.VirtualColumns = append(t.VirtualColumns,
+					Columns{
+						FieldName: c[4].FieldValue.(string),
+						FieldPos:  c[1].FieldValue.(uint64) & 0xFFFF,
+						TableID:   c[0].FieldValue.(uint64),
+						IsVirtual: true})
+				parse.TableMap[c[0].FieldValue.(uint64)] = t
+				continue
+			}
+
 			IsNull := false
 			IsUnsigned := false
 			var MySQLType uint64
diff --git a/recovery/ibdata/structure.go b/recovery/ibdata/structure.go
index 1ae7f31..006ba09 100644
--- a/recovery/ibdata/structure.go
+++ b/recovery/ibdata/structure.go
@@ -21,8 +21,10 @@ type Tables struct {
 	DBName    string
 	TableName string
 	Columns   []Columns
-	Indexes   map[uint64]Indexes
-	NullCount int
+	// The columns whose values are not stored in the rows.
+	VirtualColumns []Columns
+	Indexes        map[uint64]Indexes
+	NullCount      int
 	SpaceId   uint64
 	// The dictionary row of the table is delete-marked, for example the table was dropped.
 	IsDeleted bool
@@ -43,6 +45,8 @@ type Columns struct {
 	TableID    uint64
 	// The record of the value is delete-marked.
 	IsDeleted bool
+	// The value is not stored, it is computed from other columns.
+	IsVirtual bool
 }
 
 // IsFtsDocID tells whether this is the hidden document id column which InnoDB
-- 
2.43.0


From 40f49f3147aab4c562ca27b7618013d8672ff2f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:27 +0000
Subject: [PATCH 50/52] fix: a key may store only a prefix of a column

---
 recovery/ibdata/format.go    |  2 +-
 recovery/ibdata/parse.go     | 16 ++++++++++++----
 recovery/ibdata/structure.go | 15 +++++++++++++++
 3 files changed, 28 insertions(+), 5 deletions(-)

diff --git a/recovery/ibdata/format.go b/recovery/ibdata/format.go
index 7769940..25648fa 100644
--- a/recovery/ibdata/format.go
+++ b/recovery/ibdata/format.go
@@ -42,7 +42,7 @@ func (parse *Parse) makeReplaceIntoStatement(AllColumns [][]Columns, table strin
 				continue
 			}
 
-			if column.IsFtsDocID() {
+			if column.IsFtsDocID() || column.IsPrefix {
 				continue
 			}
 
diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index b142fb9..03c45ce 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -376,7 +376,7 @@ func (parse *Parse) movePrimaryKeyFirst() {
 	for tableID, table := range parse.TableMap {
 		for _, idx := range table.Indexes {
 			if idx.IsClustered() && idx.Name != "GEN_CLUST_INDEX" {
-				table.Columns = parse.moveColumns2First(idx.Fields, table.Columns)
+				table.Columns = parse.moveColumns2First(idx, table.Columns)
 			}
 		}
 		parse.TableMap[tableID] = table
@@ -384,12 +384,20 @@ func (parse *Parse) movePrimaryKeyFirst() {
 }
 
 // moveColumns2First ...
-func (parse *Parse) moveColumns2First(fields []*Fields, columns []Columns) []Columns {
+func (parse *Parse) moveColumns2First(idx Indexes, columns []Columns) []Columns {
 	ordered := make([]Columns, 0, len(columns))
 	isKey := make(map[string]bool)
-	for _, field := range fields {
+	for _, field := range idx.Fields {
+		prefixLen := idx.PrefixLen(field)
 		for _, column := range columns {
-			if column.FieldName == field.ColumnName && !isKey[column.FieldName] {
+			if column.FieldName == field.ColumnName && prefixLen != 0 {
+				// The whole column is stored behind the key.
+				column.IsPrefix = true
+				if column.FieldLen > prefixLen {
+					column.FieldLen = prefixLen
+				}
+				ordered = append(ordered, column)
+			} else if column.FieldName == field.ColumnName && !isKey[column.FieldName] {
 				ordered = append(ordered, column)
 				isKey[column.FieldName] = true
 			}
diff --git a/recovery/ibdata/structure.go b/recovery/ibdata/structure.go
index 006ba09..a3a9863 100644
--- a/recovery/ibdata/structure.go
+++ b/recovery/ibdata/structure.go
@@ -47,6 +47,8 @@ type Columns struct {
 	IsDeleted bool
 	// The value is not stored, it is computed from other columns.
 	IsVirtual bool
+	// A key field which stores only the first bytes of the column.
+	IsPrefix bool
 }
 
 // IsFtsDocID tells whether this is the hidden document id column which InnoDB
@@ -74,6 +76,19 @@ func (idx Indexes) IsClustered() bool {
 	return idx.IndexType&1 != 0 || idx.Name == "PRIMARY" || idx.Name == "GEN_CLUST_INDEX"
 }
 
+// PrefixLen returns how many bytes of its column the field of the index stores,
+// or zero if it stores the whole column. If a field of the index is a prefix then
+// the positions of all of its fields are shifted, and have the length behind them.
+// Reference mysql-5.7.19/storage/innobase/dict/dict0load.cc dict_load_field_low
+func (idx Indexes) PrefixLen(field *Fields) uint64 {
+	for i, f := range idx.Fields {
+		if (i == 0 && f.ColumnPos > 0) || f.ColumnPos > 0xFFFF {
+			return field.ColumnPos & 0xFFFF
+		}
+	}
+	return 0
+}
+
 // Fields store the fields of the table index.
 type Fields struct {
 	ColumnPos  uint64
-- 
2.43.0


From 6bf466fb0a36da1ef3fb0abfe33129460bc6759d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:54 +0000
Subject: [PATCH 51/52] fix: CHAR columns of charsets with wide characters

---
 recovery/ibdata/parse.go | 12 ++++++++++--
 recovery/utils/const.go  |  3 +++
 recovery/utils/utils.go  | 12 ++++++++++++
 3 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index 03c45ce..aaf7633 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -536,12 +536,20 @@ func (parse *Parse) getAllColumns() error {
 			}
 
 			// A CHAR whose characters all have the same number of bytes has a
-			// fixed length, reference MySQL dtype_get_fixed_size_low method.
+			// fixed length, reference MySQL dtype_get_fixed_size_low method,
+			// but not if it is very long, reference dict_index_add_col method.
 			FieldType := c[5].FieldValue.(uint64)
-			if FieldType == utils.DATA_MYSQL && utils.IsFixedWidthCollation(c[6].FieldValue.(uint64)>>16&0x7FFF) {
+			Collation := c[6].FieldValue.(uint64) >> 16 & 0x7FFF
+			if FieldType == utils.DATA_MYSQL && utils.IsFixedWidthCollation(Collation) &&
+				c[7].FieldValue.(uint64) <= utils.DICT_MAX_FIXED_COL_LEN {
 				FieldType = utils.DATA_CHAR
 			}
 
+			// The pad spaces have more than one byte, do not cut a part of them.
+			if FieldType == utils.DATA_MYSQL && utils.IsWideCollation(Collation) {
+				FieldType = utils.DATA_VARMYSQL
+			}
+
 			// A geometry value is stored like a blob.
 			if FieldType == utils.DATA_GEOMETRY {
 				FieldType = utils.DATA_BLOB
diff --git a/recovery/utils/const.go b/recovery/utils/const.go
index 3611018..e3884d8 100644
--- a/recovery/utils/const.go
+++ b/recovery/utils/const.go
@@ -70,6 +70,9 @@ const (
 	DATA_MTYPE_MAX
 )
 
+// The longest column with a fixed length, reference mysql-5.7.19/storage/innobase/include/dict0mem.h
+const DICT_MAX_FIXED_COL_LEN = 768
+
 // The MySQL Server type
 const (
 	MYSQL_TYPE_DECIMAL uint64 = iota
diff --git a/recovery/utils/utils.go b/recovery/utils/utils.go
index ca25cd9..7d2eba9 100644
--- a/recovery/utils/utils.go
+++ b/recovery/utils/utils.go
@@ -765,6 +765,18 @@ func IsFixedWidthCollation(id uint64) bool {
 		!(id >= 224 && id <= 247) // utf8mb4
 }
 
+// IsWideCollation reports whether the characters of the charset of a MySQL
+// collation have at least two bytes.
+func IsWideCollation(id uint64) bool {
+	switch id {
+	case 35, 90, 159, // ucs2
+		54, 55, 56, 62, // utf16, utf16le
+		60, 61: // utf32
+		return true
+	}
+	return id >= 101 && id <= 191 // utf16, ucs2, utf32
+}
+
 // GetMaxLength ...
 func GetMaxLength(MySQLType uint64) {
 	// TODO: impl
-- 
2.43.0


From e04d13662ecca6183bee1c7a80764a5ceee7cae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:42 +0000
Subject: [PATCH 52/52] fix: a data dictionary without tables is an error

---
 recovery/ibdata/parse.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index aaf7633..1fdcd9b 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -737,6 +737,13 @@ func (parse *Parse) getAllTables() error {
 					IsDeleted: columns[0].IsDeleted}
 		}
 	}
+
+	// Every dictionary has tables, at least the ones of the server.
+	if len(parse.TableMap) == 0 {
+		err := errors.New("sys tables have no tables")
+		logs.Error(err.Error())
+		return err
+	}
 	return nil
 }
 
-- 
2.43.0

