From 2a8c9b327f53a27847efb35159cda128ae236831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:46 +0000
Subject: [PATCH 01/32] fix: accept the documented rtrim collation of the
 sqlite index

---
 pkg/index/fts5_config.go   | 2 +-
 pkg/index/sqlite_config.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/index/fts5_config.go b/pkg/index/fts5_config.go
index 886ccea..cc720e0 100644
--- a/pkg/index/fts5_config.go
+++ b/pkg/index/fts5_config.go
@@ -7,7 +7,7 @@ import (
 	"github.com/sirupsen/logrus"
 )
 
-var Fts5PropertyCollateAllowedValues = []string{"BINARY", "NOCASE", "RTIRM"}
+var Fts5PropertyCollateAllowedValues = []string{"BINARY", "NOCASE", "RTRIM"}
 
 type Fts5Config struct {
 	Name       string   `yaml:"name"`
diff --git a/pkg/index/sqlite_config.go b/pkg/index/sqlite_config.go
index 4e96b6e..1990465 100644
--- a/pkg/index/sqlite_config.go
+++ b/pkg/index/sqlite_config.go
@@ -9,7 +9,7 @@ import (
 	"strings"
 )
 
-var SqlitePropertyCollateAllowedValues = []string{"BINARY", "NOCASE", "RTIRM"}
+var SqlitePropertyCollateAllowedValues = []string{"BINARY", "NOCASE", "RTRIM"}
 
 type SqliteConfig struct {
 	Name       string                  `yaml:"name"`
-- 
2.43.0


From b4d7cc1b48e60bbbe547ad1345845330cea70099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:45 +0000
Subject: [PATCH 02/32] fix: index the values of array properties in the map
 and wildcard indexes

---
 pkg/index/map.go      | 28 ++++++++++++++++++++--------
 pkg/index/wildcard.go |  2 ++
 2 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/pkg/index/map.go b/pkg/index/map.go
index cc626a4..1b31e07 100644
--- a/pkg/index/map.go
+++ b/pkg/index/map.go
@@ -100,25 +100,37 @@ func (mapIndex *Map) addValueToIndex(
 	value interface{},
 	position record.Position,
 ) error {
+	// Using a set because a record must not be indexed twice for the same value
+	values := make(map[interface{}]struct{})
+	if err := mapIndex.collectValues(value, values); err != nil {
+		return err
+	}
+
+	propertyIndex := index[property]
+	for value := range values {
+		propertyIndex[value] = append(propertyIndex[value], position)
+	}
+
+	return nil
+}
+
+// Recursively gets all the individual values to index
+func (mapIndex *Map) collectValues(value interface{}, values map[interface{}]struct{}) error {
 	if valueArray, valueIsArray := value.([]interface{}); valueIsArray {
 		for _, valueArrayValue := range valueArray {
-			if err := mapIndex.addValueToIndex(index, property, valueArrayValue, position); err != nil {
+			if err := mapIndex.collectValues(valueArrayValue, values); err != nil {
 				return err
 			}
 		}
+
+		return nil
 	}
 
 	if _, valueIsMap := value.(map[string]interface{}); valueIsMap {
 		return errors.New("Indexing objects is not supported")
 	}
 
-	propertyIndex := index[property]
-	valueIndexes, valueIndexesExists := propertyIndex[value]
-	if valueIndexesExists {
-		propertyIndex[value] = append(valueIndexes, position)
-	} else {
-		propertyIndex[value] = record.PositionList{position}
-	}
+	values[value] = struct{}{}
 
 	return nil
 }
diff --git a/pkg/index/wildcard.go b/pkg/index/wildcard.go
index acf7f23..035575f 100644
--- a/pkg/index/wildcard.go
+++ b/pkg/index/wildcard.go
@@ -199,6 +199,8 @@ func (wildcard *Wildcard) addValueToIndex(
 				return err
 			}
 		}
+
+		return nil
 	}
 
 	stringValue, valueIsString := value.(string)
-- 
2.43.0


From c4a64ae9d0cb2e669e77e57b12f5f3bd0586a0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:48 +0000
Subject: [PATCH 03/32] fix: return an error when filtering the map and noop
 indexes by an array or an object

---
 pkg/index/map.go  | 4 ++++
 pkg/index/noop.go | 6 ++++++
 2 files changed, 10 insertions(+)

diff --git a/pkg/index/map.go b/pkg/index/map.go
index 1b31e07..a81dbf8 100644
--- a/pkg/index/map.go
+++ b/pkg/index/map.go
@@ -158,6 +158,10 @@ func (mapIndex *Map) GetRecordPositions(
 			return record.EmptyIterator, nil
 		}
 
+		if filter != nil && !reflect.TypeOf(filter).Comparable() {
+			return nil, fmt.Errorf("Cannot filter the value '%v' from property '%v' because it is not a primitive.", filter, propertyName)
+		}
+
 		indexedResults, foundIndexedResults := indexedValues[filter]
 		if !foundIndexedResults {
 			return record.EmptyIterator, nil
diff --git a/pkg/index/noop.go b/pkg/index/noop.go
index 564c1df..cad9485 100644
--- a/pkg/index/noop.go
+++ b/pkg/index/noop.go
@@ -32,6 +32,12 @@ func (noop *Noop) GetRecordPositions(
 	input input.Input,
 	filters map[string]interface{},
 ) (record.PositionIterator, error) {
+	for propertyName, filter := range filters {
+		if filter != nil && !reflect.TypeOf(filter).Comparable() {
+			return nil, fmt.Errorf("Cannot filter the value '%v' from property '%v' because it is not a primitive.", filter, propertyName)
+		}
+	}
+
 	inputIterator, end, err := input.IterateAll()
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 1e6aa6b36f9ede2cea7106903aff5cb52d39b889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:26 +0000
Subject: [PATCH 04/32] fix: do not lose the sqlite connections of partially
 read results

The rows were only closed when reading all the results, which leaked the
connection for any limited result. With in-memory databases, the following
queries were then executed by another connection, with an empty database.
---
 pkg/index/fts5.go             | 17 ++------------
 pkg/index/sqlite.go           | 17 ++------------
 pkg/index/sqlite/open.go      |  7 ++++++
 pkg/index/sqlite/positions.go | 43 +++++++++++++++++++++++++++++++++++
 4 files changed, 54 insertions(+), 30 deletions(-)
 create mode 100644 pkg/index/sqlite/positions.go

diff --git a/pkg/index/fts5.go b/pkg/index/fts5.go
index 58b71b8..626aebe 100644
--- a/pkg/index/fts5.go
+++ b/pkg/index/fts5.go
@@ -235,7 +235,7 @@ func (sqlite *Fts5) GetRecordPositions(
 		return nil, err
 	}
 
-	rows, err := sqlite.db.Query(`
+	positions, err := sqlitePackage.QueryPositions(sqlite.db, `
 		SELECT "__offset"
 		FROM `+tableIdentifier+`
 		WHERE `+tableIdentifier+` MATCH ?
@@ -244,20 +244,7 @@ func (sqlite *Fts5) GetRecordPositions(
 		return nil, err
 	}
 
-	return func() (*record.Position, error) {
-		for rows.Next() {
-			var positionValue int64
-			if err := rows.Scan(&positionValue); err != nil {
-				_ = rows.Close()
-				return nil, err
-			}
-
-			position := record.Position(positionValue)
-			return &position, nil
-		}
-
-		return nil, nil
-	}, nil
+	return positions.Iterate(), nil
 }
 
 func (sqlite *Fts5) Close() error {
diff --git a/pkg/index/sqlite.go b/pkg/index/sqlite.go
index 99990fc..a4ee434 100644
--- a/pkg/index/sqlite.go
+++ b/pkg/index/sqlite.go
@@ -245,7 +245,7 @@ func (sqlite *Sqlite) GetRecordPositions(
 		values = append(values, filter)
 	}
 
-	rows, err := sqlite.db.Query(`
+	positions, err := sqlitePackage.QueryPositions(sqlite.db, `
 		SELECT "offset"
 		FROM `+tableIdentifier+`
 		WHERE `+strings.Join(clauses, " AND ")+`;
@@ -254,20 +254,7 @@ func (sqlite *Sqlite) GetRecordPositions(
 		return nil, err
 	}
 
-	return func() (*record.Position, error) {
-		for rows.Next() {
-			var positionValue int64
-			if err := rows.Scan(&positionValue); err != nil {
-				_ = rows.Close()
-				return nil, err
-			}
-
-			position := record.Position(positionValue)
-			return &position, nil
-		}
-
-		return nil, nil
-	}, nil
+	return positions.Iterate(), nil
 }
 
 func (sqlite *Sqlite) Close() error {
diff --git a/pkg/index/sqlite/open.go b/pkg/index/sqlite/open.go
index 55593a3..71bd452 100644
--- a/pkg/index/sqlite/open.go
+++ b/pkg/index/sqlite/open.go
@@ -3,6 +3,7 @@ package sqlite
 import (
 	"database/sql"
 	_ "github.com/mattn/go-sqlite3"
+	"strings"
 )
 
 // We use the driver directly rather than the database/sql interfaces, because the generic
@@ -13,6 +14,12 @@ func Open(dsn string) (*sql.DB, error) {
 		return nil, err
 	}
 
+	// Each connection to an in-memory database has it's own data,
+	// so we must always use the same one.
+	if strings.Contains(dsn, ":memory:") || strings.Contains(dsn, "mode=memory") {
+		db.SetMaxOpenConns(1)
+	}
+
 	if _, err = db.Exec(`PRAGMA synchronous = OFF;`); err != nil {
 		return nil, err
 	}
diff --git a/pkg/index/sqlite/positions.go b/pkg/index/sqlite/positions.go
new file mode 100644
index 0000000..4a942b7
--- /dev/null
+++ b/pkg/index/sqlite/positions.go
@@ -0,0 +1,43 @@
+package sqlite
+
+import (
+	"database/sql"
+
+	"github.com/rodb-io/rodb/pkg/input/record"
+)
+
+// Executes the given query and gets the positions from it's only column.
+// All the rows are read immediately, because the returned iterator
+// does not have to be exhausted and it would otherwise hold
+// the connection forever.
+func QueryPositions(
+	db *sql.DB,
+	query string,
+	values ...interface{},
+) (positions record.PositionList, err error) {
+	rows, err := db.Query(query, values...)
+	if err != nil {
+		return nil, err
+	}
+	defer func() {
+		if closeErr := rows.Close(); closeErr != nil && err == nil {
+			err = closeErr
+		}
+	}()
+
+	positions = make(record.PositionList, 0)
+	for rows.Next() {
+		var position record.Position
+		if err := rows.Scan(&position); err != nil {
+			return nil, err
+		}
+
+		positions = append(positions, position)
+	}
+
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
+
+	return positions, nil
+}
-- 
2.43.0


From ae412f97fa618e7c5674bc135801f8fe5d406656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:52 +0000
Subject: [PATCH 05/32] fix: do not share the charset decoder of the string
 parser between goroutines

It has an internal state, so concurrent requests corrupted the values of each
other. Also refuses properly the charsets which are known but not supported.
---
 pkg/parser/string.go | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/pkg/parser/string.go b/pkg/parser/string.go
index 99d6f92..51a9bd9 100644
--- a/pkg/parser/string.go
+++ b/pkg/parser/string.go
@@ -1,6 +1,7 @@
 package parser
 
 import (
+	"fmt"
 	"golang.org/x/text/encoding"
 	"golang.org/x/text/encoding/ianaindex"
 	"golang.org/x/text/transform"
@@ -9,26 +10,28 @@ import (
 )
 
 type String struct {
-	config  *StringConfig
-	decoder *encoding.Decoder
+	config   *StringConfig
+	encoding encoding.Encoding
 }
 
 func NewString(
 	config *StringConfig,
 ) (*String, error) {
-	var decoder *encoding.Decoder = nil
+	var charsetEncoding encoding.Encoding = nil
 	if config.ConvertFromCharset != "" {
-		encoding, err := ianaindex.MIME.Encoding(config.ConvertFromCharset)
+		var err error
+		charsetEncoding, err = ianaindex.MIME.Encoding(config.ConvertFromCharset)
 		if err != nil {
 			return nil, err
 		}
-
-		decoder = encoding.NewDecoder()
+		if charsetEncoding == nil {
+			return nil, fmt.Errorf("The charset '%v' is not supported.", config.ConvertFromCharset)
+		}
 	}
 
 	return &String{
-		config:  config,
-		decoder: decoder,
+		config:   config,
+		encoding: charsetEncoding,
 	}, nil
 }
 
@@ -46,7 +49,8 @@ func (str *String) GetRegexpPattern() string {
 
 func (str *String) Parse(value string) (interface{}, error) {
 	if str.config.ConvertFromCharset != "" {
-		rInUTF8 := transform.NewReader(strings.NewReader(value), str.decoder)
+		// The decoder has an internal state, so it cannot be shared
+		rInUTF8 := transform.NewReader(strings.NewReader(value), str.encoding.NewDecoder())
 		convertedValue, err := ioutil.ReadAll(rInUTF8)
 		if err != nil {
 			return nil, err
-- 
2.43.0


From 8e03807dbf5b766ed42929df0fca6800751dcaf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:56 +0000
Subject: [PATCH 06/32] fix: wrong route parameters after a float or boolean
 one

The capturing groups of those patterns were shifting the following ones.
---
 pkg/parser/boolean.go | 2 +-
 pkg/parser/float.go   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/parser/boolean.go b/pkg/parser/boolean.go
index 6951e17..5d31351 100644
--- a/pkg/parser/boolean.go
+++ b/pkg/parser/boolean.go
@@ -35,7 +35,7 @@ func (boolean *Boolean) GetRegexpPattern() string {
 	for _, value := range boolean.config.FalseValues {
 		values = append(values, regexp.QuoteMeta(value))
 	}
-	return "(" + strings.Join(values, "|") + ")"
+	return "(?:" + strings.Join(values, "|") + ")"
 }
 
 func (boolean *Boolean) Parse(value string) (interface{}, error) {
diff --git a/pkg/parser/float.go b/pkg/parser/float.go
index 1ca2846..ed12867 100644
--- a/pkg/parser/float.go
+++ b/pkg/parser/float.go
@@ -34,7 +34,7 @@ func (float *Float) GetRegexpPattern() string {
 	if ignore != "" {
 		ignoreBegin = "[" + ignore + "]*"
 	}
-	return ignoreBegin + "[-]?[0-9" + ignore + "]+([" + separator + "][0-9" + ignore + "]+)?"
+	return ignoreBegin + "[-]?[0-9" + ignore + "]+(?:[" + separator + "][0-9" + ignore + "]+)?"
 }
 
 func (float *Float) Parse(value string) (interface{}, error) {
-- 
2.43.0


From 424afa932b54f9b92b8f2464c6b4e1bc8a1dbcda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:53 +0000
Subject: [PATCH 07/32] fix: match the literal parts of the route paths
 literally

They were interpreted as regular expressions, although any string is a valid path.
---
 pkg/service/http.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/service/http.go b/pkg/service/http.go
index 020f6b3..a884e18 100644
--- a/pkg/service/http.go
+++ b/pkg/service/http.go
@@ -152,7 +152,7 @@ func (service *Http) createPathRegexp(
 	}
 
 	parts := paramRegexp.Split(routeConfig.Path, -1)
-	path := parts[0]
+	path := regexp.QuoteMeta(parts[0])
 	for partIndex := 1; partIndex < len(parts); partIndex++ {
 		paramIndex := partIndex - 1
 		paramName := params[paramIndex]
@@ -167,7 +167,7 @@ func (service *Http) createPathRegexp(
 		}
 
 		paramPattern := parser.GetRegexpPattern()
-		path = path + "(" + paramPattern + ")" + parts[partIndex]
+		path = path + "(" + paramPattern + ")" + regexp.QuoteMeta(parts[partIndex])
 	}
 
 	regexp, err := regexp.Compile("^" + path + "$")
-- 
2.43.0


From 90acb7bdc10d5236b8fc23bb97944aee9a2a079d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:39 +0000
Subject: [PATCH 08/32] fix: build valid route patterns from any ignored
 characters and decimal separator

---
 pkg/parser/float.go   | 4 ++--
 pkg/parser/integer.go | 3 +--
 pkg/parser/parser.go  | 7 +++++++
 3 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/pkg/parser/float.go b/pkg/parser/float.go
index ed12867..937d95f 100644
--- a/pkg/parser/float.go
+++ b/pkg/parser/float.go
@@ -29,12 +29,12 @@ func (float *Float) Primitive() bool {
 
 func (float *Float) GetRegexpPattern() string {
 	separator := regexp.QuoteMeta(float.config.DecimalSeparator)
-	ignore := regexp.QuoteMeta(float.config.IgnoreCharacters)
+	ignore := quoteCharacterClass(float.config.IgnoreCharacters)
 	ignoreBegin := ""
 	if ignore != "" {
 		ignoreBegin = "[" + ignore + "]*"
 	}
-	return ignoreBegin + "[-]?[0-9" + ignore + "]+(?:[" + separator + "][0-9" + ignore + "]+)?"
+	return ignoreBegin + "[-]?[0-9" + ignore + "]+(?:" + separator + "[0-9" + ignore + "]+)?"
 }
 
 func (float *Float) Parse(value string) (interface{}, error) {
diff --git a/pkg/parser/integer.go b/pkg/parser/integer.go
index b202783..64cf566 100644
--- a/pkg/parser/integer.go
+++ b/pkg/parser/integer.go
@@ -2,7 +2,6 @@ package parser
 
 import (
 	"github.com/rodb-io/rodb/pkg/util"
-	"regexp"
 	"strconv"
 )
 
@@ -27,7 +26,7 @@ func (integer *Integer) Primitive() bool {
 }
 
 func (integer *Integer) GetRegexpPattern() string {
-	ignore := regexp.QuoteMeta(integer.config.IgnoreCharacters)
+	ignore := quoteCharacterClass(integer.config.IgnoreCharacters)
 	ignoreBegin := ""
 	if ignore != "" {
 		ignoreBegin = "[" + ignore + "]*"
diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index 14a1507..622fabf 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -3,6 +3,8 @@ package parser
 import (
 	"fmt"
 	"github.com/sirupsen/logrus"
+	"regexp"
+	"strings"
 )
 
 type Parser interface {
@@ -61,6 +63,11 @@ func Close(parsers List) error {
 	return nil
 }
 
+// Escapes characters to be used inside of a regexp's character class
+func quoteCharacterClass(characters string) string {
+	return strings.ReplaceAll(regexp.QuoteMeta(characters), "-", `\-`)
+}
+
 // Compares two values outputted by the parsers
 // returns nil if a = b, true if a < b, false if a > b
 func Compare(a interface{}, b interface{}) (*bool, error) {
-- 
2.43.0


From ab26daad630095223a084398656e622dd383871c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:43 +0000
Subject: [PATCH 09/32] fix: accept any number of columns in the ignored first
 row of a csv

---
 pkg/input/csv.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/input/csv.go b/pkg/input/csv.go
index 3e92cf3..c9673ba 100644
--- a/pkg/input/csv.go
+++ b/pkg/input/csv.go
@@ -182,8 +182,10 @@ func (csvInput *Csv) IterateAll() (record.Iterator, func() error, error) {
 	}
 
 	if csvInput.config.IgnoreFirstRow {
+		// The number of columns of an ignored row (which may not exist) does not matter
 		_, err = csvReader.Read()
-		if err != nil {
+		if err != nil && err != io.EOF && !errors.Is(err, csv.ErrFieldCount) {
+			_ = file.Close()
 			return nil, nil, err
 		}
 	}
-- 
2.43.0


From 7575fdeb109c54795825393778fa6c2c12ba56c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:47 +0000
Subject: [PATCH 10/32] fix: accept any single unicode character as csv
 delimiter

---
 pkg/input/csv_config.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/input/csv_config.go b/pkg/input/csv_config.go
index 8abae79..360ba83 100644
--- a/pkg/input/csv_config.go
+++ b/pkg/input/csv_config.go
@@ -6,6 +6,7 @@ import (
 	"github.com/rodb-io/rodb/pkg/parser"
 	"github.com/sirupsen/logrus"
 	"os"
+	"unicode/utf8"
 )
 
 type CsvConfig struct {
@@ -77,7 +78,7 @@ func (config *CsvConfig) Validate(parsers map[string]parser.Config, log *logrus.
 		config.Delimiter = ","
 	}
 
-	if len(config.Delimiter) > 1 {
+	if utf8.RuneCountInString(config.Delimiter) > 1 {
 		return errors.New("csv.delimiter must be a single character")
 	}
 
-- 
2.43.0


From acd4aba16a05ef6d1455350992b559addbe8a9af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:51 +0000
Subject: [PATCH 11/32] fix: report properly the paths which cannot be checked
 instead of crashing

---
 pkg/input/csv_config.go    | 2 ++
 pkg/input/json_config.go   | 3 +++
 pkg/input/xml_config.go    | 2 ++
 pkg/service/http_config.go | 4 ++++
 4 files changed, 11 insertions(+)

diff --git a/pkg/input/csv_config.go b/pkg/input/csv_config.go
index 360ba83..87586f1 100644
--- a/pkg/input/csv_config.go
+++ b/pkg/input/csv_config.go
@@ -68,6 +68,8 @@ func (config *CsvConfig) Validate(parsers map[string]parser.Config, log *logrus.
 	fileInfo, err := os.Stat(config.Path)
 	if os.IsNotExist(err) {
 		return errors.New("The csv file '" + config.Path + "' does not exist")
+	} else if err != nil {
+		return fmt.Errorf("Error checking the path '%v': %w", config.Path, err)
 	}
 	if fileInfo.IsDir() {
 		return errors.New("The path '" + config.Path + "' is not a file")
diff --git a/pkg/input/json_config.go b/pkg/input/json_config.go
index 489cba3..2730b17 100644
--- a/pkg/input/json_config.go
+++ b/pkg/input/json_config.go
@@ -2,6 +2,7 @@ package input
 
 import (
 	"errors"
+	"fmt"
 	"github.com/rodb-io/rodb/pkg/parser"
 	"github.com/sirupsen/logrus"
 	"os"
@@ -39,6 +40,8 @@ func (config *JsonConfig) Validate(parsers map[string]parser.Config, log *logrus
 	fileInfo, err := os.Stat(config.Path)
 	if os.IsNotExist(err) {
 		return errors.New("The json file '" + config.Path + "' does not exist")
+	} else if err != nil {
+		return fmt.Errorf("Error checking the path '%v': %w", config.Path, err)
 	}
 	if fileInfo.IsDir() {
 		return errors.New("The path '" + config.Path + "' is not a file")
diff --git a/pkg/input/xml_config.go b/pkg/input/xml_config.go
index ef4be62..633c757 100644
--- a/pkg/input/xml_config.go
+++ b/pkg/input/xml_config.go
@@ -70,6 +70,8 @@ func (config *XmlConfig) Validate(parsers map[string]parser.Config, log *logrus.
 	fileInfo, err := os.Stat(config.Path)
 	if os.IsNotExist(err) {
 		return errors.New("The xml file '" + config.Path + "' does not exist")
+	} else if err != nil {
+		return fmt.Errorf("Error checking the path '%v': %w", config.Path, err)
 	}
 	if fileInfo.IsDir() {
 		return errors.New("The path '" + config.Path + "' is not a file")
diff --git a/pkg/service/http_config.go b/pkg/service/http_config.go
index 98c78e0..671793c 100644
--- a/pkg/service/http_config.go
+++ b/pkg/service/http_config.go
@@ -108,6 +108,8 @@ func (config *HttpHttpsConfig) Validate(log *logrus.Entry) error {
 	certificateFileInfo, err := os.Stat(config.CertificatePath)
 	if os.IsNotExist(err) {
 		return errors.New("certificatePath: The file '" + config.CertificatePath + "' does not exist")
+	} else if err != nil {
+		return fmt.Errorf("certificatePath: %w", err)
 	}
 	if certificateFileInfo.IsDir() {
 		return errors.New("certificatePath: The path '" + config.CertificatePath + "' is not a file")
@@ -119,6 +121,8 @@ func (config *HttpHttpsConfig) Validate(log *logrus.Entry) error {
 	privateKeyFile, err := os.Stat(config.PrivateKeyPath)
 	if os.IsNotExist(err) {
 		return errors.New("privateKeyFile: The file '" + config.PrivateKeyPath + "' does not exist")
+	} else if err != nil {
+		return fmt.Errorf("privateKeyFile: %w", err)
 	}
 	if privateKeyFile.IsDir() {
 		return errors.New("privateKeyFile: The path '" + config.PrivateKeyPath + "' is not a file")
-- 
2.43.0


From 003eac7dd9b7a820812f7d7eaed3f1b07ec19951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:56 +0000
Subject: [PATCH 12/32] fix: report the malformed json records instead of
 stopping silently

The records following an unexpected ] or } were silently ignored,
and a null record was crashing when adding relationships to it.
---
 pkg/input/json.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pkg/input/json.go b/pkg/input/json.go
index 58e1fa2..e3c2936 100644
--- a/pkg/input/json.go
+++ b/pkg/input/json.go
@@ -2,6 +2,7 @@ package input
 
 import (
 	"encoding/json"
+	"errors"
 	"fmt"
 	"github.com/fsnotify/fsnotify"
 	"github.com/rodb-io/rodb/pkg/input/record"
@@ -12,6 +13,8 @@ import (
 	"time"
 )
 
+var errNullJsonRecord = errors.New("Cannot read json data: expected an object, got null")
+
 type Json struct {
 	config     *JsonConfig
 	reader     io.ReadSeeker
@@ -78,6 +81,8 @@ func (jsonInput *Json) Get(position record.Position) (record.Record, error) {
 	var data map[string]interface{}
 	if err := jsonDecoder.Decode(&data); err != nil {
 		return nil, fmt.Errorf("Cannot read json data: %w", err)
+	} else if data == nil {
+		return nil, errNullJsonRecord
 	}
 
 	return NewJsonRecord(
@@ -127,10 +132,6 @@ func (jsonInput *Json) IterateAll() (record.Iterator, func() error, error) {
 	jsonDecoder := json.NewDecoder(reader)
 
 	iterator := func() (record.Record, error) {
-		if !jsonDecoder.More() {
-			return nil, nil
-		}
-
 		position := jsonDecoder.InputOffset()
 
 		var data map[string]interface{}
@@ -138,6 +139,8 @@ func (jsonInput *Json) IterateAll() (record.Iterator, func() error, error) {
 			return nil, nil
 		} else if err != nil {
 			return nil, fmt.Errorf("Cannot read json data: %w", err)
+		} else if data == nil {
+			return nil, errNullJsonRecord
 		}
 
 		record := NewJsonRecord(
-- 
2.43.0


From 48851a76a3da66b6357380f2a4cf4eb50a3ccb00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:00 +0000
Subject: [PATCH 13/32] fix: do not crash on negative array indexes in the
 property paths

---
 pkg/input/json_record.go | 2 +-
 pkg/input/record/path.go | 2 +-
 pkg/input/xml_record.go  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/input/json_record.go b/pkg/input/json_record.go
index fc2b70d..77f4c00 100644
--- a/pkg/input/json_record.go
+++ b/pkg/input/json_record.go
@@ -63,7 +63,7 @@ func (record *JsonRecord) getSubValue(data interface{}, path []string) (interfac
 
 		// Index does not exist: return nil (we must not output
 		// an error in this case, even if there is a sub-path)
-		if indexInPath >= len(dataArray) {
+		if indexInPath < 0 || indexInPath >= len(dataArray) {
 			return nil, nil
 		}
 
diff --git a/pkg/input/record/path.go b/pkg/input/record/path.go
index 17cfce0..d311f64 100644
--- a/pkg/input/record/path.go
+++ b/pkg/input/record/path.go
@@ -27,7 +27,7 @@ func GetSubValue(value interface{}, path []string) (interface{}, error) {
 		}
 
 		valueArray := value.([]interface{})
-		if index >= len(valueArray) {
+		if index < 0 || index >= len(valueArray) {
 			// Not having the required index is a common case that
 			// should not trigger an error, but get a nil value
 			return nil, nil
diff --git a/pkg/input/xml_record.go b/pkg/input/xml_record.go
index 2f98b20..c9021ba 100644
--- a/pkg/input/xml_record.go
+++ b/pkg/input/xml_record.go
@@ -225,7 +225,7 @@ func (record *XmlRecord) getSubArrayValue(
 		return nil, fmt.Errorf("Cannot get sub-path '%v' because the requested key is '%v', but the value is an array", path, path[0])
 	}
 
-	if requestedIndex >= len(nodes) {
+	if requestedIndex < 0 || requestedIndex >= len(nodes) {
 		// Not having the required index is a common case that
 		// should not trigger an error, but get a nil value
 		return nil, nil
-- 
2.43.0


From 9bf1d1379eda3b136ad144ca65c275c8191ad0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:33 +0000
Subject: [PATCH 14/32] fix: send an error when the output data cannot be
 encoded

NaN or infinite float values cannot be encoded to JSON. An empty
response was sent with a 200 status instead.
---
 pkg/output/json_array.go  | 10 +++++++++-
 pkg/output/json_object.go | 10 +++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/pkg/output/json_array.go b/pkg/output/json_array.go
index 5614835..39208c1 100644
--- a/pkg/output/json_array.go
+++ b/pkg/output/json_array.go
@@ -1,6 +1,7 @@
 package output
 
 import (
+	"bytes"
 	"encoding/json"
 	"errors"
 	"fmt"
@@ -132,7 +133,14 @@ func (jsonArray *JsonArray) Handle(
 		rowsData = append(rowsData, rowData)
 	}
 
-	return json.NewEncoder(sendSucces()).Encode(rowsData)
+	// Encoding before sending anything, because it can fail
+	response := &bytes.Buffer{}
+	if err := json.NewEncoder(response).Encode(rowsData); err != nil {
+		return sendError(err)
+	}
+
+	_, err = response.WriteTo(sendSucces())
+	return err
 }
 
 func (jsonArray *JsonArray) getLimit(params map[string]string) (uint, error) {
diff --git a/pkg/output/json_object.go b/pkg/output/json_object.go
index 8b9f15d..059cb7a 100644
--- a/pkg/output/json_object.go
+++ b/pkg/output/json_object.go
@@ -1,6 +1,7 @@
 package output
 
 import (
+	"bytes"
 	"encoding/json"
 	"errors"
 	"fmt"
@@ -115,7 +116,14 @@ func (jsonObject *JsonObject) Handle(
 		return sendError(err)
 	}
 
-	return json.NewEncoder(sendSucces()).Encode(data)
+	// Encoding before sending anything, because it can fail
+	response := &bytes.Buffer{}
+	if err := json.NewEncoder(response).Encode(data); err != nil {
+		return sendError(err)
+	}
+
+	_, err = response.WriteTo(sendSucces())
+	return err
 }
 
 func (jsonObject *JsonObject) getRouteFiltersPerIndex(params map[string]string) (map[string]map[string]interface{}, error) {
-- 
2.43.0


From 2183754e9bc70474171c9359c3605d50ca02078e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:36 +0000
Subject: [PATCH 15/32] fix: write all the data of the wildcard index before
 flagging it as completed

---
 pkg/index/wildcard.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/index/wildcard.go b/pkg/index/wildcard.go
index 035575f..ef9aef9 100644
--- a/pkg/index/wildcard.go
+++ b/pkg/index/wildcard.go
@@ -124,6 +124,12 @@ func (wildcard *Wildcard) createIndex() error {
 		}
 	}
 
+	// The data must be written before the completed flag, otherwise an
+	// interrupted process could leave an incomplete index flagged as completed
+	if err := indexStream.Flush(); err != nil {
+		return err
+	}
+
 	metadata.SetCompleted(true)
 	if err := metadata.Save(); err != nil {
 		return err
-- 
2.43.0


From 20234af6b6d11c2fb34f13c63543757828f09b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:48 +0000
Subject: [PATCH 16/32] fix: let the requests being handled finish when
 shutting down

---
 cmd/main.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cmd/main.go b/cmd/main.go
index 97af3f1..5cb00c8 100644
--- a/cmd/main.go
+++ b/cmd/main.go
@@ -99,7 +99,10 @@ func main() {
 		os.Exit(1)
 		return
 	}
+	closed := make(chan struct{})
 	go (func() {
+		defer close(closed)
+
 		signals := make(chan os.Signal, 1)
 		signal.Notify(signals, os.Interrupt, os.Kill)
 		signal := <-signals
@@ -115,4 +118,8 @@ func main() {
 		os.Exit(1)
 		return
 	}
+
+	// The services stop listening as soon as the shutdown begins,
+	// but the requests that are still being handled must finish
+	<-closed
 }
-- 
2.43.0


From b76c30b785f0cac39be9ccb7489a7e76671d1ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:26 +0000
Subject: [PATCH 17/32] fix: read the xml records from any position, in any
 order and concurrently

---
 pkg/input/xml.go        | 180 +++++++++++++++++++++++++++++++++++++---
 pkg/input/xml_config.go |  18 ++++
 pkg/input/xml_record.go |  19 ++---
 3 files changed, 194 insertions(+), 23 deletions(-)

diff --git a/pkg/input/xml.go b/pkg/input/xml.go
index 2141dd7..284b0cd 100644
--- a/pkg/input/xml.go
+++ b/pkg/input/xml.go
@@ -11,6 +11,8 @@ import (
 	"github.com/rodb-io/rodb/pkg/util"
 	"io"
 	"os"
+	"sort"
+	"strings"
 	"sync"
 	"time"
 )
@@ -21,17 +23,45 @@ var xmlParserOptions = xmlquery.ParserOptions{
 	},
 }
 
+func init() {
+	// The compiled expressions are not safe for concurrent use,
+	// so they must not be shared between the stream parsers
+	xmlquery.DisableSelectorCache = true
+}
+
 type Xml struct {
 	config       *XmlConfig
 	reader       io.ReadSeeker
 	readerBuffer *bufio.Reader
 	readerLock   sync.Mutex
 	xmlFile      *os.File
-	xmlParser    *xmlquery.StreamParser
+	contexts     []xmlContext
+	contextsLock sync.Mutex
 	parsers      parser.List
 	watcher      *fsnotify.Watcher
 }
 
+// The tags which are open at the given position (and until the position of
+// the next context). They are required to get a record without having to
+// read the whole document from the beginning.
+type xmlContext struct {
+	position record.Position
+	openTags string
+}
+
+// Returns at most a single byte for each read operation, which avoids any
+// read-ahead in the xml parser and thus allows to know it's exact position
+type xmlSingleByteReader struct {
+	reader io.Reader
+}
+
+func (singleByteReader xmlSingleByteReader) Read(data []byte) (int, error) {
+	if len(data) > 1 {
+		data = data[:1]
+	}
+	return singleByteReader.reader.Read(data)
+}
+
 type xmlTempRecordNode struct {
 	XMLName  xml.Name
 	Attr     []xml.Attr `xml:",any,attr"`
@@ -69,12 +99,7 @@ func NewXml(
 	xmlInput.reader = io.ReadSeeker(file)
 	xmlInput.readerBuffer = bufio.NewReader(xmlInput.reader)
 
-	xmlInput.xmlParser, err = xmlquery.CreateStreamParserWithOptions(
-		xmlInput.readerBuffer,
-		xmlParserOptions,
-		xmlInput.config.RecordXPath,
-	)
-	if err != nil {
+	if _, err := xmlInput.newParser(xmlInput.readerBuffer); err != nil {
 		return nil, err
 	}
 
@@ -89,7 +114,65 @@ func (xmlInput *Xml) Name() string {
 	return xmlInput.config.Name
 }
 
+func (xmlInput *Xml) newParser(reader io.Reader) (*xmlquery.StreamParser, error) {
+	return xmlquery.CreateStreamParserWithOptions(
+		reader,
+		xmlParserOptions,
+		xmlInput.config.RecordXPath,
+	)
+}
+
+// Returns the tags which are open just before the given position
+func (xmlInput *Xml) getOpenTags(position record.Position) (string, error) {
+	xmlInput.contextsLock.Lock()
+	defer xmlInput.contextsLock.Unlock()
+
+	if xmlInput.contexts == nil {
+		// The file was not read yet (the indexes have been loaded from the disk)
+		contexts, err := xmlInput.readContexts()
+		if err != nil {
+			return "", err
+		}
+		xmlInput.contexts = contexts
+	}
+
+	index := sort.Search(len(xmlInput.contexts), func(i int) bool {
+		return xmlInput.contexts[i].position > position
+	})
+	if index == 0 {
+		return "", nil
+	}
+
+	return xmlInput.contexts[index-1].openTags, nil
+}
+
+func (xmlInput *Xml) readContexts() ([]xmlContext, error) {
+	var contexts []xmlContext
+	iterator, end, err := xmlInput.iterateAll(func(result []xmlContext) {
+		contexts = result
+	})
+	if err != nil {
+		return nil, err
+	}
+	defer end()
+
+	for {
+		record, err := iterator()
+		if err != nil {
+			return nil, err
+		}
+		if record == nil {
+			return contexts, nil
+		}
+	}
+}
+
 func (xmlInput *Xml) Get(position record.Position) (record.Record, error) {
+	openTags, err := xmlInput.getOpenTags(position)
+	if err != nil {
+		return nil, err
+	}
+
 	xmlInput.readerLock.Lock()
 	defer xmlInput.readerLock.Unlock()
 
@@ -97,7 +180,15 @@ func (xmlInput *Xml) Get(position record.Position) (record.Record, error) {
 		return nil, err
 	}
 
-	node, err := xmlInput.xmlParser.Read()
+	xmlParser, err := xmlInput.newParser(io.MultiReader(
+		strings.NewReader(openTags),
+		xmlInput.readerBuffer,
+	))
+	if err != nil {
+		return nil, err
+	}
+
+	node, err := xmlParser.Read()
 	if err == io.EOF {
 		return nil, fmt.Errorf("Did not find an XML record at position %v", position)
 	} else if err != nil {
@@ -126,6 +217,14 @@ func (xmlInput *Xml) ModTime() (time.Time, error) {
 }
 
 func (xmlInput *Xml) IterateAll() (record.Iterator, func() error, error) {
+	return xmlInput.iterateAll(func(contexts []xmlContext) {
+		xmlInput.contextsLock.Lock()
+		defer xmlInput.contextsLock.Unlock()
+		xmlInput.contexts = contexts
+	})
+}
+
+func (xmlInput *Xml) iterateAll(onContextsRead func([]xmlContext)) (record.Iterator, func() error, error) {
 	file, err := os.Open(xmlInput.config.Path)
 	if err != nil {
 		return nil, nil, err
@@ -134,15 +233,15 @@ func (xmlInput *Xml) IterateAll() (record.Iterator, func() error, error) {
 	reader := io.ReadSeeker(file)
 	readerBuffer := bufio.NewReader(reader)
 
-	xmlParser, err := xmlquery.CreateStreamParserWithOptions(
-		readerBuffer,
-		xmlParserOptions,
-		xmlInput.config.RecordXPath,
-	)
+	xmlParser, err := xmlInput.newParser(xmlSingleByteReader{reader: readerBuffer})
 	if err != nil {
 		return nil, nil, err
 	}
 
+	contexts := []xmlContext{{position: 0, openTags: ""}}
+	openTags := ""
+	var lastParent *xmlquery.Node
+
 	position := int64(0)
 	iterator := func() (record.Record, error) {
 		// The returned position is actually the end of the opening tag of the previous element
@@ -152,14 +251,22 @@ func (xmlInput *Xml) IterateAll() (record.Iterator, func() error, error) {
 		if err != nil {
 			return nil, fmt.Errorf("Error when getting xml offset: %v", err)
 		}
+		if openTags != contexts[len(contexts)-1].openTags {
+			contexts = append(contexts, xmlContext{position: position, openTags: openTags})
+		}
 
 		node, err := xmlParser.Read()
 		if err == io.EOF {
+			onContextsRead(contexts)
 			return nil, nil
 		}
 		if err != nil {
 			return nil, fmt.Errorf("Cannot read xml data: %w", err)
 		}
+		if node.Parent != lastParent {
+			openTags = getXmlOpenTags(node)
+			lastParent = node.Parent
+		}
 
 		record, err := NewXmlRecord(xmlInput.config, node, xmlInput.parsers, position)
 		if err != nil {
@@ -176,6 +283,53 @@ func (xmlInput *Xml) IterateAll() (record.Iterator, func() error, error) {
 	return iterator, end, nil
 }
 
+// Writes the opening tags of all the parents of the given node
+func getXmlOpenTags(node *xmlquery.Node) string {
+	result := ""
+	root := node
+	for parent := node.Parent; parent != nil; parent = parent.Parent {
+		root = parent
+		if parent.Type != xmlquery.ElementNode {
+			continue
+		}
+
+		tag := &strings.Builder{}
+		tag.WriteString("<" + getXmlQualifiedName(parent.Prefix, parent.Data))
+		for _, attr := range parent.Attr {
+			tag.WriteString(" " + getXmlQualifiedName(attr.Name.Space, attr.Name.Local) + "=\"")
+			for _, char := range attr.Value {
+				if char == '<' || char == '&' || char == '"' || char < ' ' || char > '~' {
+					fmt.Fprintf(tag, "&#%d;", char)
+				} else {
+					tag.WriteRune(char)
+				}
+			}
+			tag.WriteString("\"")
+		}
+		tag.WriteString(">")
+
+		result = tag.String() + result
+	}
+
+	// The declaration is the one defining the encoding of the document
+	for child := root.FirstChild; child != nil; child = child.NextSibling {
+		if child.Type == xmlquery.DeclarationNode && child.Data == "xml" {
+			if encoding := strings.Trim(child.SelectAttr("encoding"), "'"); encoding != "" {
+				result = "<?xml version=\"1.0\" encoding=\"" + encoding + "\"?>" + result
+			}
+		}
+	}
+
+	return result
+}
+
+func getXmlQualifiedName(prefix string, name string) string {
+	if prefix == "" {
+		return name
+	}
+	return prefix + ":" + name
+}
+
 func (xmlInput *Xml) Close() error {
 	if err := xmlInput.watcher.Remove(xmlInput.config.Path); err != nil {
 		return err
diff --git a/pkg/input/xml_config.go b/pkg/input/xml_config.go
index 633c757..1b1c3c7 100644
--- a/pkg/input/xml_config.go
+++ b/pkg/input/xml_config.go
@@ -3,10 +3,12 @@ package input
 import (
 	"errors"
 	"fmt"
+	"github.com/antchfx/xmlquery"
 	"github.com/antchfx/xpath"
 	"github.com/rodb-io/rodb/pkg/parser"
 	"github.com/sirupsen/logrus"
 	"os"
+	"sync"
 )
 
 type XmlInputPropertyType string
@@ -35,6 +37,22 @@ type XmlPropertyConfig struct {
 	Items         *XmlPropertyConfig   `yaml:"items"`
 	Properties    []*XmlPropertyConfig `yaml:"properties"`
 	CompiledXPath *xpath.Expr
+	xpathLock     sync.Mutex
+}
+
+// The compiled expressions are not safe for concurrent use
+func (config *XmlPropertyConfig) evaluate(node *xmlquery.Node) interface{} {
+	config.xpathLock.Lock()
+	defer config.xpathLock.Unlock()
+
+	return config.CompiledXPath.Evaluate(xmlquery.CreateXPathNavigator(node))
+}
+
+func (config *XmlPropertyConfig) selectAll(node *xmlquery.Node) []*xmlquery.Node {
+	config.xpathLock.Lock()
+	defer config.xpathLock.Unlock()
+
+	return xmlquery.QuerySelectorAll(node, config.CompiledXPath)
 }
 
 func (config *XmlConfig) GetName() string {
diff --git a/pkg/input/xml_record.go b/pkg/input/xml_record.go
index c9021ba..505bd7f 100644
--- a/pkg/input/xml_record.go
+++ b/pkg/input/xml_record.go
@@ -91,16 +91,14 @@ func (record *XmlRecord) getAllValues(
 	currentConfig *XmlPropertyConfig,
 ) (interface{}, error) {
 	if currentConfig.Type == XmlInputPropertyTypeArray {
-		nodes := xmlquery.QuerySelectorAll(node, currentConfig.CompiledXPath)
+		nodes := currentConfig.selectAll(node)
 		return record.nodeIteratorToArray(nodes, currentConfig)
 	} else if currentConfig.Type == XmlInputPropertyTypeObject {
-		nodes := xmlquery.QuerySelectorAll(node, currentConfig.CompiledXPath)
+		nodes := currentConfig.selectAll(node)
 		return record.nodeIteratorToObject(nodes, currentConfig)
 	}
 
-	result := currentConfig.CompiledXPath.Evaluate(
-		xmlquery.CreateXPathNavigator(node),
-	)
+	result := currentConfig.evaluate(node)
 
 	if currentConfig.Type != XmlInputPropertyTypePrimitive {
 		return nil, record.xpathError(currentConfig, fmt.Sprintf("got a primitive value, but the property does not have a primitive type"))
@@ -135,6 +133,9 @@ func (record *XmlRecord) handleNodeIteratorValue(config *XmlPropertyConfig, node
 		return nil, record.xpathError(config, fmt.Sprintf("got XmlRecord node(s), but the property does not have the appropriate configuration or a string parser"))
 	}
 
+	config.xpathLock.Lock()
+	defer config.xpathLock.Unlock()
+
 	result := ""
 	for {
 		if !nodeIterator.MoveNext() {
@@ -268,16 +269,14 @@ func (record *XmlRecord) getSubValue(
 	path []string,
 ) (interface{}, error) {
 	if currentConfig.Type == XmlInputPropertyTypeArray {
-		nodes := xmlquery.QuerySelectorAll(node, currentConfig.CompiledXPath)
+		nodes := currentConfig.selectAll(node)
 		return record.getSubArrayValue(nodes, currentConfig, path)
 	} else if currentConfig.Type == XmlInputPropertyTypeObject {
-		nodes := xmlquery.QuerySelectorAll(node, currentConfig.CompiledXPath)
+		nodes := currentConfig.selectAll(node)
 		return record.getSubObjectValue(nodes, currentConfig, path)
 	}
 
-	result := currentConfig.CompiledXPath.Evaluate(
-		xmlquery.CreateXPathNavigator(node),
-	)
+	result := currentConfig.evaluate(node)
 
 	// From here, we only have to handle the primitive types returned by the xpath
 
-- 
2.43.0


From 40a946a00719b203e525a26251ba26e4831c6941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:58 +0000
Subject: [PATCH 18/32] fix: check the configured properties and collations of
 an existing sqlite index

---
 pkg/index/sqlite.go | 39 ++++++++++++++++++++++++++++++++++++++-
 1 file changed, 38 insertions(+), 1 deletion(-)

diff --git a/pkg/index/sqlite.go b/pkg/index/sqlite.go
index a4ee434..33993c7 100644
--- a/pkg/index/sqlite.go
+++ b/pkg/index/sqlite.go
@@ -53,6 +53,10 @@ func NewSqlite(
 		if err := metadata.AssertValid(sqlite.input); err != nil {
 			return nil, err
 		}
+
+		if err := sqlite.assertPropertiesAreIndexed(); err != nil {
+			return nil, err
+		}
 	} else {
 		if err := sqlite.createIndex(); err != nil {
 			return nil, fmt.Errorf("Error while creating the index: %w", err)
@@ -197,10 +201,42 @@ func (sqlite *Sqlite) createIndex() error {
 	return nil
 }
 
+// Sqlite handles the unknown quoted identifiers as strings rather
+// than triggering an error, so the columns must be checked explicitly
+func (sqlite *Sqlite) assertPropertiesAreIndexed() error {
+	for _, property := range sqlite.config.Properties {
+		row := sqlite.db.QueryRow(
+			`SELECT COUNT(1) FROM pragma_table_info(?) WHERE "name" = ?;`,
+			fmt.Sprintf("rodb_%v_index", sqlite.config.Name),
+			fmt.Sprintf("property_%v", property.Name),
+		)
+
+		var count int64
+		if err := row.Scan(&count); err != nil {
+			return err
+		}
+		if count == 0 {
+			return fmt.Errorf("The configured property '%v' does not match the index file contents.", property.Name)
+		}
+	}
+
+	return nil
+}
+
 func (sqlite *Sqlite) getPropertyIdentifier(propertyName string) (string, error) {
 	return sqlitePackage.SanitizeIdentifier(sqlite.db, fmt.Sprintf("property_%v", propertyName))
 }
 
+func (sqlite *Sqlite) getPropertyCollate(propertyName string) string {
+	for _, property := range sqlite.config.Properties {
+		if property.Name == propertyName && property.Collate != "" {
+			return " COLLATE " + property.Collate
+		}
+	}
+
+	return ""
+}
+
 func (sqlite *Sqlite) getIndexIdentifier(propertyName string) (string, error) {
 	return sqlitePackage.SanitizeIdentifier(
 		sqlite.db,
@@ -241,7 +277,8 @@ func (sqlite *Sqlite) GetRecordPositions(
 			return nil, err
 		}
 
-		clauses = append(clauses, columnIdentifier+" = ?")
+		// The configured collation can be different from the one used to create the index file
+		clauses = append(clauses, columnIdentifier+sqlite.getPropertyCollate(propertyName)+" = ?")
 		values = append(values, filter)
 	}
 
-- 
2.43.0


From 9524db376e142f89d3d59b68aec8ad4f71b5b69c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:20 +0000
Subject: [PATCH 19/32] fix: avoid conflicts between the sqlite indexes sharing
 a database

---
 pkg/index/sqlite.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pkg/index/sqlite.go b/pkg/index/sqlite.go
index 33993c7..63ad78d 100644
--- a/pkg/index/sqlite.go
+++ b/pkg/index/sqlite.go
@@ -105,7 +105,7 @@ func (sqlite *Sqlite) createIndex() error {
 		if err != nil {
 			return err
 		}
-		indexIdentifier, err := sqlite.getIndexIdentifier(property.Name)
+		indexIdentifier, err := sqlite.getIndexIdentifier(propertyIndex)
 		if err != nil {
 			return err
 		}
@@ -237,10 +237,12 @@ func (sqlite *Sqlite) getPropertyCollate(propertyName string) string {
 	return ""
 }
 
-func (sqlite *Sqlite) getIndexIdentifier(propertyName string) (string, error) {
+// The name must be unique in the whole database, which can contain several indexes.
+// Using the property name would be ambiguous ("a" + "b_c" and "a_b" + "c").
+func (sqlite *Sqlite) getIndexIdentifier(propertyIndex int) (string, error) {
 	return sqlitePackage.SanitizeIdentifier(
 		sqlite.db,
-		fmt.Sprintf("index_%v_%v", sqlite.config.Name, propertyName),
+		fmt.Sprintf("rodb_%v_index_%v", sqlite.config.Name, propertyIndex),
 	)
 }
 
-- 
2.43.0


From b52f78349a8f56bb610b5acde905bd5f63487d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:02 +0000
Subject: [PATCH 20/32] fix: refuse the split parsers which are using
 themselves

---
 pkg/parser/split_config.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/pkg/parser/split_config.go b/pkg/parser/split_config.go
index 9b95813..e2aaaaa 100644
--- a/pkg/parser/split_config.go
+++ b/pkg/parser/split_config.go
@@ -57,11 +57,26 @@ func (config *SplitConfig) Validate(parsers map[string]Config, log *logrus.Entry
 		}
 	}
 
-	_, parserExists := parsers[config.Parser]
+	parser, parserExists := parsers[config.Parser]
 	if !parserExists {
 		return fmt.Errorf("Parser '%v' not found in parsers list.", config.Parser)
 	}
 
+	// Parsing would never end if the parser was using itself
+	alreadyUsedParsers := map[string]bool{config.Name: true}
+	for parserExists && parser != nil {
+		if alreadyUsedParsers[parser.GetName()] {
+			return fmt.Errorf("split.parser: The parser '%v' is indirectly using itself.", parser.GetName())
+		}
+		alreadyUsedParsers[parser.GetName()] = true
+
+		splitConfig, isSplit := parser.(*SplitConfig)
+		if !isSplit {
+			break
+		}
+		parser, parserExists = parsers[splitConfig.Parser]
+	}
+
 	return nil
 }
 
-- 
2.43.0


From 2bdcdcb8434897ca87fd21413c2968d735725a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:29 +0000
Subject: [PATCH 21/32] fix: apply all the filters given on the same property
 of an index

---
 pkg/output/json_array.go  |  2 +-
 pkg/output/json_common.go | 49 ++++++++++++++++++++++++++++++++++-----
 pkg/output/json_object.go |  2 +-
 3 files changed, 45 insertions(+), 8 deletions(-)

diff --git a/pkg/output/json_array.go b/pkg/output/json_array.go
index 39208c1..7d3af6a 100644
--- a/pkg/output/json_array.go
+++ b/pkg/output/json_array.go
@@ -202,7 +202,7 @@ func (jsonArray *JsonArray) getFiltersPerIndex(params map[string]string) (map[st
 			filtersPerIndex[paramConfig.Index] = indexFilters
 		}
 
-		indexFilters[paramConfig.Property] = parsedParamValue
+		addFilter(indexFilters, paramConfig.Property, parsedParamValue)
 	}
 
 	return filtersPerIndex, nil
diff --git a/pkg/output/json_common.go b/pkg/output/json_common.go
index c787548..e645d38 100644
--- a/pkg/output/json_common.go
+++ b/pkg/output/json_common.go
@@ -46,12 +46,47 @@ func getRelationshipFiltersPerIndex(
 			filtersPerIndex[match.ChildIndex] = indexFilters
 		}
 
-		indexFilters[match.ChildProperty] = matchData
+		addFilter(indexFilters, match.ChildProperty, matchData)
 	}
 
 	return filtersPerIndex, nil
 }
 
+// The values of a property which must match several filters at the same time
+type multipleFilters []interface{}
+
+// Adds a filter without replacing the one which may already exist on this property
+func addFilter(filters map[string]interface{}, property string, value interface{}) {
+	existing, exists := filters[property]
+	if !exists {
+		filters[property] = value
+	} else if multiple, isMultiple := existing.(multipleFilters); isMultiple {
+		filters[property] = append(multiple, value)
+	} else {
+		filters[property] = multipleFilters{existing, value}
+	}
+}
+
+// Splits the filters in several ones having a single value for each property
+func splitMultipleFilters(filters map[string]interface{}) []map[string]interface{} {
+	result := []map[string]interface{}{{}}
+	for property, value := range filters {
+		multiple, isMultiple := value.(multipleFilters)
+		if !isMultiple {
+			multiple = multipleFilters{value}
+		}
+
+		for i, value := range multiple {
+			if i >= len(result) {
+				result = append(result, map[string]interface{}{})
+			}
+			result[i][property] = value
+		}
+	}
+
+	return result
+}
+
 func getFilteredRecordPositionsPerIndex(
 	defaultIndex indexPackage.Index,
 	indexes indexPackage.List,
@@ -77,12 +112,14 @@ func getFilteredRecordPositionsPerIndex(
 			return nil, fmt.Errorf("Index '%v' not found in indexes list.", indexName)
 		}
 
-		iteratorForThisIndex, err := index.GetRecordPositions(input, filters)
-		if err != nil {
-			return nil, err
-		}
+		for _, filters := range splitMultipleFilters(filters) {
+			iteratorForThisIndex, err := index.GetRecordPositions(input, filters)
+			if err != nil {
+				return nil, err
+			}
 
-		iterators = append(iterators, iteratorForThisIndex)
+			iterators = append(iterators, iteratorForThisIndex)
+		}
 	}
 
 	return iterators, nil
diff --git a/pkg/output/json_object.go b/pkg/output/json_object.go
index 059cb7a..f9097e0 100644
--- a/pkg/output/json_object.go
+++ b/pkg/output/json_object.go
@@ -139,7 +139,7 @@ func (jsonObject *JsonObject) getRouteFiltersPerIndex(params map[string]string)
 		if err != nil {
 			return nil, err
 		}
-		indexFilters[param.Property] = paramValue
+		addFilter(indexFilters, param.Property, paramValue)
 	}
 
 	return filtersPerIndex, nil
-- 
2.43.0


From 2d05fbd60a294d79e5ddfe8a14e69ec22bba7124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:27 +0000
Subject: [PATCH 22/32] fix: keep the other records sorted when some do not
 have the sorting property

---
 pkg/parser/parser.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index 622fabf..ee55a8c 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -70,7 +70,16 @@ func quoteCharacterClass(characters string) string {
 
 // Compares two values outputted by the parsers
 // returns nil if a = b, true if a < b, false if a > b
+// The missing values (nil) are considered lower than any other one
 func Compare(a interface{}, b interface{}) (*bool, error) {
+	if a == nil || b == nil {
+		if a == nil && b == nil {
+			return nil, nil
+		}
+		result := a == nil
+		return &result, nil
+	}
+
 	switch a.(type) {
 	case string:
 		aString := a.(string)
-- 
2.43.0


From 48876d8fe38b552e7c30e14e3cfdb311fb10b4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:33 +0000
Subject: [PATCH 23/32] fix: refuse the files which are not wildcard indexes
 instead of crashing

---
 pkg/index/wildcard/metadata.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pkg/index/wildcard/metadata.go b/pkg/index/wildcard/metadata.go
index c5596f4..9bf8f51 100644
--- a/pkg/index/wildcard/metadata.go
+++ b/pkg/index/wildcard/metadata.go
@@ -131,6 +131,9 @@ func (metadata *Metadata) Unserialize(data io.Reader) error {
 	if err := binary.Read(data, binary.BigEndian, &metadata.magicBytes); err != nil {
 		return err
 	}
+	if string(metadata.magicBytes) != ExpectedMagicBytes {
+		return fmt.Errorf("The given file is not a wildcard index.")
+	}
 
 	if err := binary.Read(data, binary.BigEndian, &metadata.version); err != nil {
 		return err
@@ -156,11 +159,14 @@ func (metadata *Metadata) Unserialize(data io.Reader) error {
 	if err := binary.Read(data, binary.BigEndian, &rootNodeOffsetCount); err != nil {
 		return err
 	}
-	metadata.rootNodeOffsets = make([]TreeNodeOffset, int(rootNodeOffsetCount))
+	// The count cannot be trusted until the file is known to be an index
+	metadata.rootNodeOffsets = make([]TreeNodeOffset, 0)
 	for i := int64(0); i < rootNodeOffsetCount; i++ {
-		if err := binary.Read(data, binary.BigEndian, &metadata.rootNodeOffsets[i]); err != nil {
+		var offset TreeNodeOffset
+		if err := binary.Read(data, binary.BigEndian, &offset); err != nil {
 			return err
 		}
+		metadata.rootNodeOffsets = append(metadata.rootNodeOffsets, offset)
 	}
 
 	return nil
-- 
2.43.0


From ab0bbdee120faf67fa47e6ea95082037aa86fe82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:28 +0000
Subject: [PATCH 24/32] fix: do not keep a file open for each partially read
 input iterator

---
 pkg/input/csv.go  | 22 ++++++++++++++--------
 pkg/input/json.go | 10 +++++-----
 pkg/input/xml.go  | 12 +++++-------
 3 files changed, 24 insertions(+), 20 deletions(-)

diff --git a/pkg/input/csv.go b/pkg/input/csv.go
index c9673ba..4ddb32e 100644
--- a/pkg/input/csv.go
+++ b/pkg/input/csv.go
@@ -10,6 +10,7 @@ import (
 	"github.com/rodb-io/rodb/pkg/parser"
 	"github.com/rodb-io/rodb/pkg/util"
 	"io"
+	"math"
 	"os"
 	"sync"
 	"time"
@@ -162,6 +163,12 @@ func (csvInput *Csv) open() (io.ReadSeeker, *bufio.Reader, *csv.Reader, *os.File
 
 	reader := io.ReadSeeker(file)
 
+	readerBuffer, csvReader := csvInput.newReader(reader)
+
+	return reader, readerBuffer, csvReader, file, nil
+}
+
+func (csvInput *Csv) newReader(reader io.Reader) (*bufio.Reader, *csv.Reader) {
 	// Giving a buffer to the csv reader will prevent it from creating
 	// it's own buffer, since we need to control it when seeking
 	// the positions (this condition is managed by bufio's constructor)
@@ -172,20 +179,19 @@ func (csvInput *Csv) open() (io.ReadSeeker, *bufio.Reader, *csv.Reader, *os.File
 	csvReader.FieldsPerRecord = len(csvInput.config.Columns)
 	csvReader.ReuseRecord = false
 
-	return reader, readerBuffer, csvReader, file, nil
+	return readerBuffer, csvReader
 }
 
 func (csvInput *Csv) IterateAll() (record.Iterator, func() error, error) {
-	reader, readerBuffer, csvReader, file, err := csvInput.open()
-	if err != nil {
-		return nil, nil, err
-	}
+	// Sharing the file already opened, because an iterator
+	// which is not read up to the end does not get closed
+	reader := io.NewSectionReader(csvInput.csvFile, 0, math.MaxInt64)
+	readerBuffer, csvReader := csvInput.newReader(reader)
 
 	if csvInput.config.IgnoreFirstRow {
 		// The number of columns of an ignored row (which may not exist) does not matter
-		_, err = csvReader.Read()
+		_, err := csvReader.Read()
 		if err != nil && err != io.EOF && !errors.Is(err, csv.ErrFieldCount) {
-			_ = file.Close()
 			return nil, nil, err
 		}
 	}
@@ -216,7 +222,7 @@ func (csvInput *Csv) IterateAll() (record.Iterator, func() error, error) {
 	}
 
 	end := func() error {
-		return file.Close()
+		return nil
 	}
 
 	return iterator, end, nil
diff --git a/pkg/input/json.go b/pkg/input/json.go
index e3c2936..f91bbd6 100644
--- a/pkg/input/json.go
+++ b/pkg/input/json.go
@@ -8,6 +8,7 @@ import (
 	"github.com/rodb-io/rodb/pkg/input/record"
 	"github.com/rodb-io/rodb/pkg/util"
 	"io"
+	"math"
 	"os"
 	"sync"
 	"time"
@@ -122,10 +123,9 @@ func (jsonInput *Json) open() (io.ReadSeeker, *os.File, error) {
 }
 
 func (jsonInput *Json) IterateAll() (record.Iterator, func() error, error) {
-	reader, file, err := jsonInput.open()
-	if err != nil {
-		return nil, nil, err
-	}
+	// Sharing the file already opened, because an iterator
+	// which is not read up to the end does not get closed
+	reader := io.NewSectionReader(jsonInput.jsonFile, 0, math.MaxInt64)
 
 	// Creating a new decoder each time because we cannot reset
 	// it's internal state when seeking otherwise
@@ -153,7 +153,7 @@ func (jsonInput *Json) IterateAll() (record.Iterator, func() error, error) {
 	}
 
 	end := func() error {
-		return file.Close()
+		return nil
 	}
 
 	return iterator, end, nil
diff --git a/pkg/input/xml.go b/pkg/input/xml.go
index 284b0cd..509fcad 100644
--- a/pkg/input/xml.go
+++ b/pkg/input/xml.go
@@ -10,6 +10,7 @@ import (
 	"github.com/rodb-io/rodb/pkg/parser"
 	"github.com/rodb-io/rodb/pkg/util"
 	"io"
+	"math"
 	"os"
 	"sort"
 	"strings"
@@ -225,12 +226,9 @@ func (xmlInput *Xml) IterateAll() (record.Iterator, func() error, error) {
 }
 
 func (xmlInput *Xml) iterateAll(onContextsRead func([]xmlContext)) (record.Iterator, func() error, error) {
-	file, err := os.Open(xmlInput.config.Path)
-	if err != nil {
-		return nil, nil, err
-	}
-
-	reader := io.ReadSeeker(file)
+	// Sharing the file already opened, because an iterator
+	// which is not read up to the end does not get closed
+	reader := io.NewSectionReader(xmlInput.xmlFile, 0, math.MaxInt64)
 	readerBuffer := bufio.NewReader(reader)
 
 	xmlParser, err := xmlInput.newParser(xmlSingleByteReader{reader: readerBuffer})
@@ -277,7 +275,7 @@ func (xmlInput *Xml) iterateAll(onContextsRead func([]xmlContext)) (record.Itera
 	}
 
 	end := func() error {
-		return file.Close()
+		return nil
 	}
 
 	return iterator, end, nil
-- 
2.43.0


From ff68e08562094ab3596868a1dd3d9cb73f112dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:45 +0000
Subject: [PATCH 25/32] fix: end immediately when there is no service to wait
 for

---
 cmd/main.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmd/main.go b/cmd/main.go
index 5cb00c8..157478f 100644
--- a/cmd/main.go
+++ b/cmd/main.go
@@ -121,5 +121,7 @@ func main() {
 
 	// The services stop listening as soon as the shutdown begins,
 	// but the requests that are still being handled must finish
-	<-closed
+	if len(services) > 0 {
+		<-closed
+	}
 }
-- 
2.43.0


From 30d40bb12a1919b8c5d502603fffde2a5fcf7cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:11 +0000
Subject: [PATCH 26/32] fix: refuse to start with an invalid https certificate

---
 pkg/service/http.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/pkg/service/http.go b/pkg/service/http.go
index a884e18..b0a1950 100644
--- a/pkg/service/http.go
+++ b/pkg/service/http.go
@@ -2,6 +2,7 @@ package service
 
 import (
 	"context"
+	"crypto/tls"
 	"encoding/json"
 	"errors"
 	"fmt"
@@ -89,19 +90,21 @@ func NewHttp(
 		}()
 	}
 	if config.Https != nil {
+		certificate, err := tls.LoadX509KeyPair(config.Https.CertificatePath, config.Https.PrivateKeyPath)
+		if err != nil {
+			return nil, fmt.Errorf("Cannot load the https certificate: %w", err)
+		}
+
 		service.httpsListener, service.httpsServer, err = service.createServer(config.Https.Listen)
 		if err != nil {
 			return nil, err
 		}
+		service.httpsServer.TLSConfig = &tls.Config{Certificates: []tls.Certificate{certificate}}
 
 		service.waitGroup.Add(1)
 		go func() {
 			defer service.waitGroup.Done()
-			service.lastHttpsError = service.httpsServer.ServeTLS(
-				service.httpsListener,
-				config.Https.CertificatePath,
-				config.Https.PrivateKeyPath,
-			)
+			service.lastHttpsError = service.httpsServer.ServeTLS(service.httpsListener, "", "")
 		}()
 	}
 
-- 
2.43.0


From e368339aff7139e3e287eb8dc999c586e6e8ddfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:14 +0000
Subject: [PATCH 27/32] fix: end when any of the services cannot work anymore

---
 pkg/service/http.go    | 78 ++++++++++++++++++++++++++----------------
 pkg/service/service.go | 15 ++++++--
 2 files changed, 61 insertions(+), 32 deletions(-)

diff --git a/pkg/service/http.go b/pkg/service/http.go
index b0a1950..99902d6 100644
--- a/pkg/service/http.go
+++ b/pkg/service/http.go
@@ -21,15 +21,16 @@ import (
 )
 
 type Http struct {
-	config         *HttpConfig
-	httpListener   net.Listener
-	httpsListener  net.Listener
-	httpServer     *http.Server
-	httpsServer    *http.Server
-	waitGroup      *sync.WaitGroup
-	routes         []*httpRoute
-	lastHttpError  error
-	lastHttpsError error
+	config        *HttpConfig
+	httpListener  net.Listener
+	httpsListener net.Listener
+	httpServer    *http.Server
+	httpsServer   *http.Server
+	waitGroup     *sync.WaitGroup
+	routes        []*httpRoute
+	lost          chan struct{}
+	lostOnce      sync.Once
+	lostError     error
 }
 
 type httpRoute struct {
@@ -44,10 +45,9 @@ func NewHttp(
 	outputs map[string]output.Output,
 ) (*Http, error) {
 	service := &Http{
-		config:         config,
-		waitGroup:      &sync.WaitGroup{},
-		lastHttpError:  nil,
-		lastHttpsError: nil,
+		config:    config,
+		waitGroup: &sync.WaitGroup{},
+		lost:      make(chan struct{}),
 	}
 
 	service.routes = make([]*httpRoute, 0, len(config.Routes))
@@ -83,11 +83,9 @@ func NewHttp(
 			return nil, err
 		}
 
-		service.waitGroup.Add(1)
-		go func() {
-			defer service.waitGroup.Done()
-			service.lastHttpError = service.httpServer.Serve(service.httpListener)
-		}()
+		service.serve(func() error {
+			return service.httpServer.Serve(service.httpListener)
+		})
 	}
 	if config.Https != nil {
 		certificate, err := tls.LoadX509KeyPair(config.Https.CertificatePath, config.Https.PrivateKeyPath)
@@ -101,11 +99,9 @@ func NewHttp(
 		}
 		service.httpsServer.TLSConfig = &tls.Config{Certificates: []tls.Certificate{certificate}}
 
-		service.waitGroup.Add(1)
-		go func() {
-			defer service.waitGroup.Done()
-			service.lastHttpsError = service.httpsServer.ServeTLS(service.httpsListener, "", "")
-		}()
+		service.serve(func() error {
+			return service.httpsServer.ServeTLS(service.httpsListener, "", "")
+		})
 	}
 
 	return service, nil
@@ -125,6 +121,19 @@ func (service *Http) createServer(listen string) (net.Listener, *http.Server, er
 	return listener, server, nil
 }
 
+func (service *Http) serve(listenAndServe func() error) {
+	service.waitGroup.Add(1)
+	go func() {
+		defer service.waitGroup.Done()
+		if err := listenAndServe(); err != http.ErrServerClosed {
+			service.lostOnce.Do(func() {
+				service.lostError = err
+				close(service.lost)
+			})
+		}
+	}()
+}
+
 func (service *Http) Name() string {
 	return service.config.Name
 }
@@ -301,16 +310,25 @@ func (service *Http) getPayload(route *httpRoute, body io.Reader) ([]byte, error
 	return make([]byte, 0), nil
 }
 
+// Waits until the service is closed or cannot work anymore
 func (service *Http) Wait() error {
-	service.waitGroup.Wait()
-	if service.config.Http != nil && service.lastHttpError != http.ErrServerClosed {
-		return service.lastHttpError
-	}
-	if service.config.Https != nil && service.lastHttpsError != http.ErrServerClosed {
-		return service.lastHttpsError
+	closed := make(chan struct{})
+	go func() {
+		defer close(closed)
+		service.waitGroup.Wait()
+	}()
+
+	select {
+	case <-service.lost:
+	case <-closed:
 	}
 
-	return nil
+	select {
+	case <-service.lost:
+		return service.lostError
+	default:
+		return nil
+	}
 }
 
 func (service *Http) Close() error {
diff --git a/pkg/service/service.go b/pkg/service/service.go
index bade741..c53b74c 100644
--- a/pkg/service/service.go
+++ b/pkg/service/service.go
@@ -52,9 +52,20 @@ func NewFromConfigs(
 }
 
 func Wait(services List) error {
+	errors := make(chan error, len(services))
 	for serviceName, service := range services {
-		if err := service.Wait(); err != nil {
-			return fmt.Errorf("%v service: %w", serviceName, err)
+		go func(serviceName string, service Service) {
+			err := service.Wait()
+			if err != nil {
+				err = fmt.Errorf("%v service: %w", serviceName, err)
+			}
+			errors <- err
+		}(serviceName, service)
+	}
+
+	for range services {
+		if err := <-errors; err != nil {
+			return err
 		}
 	}
 
-- 
2.43.0


From a5818bd8f18bb81e595c168f0a0e9d372ff7b2a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:06 +0000
Subject: [PATCH 28/32] fix: report the xpath expressions which cannot be
 evaluated instead of crashing

---
 pkg/input/xml.go        |  9 +++++++--
 pkg/input/xml_config.go | 17 +++++++++++++----
 pkg/input/xml_record.go | 33 ++++++++++++++++++++++++++-------
 3 files changed, 46 insertions(+), 13 deletions(-)

diff --git a/pkg/input/xml.go b/pkg/input/xml.go
index 509fcad..363cc95 100644
--- a/pkg/input/xml.go
+++ b/pkg/input/xml.go
@@ -123,6 +123,11 @@ func (xmlInput *Xml) newParser(reader io.Reader) (*xmlquery.StreamParser, error)
 	)
 }
 
+func readXmlNode(xmlParser *xmlquery.StreamParser) (node *xmlquery.Node, err error) {
+	defer recoverXPathError(&err)
+	return xmlParser.Read()
+}
+
 // Returns the tags which are open just before the given position
 func (xmlInput *Xml) getOpenTags(position record.Position) (string, error) {
 	xmlInput.contextsLock.Lock()
@@ -189,7 +194,7 @@ func (xmlInput *Xml) Get(position record.Position) (record.Record, error) {
 		return nil, err
 	}
 
-	node, err := xmlParser.Read()
+	node, err := readXmlNode(xmlParser)
 	if err == io.EOF {
 		return nil, fmt.Errorf("Did not find an XML record at position %v", position)
 	} else if err != nil {
@@ -253,7 +258,7 @@ func (xmlInput *Xml) iterateAll(onContextsRead func([]xmlContext)) (record.Itera
 			contexts = append(contexts, xmlContext{position: position, openTags: openTags})
 		}
 
-		node, err := xmlParser.Read()
+		node, err := readXmlNode(xmlParser)
 		if err == io.EOF {
 			onContextsRead(contexts)
 			return nil, nil
diff --git a/pkg/input/xml_config.go b/pkg/input/xml_config.go
index 1b1c3c7..78aeaf2 100644
--- a/pkg/input/xml_config.go
+++ b/pkg/input/xml_config.go
@@ -41,18 +41,27 @@ type XmlPropertyConfig struct {
 }
 
 // The compiled expressions are not safe for concurrent use
-func (config *XmlPropertyConfig) evaluate(node *xmlquery.Node) interface{} {
+func (config *XmlPropertyConfig) evaluate(node *xmlquery.Node) (result interface{}, err error) {
 	config.xpathLock.Lock()
 	defer config.xpathLock.Unlock()
+	defer recoverXPathError(&err)
 
-	return config.CompiledXPath.Evaluate(xmlquery.CreateXPathNavigator(node))
+	return config.CompiledXPath.Evaluate(xmlquery.CreateXPathNavigator(node)), nil
 }
 
-func (config *XmlPropertyConfig) selectAll(node *xmlquery.Node) []*xmlquery.Node {
+func (config *XmlPropertyConfig) selectAll(node *xmlquery.Node) (nodes []*xmlquery.Node, err error) {
 	config.xpathLock.Lock()
 	defer config.xpathLock.Unlock()
+	defer recoverXPathError(&err)
 
-	return xmlquery.QuerySelectorAll(node, config.CompiledXPath)
+	return xmlquery.QuerySelectorAll(node, config.CompiledXPath), nil
+}
+
+// The xpath package panics when an expression does not suit the data
+func recoverXPathError(err *error) {
+	if cause := recover(); cause != nil {
+		*err = fmt.Errorf("Cannot evaluate the xpath expression: %v", cause)
+	}
 }
 
 func (config *XmlConfig) GetName() string {
diff --git a/pkg/input/xml_record.go b/pkg/input/xml_record.go
index 505bd7f..4b53cfe 100644
--- a/pkg/input/xml_record.go
+++ b/pkg/input/xml_record.go
@@ -91,14 +91,23 @@ func (record *XmlRecord) getAllValues(
 	currentConfig *XmlPropertyConfig,
 ) (interface{}, error) {
 	if currentConfig.Type == XmlInputPropertyTypeArray {
-		nodes := currentConfig.selectAll(node)
+		nodes, err := currentConfig.selectAll(node)
+		if err != nil {
+			return nil, record.xpathError(currentConfig, err.Error())
+		}
 		return record.nodeIteratorToArray(nodes, currentConfig)
 	} else if currentConfig.Type == XmlInputPropertyTypeObject {
-		nodes := currentConfig.selectAll(node)
+		nodes, err := currentConfig.selectAll(node)
+		if err != nil {
+			return nil, record.xpathError(currentConfig, err.Error())
+		}
 		return record.nodeIteratorToObject(nodes, currentConfig)
 	}
 
-	result := currentConfig.evaluate(node)
+	result, err := currentConfig.evaluate(node)
+	if err != nil {
+		return nil, record.xpathError(currentConfig, err.Error())
+	}
 
 	if currentConfig.Type != XmlInputPropertyTypePrimitive {
 		return nil, record.xpathError(currentConfig, fmt.Sprintf("got a primitive value, but the property does not have a primitive type"))
@@ -123,7 +132,7 @@ func (record *XmlRecord) getAllValues(
 
 // Converts a node iterator result into a string containing the raw XmlRecord,
 // to facilitate debugging and setting-up the configuration
-func (record *XmlRecord) handleNodeIteratorValue(config *XmlPropertyConfig, nodeIterator *xpath.NodeIterator) (interface{}, error) {
+func (record *XmlRecord) handleNodeIteratorValue(config *XmlPropertyConfig, nodeIterator *xpath.NodeIterator) (value interface{}, err error) {
 	parser, parserExists := record.parsers[config.Parser]
 	if !parserExists {
 		return nil, fmt.Errorf("The parser '%v' was not found.", config.Parser)
@@ -135,6 +144,7 @@ func (record *XmlRecord) handleNodeIteratorValue(config *XmlPropertyConfig, node
 
 	config.xpathLock.Lock()
 	defer config.xpathLock.Unlock()
+	defer recoverXPathError(&err)
 
 	result := ""
 	for {
@@ -269,14 +279,23 @@ func (record *XmlRecord) getSubValue(
 	path []string,
 ) (interface{}, error) {
 	if currentConfig.Type == XmlInputPropertyTypeArray {
-		nodes := currentConfig.selectAll(node)
+		nodes, err := currentConfig.selectAll(node)
+		if err != nil {
+			return nil, record.xpathError(currentConfig, err.Error())
+		}
 		return record.getSubArrayValue(nodes, currentConfig, path)
 	} else if currentConfig.Type == XmlInputPropertyTypeObject {
-		nodes := currentConfig.selectAll(node)
+		nodes, err := currentConfig.selectAll(node)
+		if err != nil {
+			return nil, record.xpathError(currentConfig, err.Error())
+		}
 		return record.getSubObjectValue(nodes, currentConfig, path)
 	}
 
-	result := currentConfig.evaluate(node)
+	result, err := currentConfig.evaluate(node)
+	if err != nil {
+		return nil, record.xpathError(currentConfig, err.Error())
+	}
 
 	// From here, we only have to handle the primitive types returned by the xpath
 
-- 
2.43.0


From 2a15edd9f7569ace36538e708ffafaec1182bda0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:30 +0000
Subject: [PATCH 29/32] fix: refuse the numeric xpath results which are not
 integers

---
 pkg/input/xml_record.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/input/xml_record.go b/pkg/input/xml_record.go
index 4b53cfe..76b4df1 100644
--- a/pkg/input/xml_record.go
+++ b/pkg/input/xml_record.go
@@ -6,6 +6,7 @@ import (
 	"github.com/antchfx/xpath"
 	recordPackage "github.com/rodb-io/rodb/pkg/input/record"
 	parserPackage "github.com/rodb-io/rodb/pkg/parser"
+	"math"
 	"strconv"
 	"strings"
 )
@@ -202,6 +203,9 @@ func (record *XmlRecord) handleNumericValue(config *XmlPropertyConfig, value flo
 	if _, isFloatParser := parser.(*parserPackage.Float); isFloatParser {
 		return value, nil
 	} else if _, isIntegerParser := parser.(*parserPackage.Integer); isIntegerParser {
+		if math.IsNaN(value) || value < math.MinInt64 || value >= math.MaxInt64 {
+			return nil, record.xpathError(config, fmt.Sprintf("got the value '%v', which is not an integer", value))
+		}
 		return int64(value), nil
 	} else {
 		return nil, record.xpathError(config, fmt.Sprintf("got a numeric value, but the property does not have a numeric parser"))
-- 
2.43.0


From b2ace149b7da1a85ab565b72fa5f0398518d903d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:34 +0000
Subject: [PATCH 30/32] fix: report the empty items of the configuration
 instead of crashing

---
 pkg/config/config.go              | 25 ++++++++++++++++++++-----
 pkg/index/sqlite_config.go        |  4 ++++
 pkg/input/csv_config.go           |  4 ++++
 pkg/input/record/sort_config.go   |  5 +++++
 pkg/input/xml_config.go           |  4 ++++
 pkg/output/parameter/config.go    |  4 ++++
 pkg/output/relationship/config.go |  9 +++++++++
 pkg/service/http_config.go        |  4 ++++
 8 files changed, 54 insertions(+), 5 deletions(-)

diff --git a/pkg/config/config.go b/pkg/config/config.go
index 6d79d5e..149a176 100644
--- a/pkg/config/config.go
+++ b/pkg/config/config.go
@@ -65,35 +65,50 @@ func NewConfigFromParsedConfig(parsedConfig *configParser) (*Config, error) {
 		Outputs:  map[string]output.Config{},
 	}
 
-	for _, parser := range parsedConfig.Parsers {
+	for parserIndex, parser := range parsedConfig.Parsers {
+		if parser.parser == nil {
+			return nil, fmt.Errorf("parsers[%v] is empty.", parserIndex)
+		}
 		name := parser.parser.GetName()
 		if _, exists := config.Parsers[name]; exists {
 			return nil, fmt.Errorf("Duplicate name '%v' for parser.", name)
 		}
 		config.Parsers[name] = parser.parser
 	}
-	for _, input := range parsedConfig.Inputs {
+	for inputIndex, input := range parsedConfig.Inputs {
+		if input.input == nil {
+			return nil, fmt.Errorf("inputs[%v] is empty.", inputIndex)
+		}
 		name := input.input.GetName()
 		if _, exists := config.Inputs[name]; exists {
 			return nil, fmt.Errorf("Duplicate name '%v' for input.", name)
 		}
 		config.Inputs[name] = input.input
 	}
-	for _, index := range parsedConfig.Indexes {
+	for indexIndex, index := range parsedConfig.Indexes {
+		if index.index == nil {
+			return nil, fmt.Errorf("indexes[%v] is empty.", indexIndex)
+		}
 		name := index.index.GetName()
 		if _, exists := config.Indexes[name]; exists {
 			return nil, fmt.Errorf("Duplicate name '%v' for index.", name)
 		}
 		config.Indexes[name] = index.index
 	}
-	for _, service := range parsedConfig.Services {
+	for serviceIndex, service := range parsedConfig.Services {
+		if service.service == nil {
+			return nil, fmt.Errorf("services[%v] is empty.", serviceIndex)
+		}
 		name := service.service.GetName()
 		if _, exists := config.Services[name]; exists {
 			return nil, fmt.Errorf("Duplicate name '%v' for service.", name)
 		}
 		config.Services[name] = service.service
 	}
-	for _, output := range parsedConfig.Outputs {
+	for outputIndex, output := range parsedConfig.Outputs {
+		if output.output == nil {
+			return nil, fmt.Errorf("outputs[%v] is empty.", outputIndex)
+		}
 		name := output.output.GetName()
 		if _, exists := config.Outputs[name]; exists {
 			return nil, fmt.Errorf("Duplicate name '%v' for output.", name)
diff --git a/pkg/index/sqlite_config.go b/pkg/index/sqlite_config.go
index 1990465..88ee72f 100644
--- a/pkg/index/sqlite_config.go
+++ b/pkg/index/sqlite_config.go
@@ -81,6 +81,10 @@ func (config *SqliteConfig) DoesHandleInput(input input.Config) bool {
 }
 
 func (config *SqlitePropertyConfig) Validate(log *logrus.Entry, logPrefix string) error {
+	if config == nil {
+		return errors.New("this setting is empty")
+	}
+
 	if config.Name == "" {
 		return errors.New("name is required")
 	}
diff --git a/pkg/input/csv_config.go b/pkg/input/csv_config.go
index 87586f1..b80c4f9 100644
--- a/pkg/input/csv_config.go
+++ b/pkg/input/csv_config.go
@@ -101,6 +101,10 @@ func (config *CsvConfig) Validate(parsers map[string]parser.Config, log *logrus.
 }
 
 func (config *CsvColumnConfig) Validate(parsers map[string]parser.Config, log *logrus.Entry, logPrefix string) error {
+	if config == nil {
+		return errors.New("this setting is empty")
+	}
+
 	if config.Name == "" {
 		return errors.New("name is required")
 	}
diff --git a/pkg/input/record/sort_config.go b/pkg/input/record/sort_config.go
index 30ee23b..1ac7034 100644
--- a/pkg/input/record/sort_config.go
+++ b/pkg/input/record/sort_config.go
@@ -1,6 +1,7 @@
 package record
 
 import (
+	"errors"
 	"github.com/sirupsen/logrus"
 )
 
@@ -18,6 +19,10 @@ func (config *SortConfig) Validate(
 	log *logrus.Entry,
 	logPrefix string,
 ) error {
+	if config == nil {
+		return errors.New("this setting is empty")
+	}
+
 	config.Logger = log
 
 	// Property will be validated at runtime, because some fields
diff --git a/pkg/input/xml_config.go b/pkg/input/xml_config.go
index 78aeaf2..248654d 100644
--- a/pkg/input/xml_config.go
+++ b/pkg/input/xml_config.go
@@ -126,6 +126,10 @@ func (config *XmlPropertyConfig) Validate(
 	log *logrus.Entry,
 	logPrefix string,
 ) error {
+	if config == nil {
+		return errors.New("this setting is empty")
+	}
+
 	if nameRequired && config.Name == "" {
 		return errors.New("name is required")
 	}
diff --git a/pkg/output/parameter/config.go b/pkg/output/parameter/config.go
index bb842a0..44c52f7 100644
--- a/pkg/output/parameter/config.go
+++ b/pkg/output/parameter/config.go
@@ -22,6 +22,10 @@ func (config *ParameterConfig) Validate(
 	logPrefix string,
 	input input.Config,
 ) error {
+	if config == nil {
+		return errors.New("this setting is empty")
+	}
+
 	if config.Property == "" {
 		return errors.New("property is empty")
 	}
diff --git a/pkg/output/relationship/config.go b/pkg/output/relationship/config.go
index b741f2c..561e3c4 100644
--- a/pkg/output/relationship/config.go
+++ b/pkg/output/relationship/config.go
@@ -1,6 +1,7 @@
 package relationship
 
 import (
+	"errors"
 	"fmt"
 	"github.com/rodb-io/rodb/pkg/index"
 	"github.com/rodb-io/rodb/pkg/input"
@@ -29,6 +30,10 @@ func (config *RelationshipConfig) Validate(
 	log *logrus.Entry,
 	logPrefix string,
 ) error {
+	if config == nil {
+		return errors.New("this setting is empty")
+	}
+
 	if config.Limit == 0 && config.IsArray {
 		log.Debug(logPrefix + "limit is not set. All relationships will be returned.")
 	}
@@ -91,6 +96,10 @@ func (config *RelationshipMatchConfig) Validate(
 	logPrefix string,
 	input input.Config,
 ) error {
+	if config == nil {
+		return errors.New("this setting is empty")
+	}
+
 	// The parentProperty and childProperty will be validated at runtime (must be validated against the input and not the index)
 
 	if config.ChildIndex == "" {
diff --git a/pkg/service/http_config.go b/pkg/service/http_config.go
index 671793c..5811ff7 100644
--- a/pkg/service/http_config.go
+++ b/pkg/service/http_config.go
@@ -132,6 +132,10 @@ func (config *HttpHttpsConfig) Validate(log *logrus.Entry) error {
 }
 
 func (config *HttpRouteConfig) Validate(outputs map[string]output.Config, log *logrus.Entry) error {
+	if config == nil {
+		return errors.New("this setting is empty")
+	}
+
 	if config.Output == "" {
 		return fmt.Errorf("output is empty. This field is required")
 	}
-- 
2.43.0


From a86903bfd3bb33a7eae681cfd79dedbb76ca0668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:38 +0000
Subject: [PATCH 31/32] fix: require the properties used by the relationships

---
 pkg/input/record/sort_config.go   | 4 ++++
 pkg/output/relationship/config.go | 7 +++++++
 2 files changed, 11 insertions(+)

diff --git a/pkg/input/record/sort_config.go b/pkg/input/record/sort_config.go
index 1ac7034..0b6e860 100644
--- a/pkg/input/record/sort_config.go
+++ b/pkg/input/record/sort_config.go
@@ -25,6 +25,10 @@ func (config *SortConfig) Validate(
 
 	config.Logger = log
 
+	if config.Property == "" {
+		return errors.New("property is empty. This field is required.")
+	}
+
 	// Property will be validated at runtime, because some fields
 	// cannot be checked before runtime (json parsing for example)
 
diff --git a/pkg/output/relationship/config.go b/pkg/output/relationship/config.go
index 561e3c4..28a98cc 100644
--- a/pkg/output/relationship/config.go
+++ b/pkg/output/relationship/config.go
@@ -100,6 +100,13 @@ func (config *RelationshipMatchConfig) Validate(
 		return errors.New("this setting is empty")
 	}
 
+	if config.ParentProperty == "" {
+		return errors.New("parentProperty is empty. This field is required.")
+	}
+	if config.ChildProperty == "" {
+		return errors.New("childProperty is empty. This field is required.")
+	}
+
 	// The parentProperty and childProperty will be validated at runtime (must be validated against the input and not the index)
 
 	if config.ChildIndex == "" {
-- 
2.43.0


From a7663f6aa485c38d676c621d43569e7151f88188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:36 +0000
Subject: [PATCH 32/32] fix: handle the interrupt signal as soon as requests
 can be received

---
 cmd/main.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cmd/main.go b/cmd/main.go
index 157478f..361fe74 100644
--- a/cmd/main.go
+++ b/cmd/main.go
@@ -93,6 +93,10 @@ func main() {
 		}
 	})()
 
+	// Any service can begin to receive requests as soon as it is created
+	signals := make(chan os.Signal, 1)
+	signal.Notify(signals, os.Interrupt, os.Kill)
+
 	services, err := service.NewFromConfigs(config.Services, outputs, log)
 	if err != nil {
 		log.Errorf("Error initializing services: %v", err)
@@ -103,8 +107,6 @@ func main() {
 	go (func() {
 		defer close(closed)
 
-		signals := make(chan os.Signal, 1)
-		signal.Notify(signals, os.Interrupt, os.Kill)
 		signal := <-signals
 		log.Printf("Received signal '%v'. Shutting down...", signal.String())
 
-- 
2.43.0

