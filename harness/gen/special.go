package gen

import (
	"math"
	"time"
)

// Specials lists values an implementation could treat specially: the empty, the
// neutral, the extreme and the look-alike ones of every kind.
func Specials() []Val {
	f := math.Float64bits
	v := []Val{
		Null(), Bool(false), Bool(true),
		Int(0), Int(1), Int(-1), Int(2), Int(10), Int(100), Int64(0), Int64(7), Int64(-7), Int64(math.MinInt64), Int64(math.MaxInt64), Int32(3), Int16(-3), Int8(-128),
		Uint8(0), Uint8(255), Uint16(1), Uint32(5), Uint(0), Uint(9), Uint64(1), Uint64(math.MaxUint64),
		F64(f(0)), F64(f(math.Copysign(0, -1))), F64(f(1)), F64(f(-2.5)), F64(f(math.NaN())), F64(f(math.Inf(1))), F64(f(math.Inf(-1))),
		F32(0), F32(1 << 31), F32(math.Float32bits(1)), F32(math.Float32bits(2)),
		Bytes(nil), Bytes([]byte{}), Bytes([]byte{0}), Bytes([]byte("a")), JSON(nil), JSON([]byte{}), JSON([]byte("null")), JSON([]byte("{}")), JSONString(""), JSONString("[]"), XML([]byte{}), XMLString("<a/>"), Geometry([]byte{}), Geometry([]byte{1}),
		CStr("", 0), CStr("", 63), CStr("a", 0), CStr("a", 8), CStr("a", 255),
		Time(time.Time{}), Time(time.Unix(0, 0).UTC()), Time(time.Date(2020, 2, 29, 23, 59, 59, 999999999, time.UTC)), Time(time.Date(2020, 1, 1, 0, 0, 0, 0, zones[2])), Time(time.Now()),
		Dur(0), Dur(1), Dur(-1), Dur(time.Second), Dur(-time.Second), Dur(24 * time.Hour), CustomVal(""), CustomVal("x"), CustomVal("\x00"), CustomVal("\x01"), CustomVal("\x02"), CustomVal("\x03"), CustomVal("\x04"), CustomVal("\x05"), CustomVal("\x06"), CustomVal("\x07"),
	}
	for _, s := range []string{"", " ", "a", "A", "b", "%", "_", "%a%", "0", "1", "-1", "NULL", "null", "true", "DEFAULT", "id", "*", "a'b", "\\", "\x00", "a\x00", "é", "e", "\xff", "2020-01-01", ".*", "()"} {
		v = append(v, Str(s))
	}
	return v
}

// SpecialTexts are names and statements an implementation could treat specially.
func SpecialTexts() []string {
	t := append([]string(nil), usual...)
	return append(t, " ", "\n", ";", "--", "-- x", "/* x */ SELECT 1", "  SELECT 1  ", "SELECT 1;", "SELECT 1;\n", "SELECT 1; SELECT 2", "BEGIN", "begin", "ROLLBACK", "START TRANSACTION", "COMMIT;", "commit",
		"SET autocommit=0", "SET TRANSACTION ISOLATION LEVEL SERIALIZABLE", "SELECT '?'", "SELECT ?, ?", "SELECT `a``b`", "SELECT \"a\"", "a b", "a`b", "``", "`", "'a'", "\"a\"", "schema.table.column", ".a", "a.", "@", "@id$1", "$", "$[*]", "%", "tab\tle",
		"A", "a", "É", "\xff", "\xc3", "\x00", "0", "SELECT", "select", "key", "PING", "xplugin", "sql", "mysqlx", "SET @id$5 = LAST_INSERT_ID()", "LAST_INSERT_ID()", "\r\n", "\ufeffSELECT 1", "SELECT 1\x00", "SELECT 1 -- \n", "\\", "\\0", "{}", ":a", "?a", "a?", "#")
}
