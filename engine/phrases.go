package main

import "strings"

// Phrases of the three dialects: one entry per production of the supported grammar and per way of
// writing it. The scenarios let symbolic variables range over these sets.

type dialectPhrases struct {
	types    []string // data types with their sizes
	clauses  []string // column constraints
	elements []string // table elements
	options  []string // table options (each can follow a closed table body)
	stmts    []string // whole statements
	inertCol []string // column clauses that the result does not represent
	refTail  []string // what may follow the referenced columns
	names    []string
	base     string // a plain type
}

func toks(s string) []string {
	f := strings.Fields(s)
	for i := range f {
		f[i] = plainName(strings.ReplaceAll(f[i], "␣", " "))
	}
	return f
}

var dialectNames = []string{"SQLite", "PostgreSQL", "MySQL"}

var refTails = [3][]string{
	{"", "ON DELETE SET NULL", "ON UPDATE SET DEFAULT", "ON DELETE CASCADE", "ON UPDATE RESTRICT", "ON DELETE NO ACTION",
		"MATCH FULL", "MATCH simple", "MATCH \"m\"", "DEFERRABLE", "NOT DEFERRABLE", "DEFERRABLE INITIALLY DEFERRED", "NOT DEFERRABLE INITIALLY IMMEDIATE",
		"ON DELETE CASCADE ON UPDATE NO ACTION", "MATCH PARTIAL NOT DEFERRABLE"},
	{"", "ON DELETE SET NULL", "ON UPDATE SET DEFAULT", "ON DELETE CASCADE", "ON UPDATE RESTRICT", "ON DELETE NO ACTION",
		"MATCH FULL", "MATCH SIMPLE", "MATCH PARTIAL", "ON DELETE CASCADE ON UPDATE NO ACTION", "MATCH FULL ON DELETE SET NULL"},
	{"", "ON DELETE SET NULL", "ON UPDATE SET DEFAULT", "ON DELETE CASCADE", "ON UPDATE RESTRICT", "ON DELETE NO ACTION",
		"MATCH FULL", "MATCH SIMPLE", "MATCH PARTIAL", "ON DELETE CASCADE ON UPDATE NO ACTION", "MATCH FULL ON DELETE SET NULL"},
}

var phrases = [3]dialectPhrases{
	{
		base:  "TEXT",
		types: []string{"TEXT", "NUMERIC", "INTEGER", "REAL", "NONE"},
		clauses: []string{"", "PRIMARY KEY", "PRIMARY KEY ASC", "PRIMARY KEY DESC ON CONFLICT REPLACE AUTOINCREMENT", "PRIMARY KEY AUTOINCREMENT",
			"NOT NULL", "NOT NULL ON CONFLICT ABORT", "UNIQUE", "UNIQUE ON CONFLICT IGNORE", "CHECK ( a > ( 1 , 2 ) )", "CHECK ( )",
			"DEFAULT 5", "DEFAULT -1.5e2", "DEFAULT 'x,y'", "DEFAULT NULL", "DEFAULT TRUE", "DEFAULT FALSE", "DEFAULT CURRENT_DATE", "DEFAULT current_timestamp",
			"DEFAULT ( f ( 1 ) , 'z' )", "COLLATE NOCASE", "COLLATE rtrim", "REFERENCES o", "REFERENCES o ( x )", "REFERENCES s . o ( \"x\" ) ON DELETE SET NULL",
			"REFERENCES `o` MATCH full NOT DEFERRABLE", "REFERENCES o ( x ) DEFERRABLE INITIALLY DEFERRED", "GENERATED ALWAYS AS ( a + 1 )",
			"GENERATED ALWAYS AS ( ( a ) , b ) STORED", "AS ( a ) VIRTUAL", "AS ( b )",
			"CONSTRAINT nm PRIMARY KEY", "CONSTRAINT nm NOT NULL", "CONSTRAINT \"n␣m\" UNIQUE", "CONSTRAINT autoincrement2 CHECK ( 1 )", "CONSTRAINT nm DEFAULT 1",
			"CONSTRAINT nm COLLATE BINARY", "CONSTRAINT nm REFERENCES o", "CONSTRAINT nm GENERATED ALWAYS AS ( 1 ) VIRTUAL", "CONSTRAINT `nm` AS ( 1 )"},
		elements: []string{"c INTEGER", "\"q␣c\" TEXT NOT NULL", "`b` REAL DEFAULT 1", "d NUMERIC UNIQUE CHECK ( d , ( e ) ) REFERENCES o ( x )",
			"e INTEGER CONSTRAINT pk PRIMARY KEY AUTOINCREMENT", "f NONE COLLATE BINARY GENERATED ALWAYS AS ( c )",
			"PRIMARY KEY ( c )", "PRIMARY KEY ( c , \"d␣e\" ) ON CONFLICT FAIL", "CONSTRAINT p PRIMARY KEY ( `c` )",
			"UNIQUE ( c )", "UNIQUE ( c , d ) ON CONFLICT ROLLBACK", "CONSTRAINT \"u␣1\" UNIQUE ( d )",
			"CHECK ( c > 0 )", "CONSTRAINT ck CHECK ( f ( c , ( d ) ) )",
			"FOREIGN KEY ( c ) REFERENCES o", "FOREIGN KEY ( c , d ) REFERENCES s . o ( x , \"y\" ) ON DELETE CASCADE", "CONSTRAINT fk FOREIGN KEY ( c ) REFERENCES `o` ( x ) MATCH FULL NOT DEFERRABLE INITIALLY DEFERRED"},
		options: []string{"", "WITHOUT ROWID", "STRICT", "WITHOUT ROWID , STRICT", "STRICT , WITHOUT ROWID"},
		stmts: []string{"CREATE TABLE t ( a TEXT ) ;", "CREATE TABLE IF NOT EXISTS s . t ( a INTEGER PRIMARY KEY AUTOINCREMENT , b TEXT , UNIQUE ( b ) ) STRICT ;", "CREATE TEMP TABLE \"t␣2\" ( `x` REAL NOT NULL , CHECK ( x ) ) WITHOUT ROWID ;",
			"CREATE TEMPORARY TABLE `s` . u ( c NONE DEFAULT 'x;y' REFERENCES t ( a ) ) ;",
			"CREATE VIEW v AS SELECT a , ( b ) FROM t ;", "CREATE TEMP VIEW v AS SELECT ';' ;", "CREATE INDEX i ON t ( a ) ;", "CREATE UNIQUE INDEX i ON t ( a , b ) ;", "CREATE VIRTUAL TABLE x USING f ( a ) ;",
			"CREATE TRIGGER g AFTER INSERT ON t BEGIN SELECT 1 ; UPDATE t SET a = 1 ; END ;", "CREATE TEMP TRIGGER g BEGIN DELETE FROM t ; END ;", "CREATE TRIGGER g AFTER INSERT ON t BEGIN SELECT CASE WHEN 1 THEN 2 ELSE CASE x WHEN 1 THEN 3 END END ; SELECT 3 ; END ;"},
		inertCol: []string{"ON CONFLICT ROLLBACK", "ON CONFLICT ABORT", "ON CONFLICT FAIL", "ON CONFLICT IGNORE", "ON CONFLICT REPLACE"},
	},
	{
		base: "INT",
		types: []string{"BIGINT", "INT8", "BIGSERIAL", "SERIAL8", "BIT", "BIT ( 3 )", "BIT VARYING", "BIT VARYING ( 12 )", "VARBIT", "VARBIT ( 4 )", "BOOLEAN", "BOOL", "BOX", "BYTEA", "CIDR", "CIRCLE", "DATE", "FLOAT8", "INET", "INTEGER", "INT", "INT4", "JSON", "JSONB", "LINE", "LSEG", "MACADDR", "MACADDR8", "MONEY",
			"CHARACTER", "CHARACTER ( 10 )", "CHARACTER VARYING", "CHARACTER VARYING ( 20 )", "CHAR", "CHAR ( 5 )", "VARCHAR", "VARCHAR ( 255 )", "NUMERIC", "NUMERIC ( 10 )", "NUMERIC ( 10 , 2 )", "DECIMAL", "DECIMAL ( 65 , 30 )", "DOUBLE PRECISION",
			"PATH", "PG_LSN", "PG_SNAPSHOT", "POINT", "POLYGON", "REAL", "FLOAT4", "SMALLINT", "INT2", "SMALLSERIAL", "SERIAL2", "SERIAL", "SERIAL4", "TEXT", "TIME", "TIME ( 3 )", "TIME WITH TIME ZONE", "TIME ( 3 ) WITHOUT TIME ZONE", "TIMETZ", "TIMESTAMP", "TIMESTAMP ( 6 ) WITH TIME ZONE", "TIMESTAMP WITHOUT TIME ZONE", "TIMESTAMPTZ", "TSQUERY", "TSVECTOR", "TXID_SNAPSHOT", "UUID", "XML"},
		clauses: []string{"", "PRIMARY KEY", "PRIMARY KEY INCLUDE ( x , y )", "PRIMARY KEY WITH ( f = 1 ) USING INDEX TABLESPACE sp", "NOT NULL", "NULL", "UNIQUE", "UNIQUE INCLUDE ( x ) WITH ( f ) USING INDEX TABLESPACE \"s␣p\"", "UNIQUE USING INDEX TABLESPACE sp",
			"CHECK ( a > ( 1 , 2 ) )", "CHECK ( ) NO INHERIT", "CHECK ( x ) NO INHERIT", "DEFAULT 5", "DEFAULT -1.5e2", "DEFAULT 'x,y'", "DEFAULT NULL", "DEFAULT TRUE", "DEFAULT false", "DEFAULT CURRENT_DATE", "DEFAULT current_timestamp", "DEFAULT ( f ( 1 ) , 'z' )",
			"REFERENCES o", "REFERENCES o ( x )", "REFERENCES s . o ( \"x\" ) ON DELETE SET NULL", "REFERENCES \"o\" MATCH FULL ON UPDATE NO ACTION",
			"GENERATED ALWAYS AS ( a + 1 ) STORED", "GENERATED ALWAYS AS IDENTITY", "GENERATED ALWAYS AS IDENTITY ( START WITH 1 )", "GENERATED BY DEFAULT AS IDENTITY", "GENERATED BY DEFAULT AS IDENTITY ( x ( y ) )", "AS ( a )", "AS ( a , ( b ) ) STORED", "AS ( a ) VIRTUAL",
			"CONSTRAINT nm PRIMARY KEY", "CONSTRAINT nm NOT NULL", "CONSTRAINT nm NULL", "CONSTRAINT \"n␣m\" UNIQUE", "CONSTRAINT auto_increment CHECK ( 1 )", "CONSTRAINT nm DEFAULT 1", "CONSTRAINT nm REFERENCES o", "CONSTRAINT nm GENERATED ALWAYS AS IDENTITY", "CONSTRAINT nm AS ( 1 )"},
		elements: []string{"c INT", "\"q␣c\" TEXT NOT NULL", "d NUMERIC ( 10 , 2 ) DEFAULT 1", "e CHARACTER VARYING ( 20 ) UNIQUE CHECK ( d , ( e ) ) REFERENCES o ( x )", "f INT CONSTRAINT pk PRIMARY KEY USING INDEX TABLESPACE sp", "g BIT VARYING GENERATED ALWAYS AS IDENTITY ( START 1 )", "h TIMESTAMP ( 3 ) WITH TIME ZONE NULL",
			"PRIMARY KEY ( c )", "PRIMARY KEY ( c , \"d␣e\" ) INCLUDE ( x ) WITH ( f = 1 )", "CONSTRAINT p PRIMARY KEY ( \"c\" ) USING INDEX TABLESPACE sp",
			"UNIQUE ( c )", "UNIQUE ( c , d ) WITH ( x )", "CONSTRAINT \"u␣1\" UNIQUE ( d )", "CHECK ( c > 0 )", "CHECK ( c ) NO INHERIT", "CONSTRAINT ck CHECK ( f ( c , ( d ) ) )",
			"EXCLUDE ( c WITH = )", "EXCLUDE USING gist ( c WITH && , ( d ) WITH = ) INCLUDE ( x ) WITH ( y ) USING INDEX TABLESPACE sp WHERE ( c > ( 0 ) )", "CONSTRAINT ex EXCLUDE USING gist ( c WITH = ) WHERE ( x )",
			"FOREIGN KEY ( c ) REFERENCES o", "FOREIGN KEY ( c , d ) REFERENCES s . o ( x , \"y\" ) ON DELETE CASCADE", "CONSTRAINT fk FOREIGN KEY ( c ) REFERENCES \"o\" ( x ) MATCH FULL ON UPDATE SET DEFAULT"},
		options: []string{"", "WITH ( f = ( 1 ) )", "WITHOUT OIDS", "TABLESPACE sp", "TABLESPACE \"s␣p\"", "INHERITS ( p , q )", "PARTITION BY RANGE ( a )", "PARTITION BY LIST ( a )", "PARTITION BY HASH ( f ( a ) )", "USING heap", "WITH ( x ) TABLESPACE sp", "INHERITS ( p ) , WITH ( x )", ", WITHOUT OIDS"},
		stmts: []string{"CREATE TABLE t ( a TEXT ) ;", "CREATE TABLE IF NOT EXISTS s . t ( a SERIAL PRIMARY KEY , b VARCHAR ( 10 ) , UNIQUE ( b ) ) WITH ( x ) ;", "CREATE TABLE \"t␣2\" ( \"x\" REAL NOT NULL , CHECK ( x ) ) ;", "CREATE TABLE \"s\" . u ( c INT DEFAULT 'x;y' REFERENCES t ( a ) , EXCLUDE ( c ) ) TABLESPACE sp ;",
			"CREATE VIEW v AS SELECT a , ( b ) FROM t ;", "CREATE INDEX i ON t ( a ) ;", "CREATE MATERIALIZED VIEW m AS SELECT ';' ;", "CREATE SEQUENCE q ;", "CREATE FUNCTION f ( ) BEGIN SELECT 1 ; UPDATE t SET a = 1 ; END ;", "CREATE FUNCTION f ( ) BEGIN ATOMIC SELECT CASE WHEN 1 THEN 2 END ; SELECT 3 ; END ;", "CREATE TRIGGER g AFTER INSERT ON t ;", "CREATE TYPE y AS ENUM ( 'a' ) ;", "CREATE SCHEMA s ;", "CREATE EXTENSION x ;", "CREATE DOMAIN d AS INT ;",
			"CREATE PROCEDURE p ;", "CREATE AGGREGATE p ;", "CREATE ROLE p ;", "CREATE USER p ;", "CREATE GROUP p ;", "CREATE TABLESPACE p ;", "CREATE DATABASE p ;", "CREATE LANGUAGE p ;", "CREATE FOREIGN TABLE p ;", "CREATE SERVER p ;", "CREATE CONVERSION p ;", "CREATE RULE p ;", "CREATE COLLATION p ;", "CREATE POLICY p ;", "CREATE OPERATOR p ;"},
		inertCol: []string{"INCLUDE ( x )", "INCLUDE ( x , y ) WITH ( a = b )", "WITH ( a , ( b ) )", "USING INDEX TABLESPACE sp", "WITH ( a ) USING INDEX TABLESPACE \"p\"", "INCLUDE ( x ) USING INDEX TABLESPACE sp"},
	},
	{
		base: "INT",
		types: []string{"SERIAL", "BOOL", "BOOLEAN", "INTEGER", "INTEGER ( 3 )", "INT", "INT ( 11 )", "SMALLINT", "SMALLINT ( 4 )", "TINYINT", "TINYINT ( 1 )", "MEDIUMINT", "MEDIUMINT ( 5 )", "BIGINT", "BIGINT ( 20 )", "DECIMAL", "DECIMAL ( 10 )", "DECIMAL ( 65 , 30 )", "NUMERIC", "NUMERIC ( 7 , 3 )", "FLOAT", "FLOAT ( 7 , 4 )", "DOUBLE", "DOUBLE ( 8 , 2 )", "REAL", "REAL ( 3 , 1 )", "BIT", "BIT ( 8 )",
			"DATE", "DATETIME", "DATETIME ( 6 )", "TIMESTAMP", "TIMESTAMP ( 3 )", "TIME", "TIME ( 2 )", "YEAR", "YEAR ( 4 )", "CHAR", "CHAR ( 5 )", "VARCHAR ( 255 )", "VARCHAR", "BINARY", "BINARY ( 16 )", "VARBINARY ( 32 )", "BLOB", "BLOB ( 100 )", "TEXT", "TEXT ( 200 )",
			"GEOMETRY", "POINT", "LINESTRING", "POLYGON", "MULTIPOINT", "MULTILINESTRING", "MULTIPOLYGON", "GEOMETRYCOLLECTION", "JSON"},
		clauses: []string{"", "PRIMARY KEY", "KEY", "UNIQUE", "UNIQUE KEY", "AUTO_INCREMENT", "NOT NULL", "NULL", "DEFAULT 5", "DEFAULT -1.5e2", "DEFAULT 'x,y'", "DEFAULT \"d␣q\"", "DEFAULT NULL", "DEFAULT TRUE", "DEFAULT false", "DEFAULT CURRENT_TIMESTAMP ON UPDATE CURRENT_TIMESTAMP", "DEFAULT current_date", "DEFAULT ( f ( 1 ) , 'z' )",
			"VISIBLE", "INVISIBLE", "COMMENT 'c␣,␣d'", "COMMENT \"c\"", "COLLATE utf8_bin", "COLLATE `x`", "COLUMN_FORMAT FIXED", "COLUMN_FORMAT DYNAMIC", "COLUMN_FORMAT DEFAULT", "ENGINE_ATTRIBUTE = 'x'", "ENGINE_ATTRIBUTE 'x'", "SECONDARY_ENGINE_ATTRIBUTE = \"x\"", "STORAGE DISK", "STORAGE MEMORY",
			"GENERATED ALWAYS AS ( a + 1 )", "AS ( a , ( b ) )", "VIRTUAL", "STORED", "CHECK ( a > ( 1 , 2 ) )", "CHECK ( ) NOT ENFORCED", "CHECK ( x ) ENFORCED", "CONSTRAINT nm CHECK ( x )", "CONSTRAINT `n␣m` CHECK ( x ) NOT ENFORCED", "CONSTRAINT CHECK ( y )",
			"REFERENCES o ( x )", "REFERENCES s . o ( `x` ) ON DELETE SET NULL", "REFERENCES `o` ( x ) MATCH FULL ON UPDATE NO ACTION", "REFERENCES o"},
		elements: []string{"c INT", "`q␣c` TEXT NOT NULL", "d DECIMAL ( 10 , 2 ) DEFAULT 1 COMMENT 'x'", "e VARCHAR ( 20 ) UNIQUE KEY CHECK ( d , ( e ) ) NOT ENFORCED REFERENCES o ( x )", "f INT AUTO_INCREMENT KEY", "g BIT GENERATED ALWAYS AS ( c ) STORED INVISIBLE",
			"PRIMARY KEY ( c )", "PRIMARY KEY USING BTREE ( c ( 10 ) ASC , `d␣e` , ( f + 1 ) DESC ) KEY_BLOCK_SIZE = 8 VISIBLE", "CONSTRAINT p PRIMARY KEY ( `c` )", "CONSTRAINT PRIMARY KEY ( c )",
			"UNIQUE ( c )", "UNIQUE KEY i ( c , d DESC )", "UNIQUE INDEX USING HASH ( c )", "CONSTRAINT `u␣1` UNIQUE i USING BTREE ( d ( 3 ) ) COMMENT 'x'", "CONSTRAINT UNIQUE ( c )",
			"CHECK ( c > 0 )", "CHECK ( c ) NOT ENFORCED", "CONSTRAINT ck CHECK ( f ( c , ( d ) ) ) ENFORCED", "CONSTRAINT CHECK ( z )",
			"INDEX ( c )", "KEY i USING HASH ( c , d ( 4 ) DESC ) USING BTREE", "INDEX i ( ( c + 1 ) ) WITH PARSER p INVISIBLE", "KEY USING BTREE ( c ) ENGINE_ATTRIBUTE 'x'", "FULLTEXT ( c )", "FULLTEXT INDEX i ( c , d ) COMMENT 'x'", "SPATIAL KEY ( c )", "SPATIAL i ( c ) SECONDARY_ENGINE_ATTRIBUTE = 'x'",
			"FOREIGN KEY ( c ) REFERENCES o ( x )", "FOREIGN KEY i ( c , d ) REFERENCES s . o ( x , `y` ( 3 ) DESC ) ON DELETE CASCADE", "CONSTRAINT fk FOREIGN KEY ( c ) REFERENCES `o` ( x ) MATCH FULL ON UPDATE SET DEFAULT", "CONSTRAINT FOREIGN KEY ( c ) REFERENCES o ( x )"},
		options: []string{"", "ENGINE = InnoDB", "ENGINE InnoDB", "AUTO_INCREMENT = 5", "AUTOEXTEND_SIZE 4", "AVG_ROW_LENGTH = 10", "DEFAULT CHARACTER SET = utf8", "CHARACTER SET utf8", "CHECKSUM = 0", "DEFAULT COLLATE = utf8_bin", "COLLATE utf8_bin", "COMMENT = 'x'", "COMPRESSION = 'ZLIB'", "CONNECTION = 'x'", "DATA DIRECTORY = '/x'", "INDEX DIRECTORY '/x'", "DELAY_KEY_WRITE 1",
			"ENCRYPTION = 'Y'", "ENGINE_ATTRIBUTE = 'x'", "INSERT_METHOD = NO", "INSERT_METHOD LAST", "KEY_BLOCK_SIZE = 8", "MAX_ROWS = 1", "MIN_ROWS = 1", "PACK_KEYS = DEFAULT", "PACK_KEYS 1", "PASSWORD = 'x'", "ROW_FORMAT = COMPACT", "ROW_FORMAT DYNAMIC", "SECONDARY_ENGINE_ATTRIBUTE 'x'", "STATS_AUTO_RECALC = 0", "STATS_PERSISTENT = 1", "STATS_SAMPLE_PAGES = 9", "TABLESPACE sp", "TABLESPACE `sp` STORAGE DISK", "UNION = ( a , s . b )", "UNION ( a )", ", ENGINE = x , COMMENT 'y'", "ENGINE = x DEFAULT CHARACTER SET utf8 COLLATE = y"},
		stmts: []string{"CREATE TABLE t ( a TEXT ) ;", "CREATE TABLE IF NOT EXISTS s . t ( a INT AUTO_INCREMENT PRIMARY KEY , b VARCHAR ( 10 ) , UNIQUE KEY u ( b ) ) ENGINE = InnoDB ;", "CREATE TABLE `t␣2` ( `x` REAL NOT NULL , CHECK ( x ) ) ;", "CREATE TABLE `s` . u ( c INT DEFAULT \"x;y\" REFERENCES t ( a ) , KEY ( c ) ) COMMENT 'z;' ;",
			"CREATE VIEW v AS SELECT a , ( b ) FROM t ;", "CREATE INDEX i ON t ( a ) ;", "CREATE UNIQUE INDEX i ON t ( a ) ;", "CREATE DATABASE d ;", "CREATE PROCEDURE f ( ) BEGIN SELECT 1 ; UPDATE t SET a = 1 ; END ;", "CREATE PROCEDURE f ( ) BEGIN IF x THEN BEGIN SELECT 1 ; END ; END IF ; WHILE y DO SELECT 2 ; END WHILE ; CASE x WHEN 1 THEN SELECT CASE WHEN 1 THEN 2 END ; END CASE ; SELECT 3 ; END ;", "CREATE TRIGGER g AFTER INSERT ON t ;", "CREATE EVENT e ;", "CREATE FUNCTION p ;", "CREATE SERVER p ;", "CREATE USER p ;", "CREATE SEQUENCE p ;", "CREATE TABLESPACE p ;", "CREATE ROLE p ;", "CREATE LOGIN p ;"},
		inertCol: []string{"VISIBLE", "INVISIBLE", "COMMENT 'c'", "COMMENT \"x␣)\"", "COLUMN_FORMAT FIXED", "COLUMN_FORMAT DYNAMIC", "COLUMN_FORMAT DEFAULT", "ENGINE_ATTRIBUTE = 'x'", "ENGINE_ATTRIBUTE 'y'", "SECONDARY_ENGINE_ATTRIBUTE 'y'", "STORAGE DISK", "STORAGE MEMORY", "GENERATED ALWAYS AS ( q , ( r ) )", "AS ( s )", "VIRTUAL", "STORED", "NULL"},
	},
}

func phraseDom(name string, ps []string) *Domain {
	d := &Domain{name: name}
	for _, p := range ps {
		t := toks(p)
		d.ph = append(d.ph, t)
		d.vals = append(d.vals, strings.Join(t, " "))
	}
	return d
}

// rich: columns with many clauses in different orders.
var rich = [3][]string{
	{"CONSTRAINT nm NOT NULL UNIQUE DEFAULT 5 COLLATE NOCASE CHECK ( a ) REFERENCES o ( x )",
		"DEFAULT 'x' REFERENCES s . o ( x ) ON DELETE CASCADE MATCH FULL CHECK ( a , ( b ) ) UNIQUE ON CONFLICT IGNORE NOT NULL",
		"COLLATE BINARY PRIMARY KEY DESC ON CONFLICT FAIL AUTOINCREMENT NOT NULL ON CONFLICT ABORT CHECK ( x ) DEFAULT ( 1 ) GENERATED ALWAYS AS ( c ) STORED"},
	{"NOT NULL UNIQUE INCLUDE ( x ) DEFAULT 5 CHECK ( a ) NO INHERIT REFERENCES o ( x ) MATCH FULL ON DELETE CASCADE",
		"CONSTRAINT nm REFERENCES s . o ( x ) CHECK ( a , ( b ) ) DEFAULT 'x' PRIMARY KEY WITH ( f = 1 ) USING INDEX TABLESPACE sp NULL",
		"GENERATED BY DEFAULT AS IDENTITY ( START 1 ) PRIMARY KEY UNIQUE USING INDEX TABLESPACE sp CHECK ( x ) NOT NULL DEFAULT ( 1 )"},
	{"NOT NULL DEFAULT 5 AUTO_INCREMENT UNIQUE KEY COMMENT 'c' COLLATE utf8_bin COLUMN_FORMAT FIXED STORAGE DISK REFERENCES o ( x ) CHECK ( a ) NOT ENFORCED",
		"GENERATED ALWAYS AS ( a ) STORED VISIBLE ENGINE_ATTRIBUTE = 'x' SECONDARY_ENGINE_ATTRIBUTE 'y' PRIMARY KEY CONSTRAINT nm CHECK ( x ) ENFORCED REFERENCES s . o ( `x` ) MATCH FULL ON DELETE SET NULL",
		"CHECK ( x , ( y ) ) KEY UNIQUE DEFAULT ( f ( 1 ) ) INVISIBLE COLLATE `x` NULL COMMENT 'z'"},
}

// whole: tables as they are written in practice, with everything in them.
var whole = [3][]string{
	{"CREATE TEMP TABLE IF NOT EXISTS s . t ( id INTEGER PRIMARY KEY AUTOINCREMENT , \"n␣m\" TEXT NOT NULL UNIQUE , v REAL DEFAULT -1.5 CHECK ( v > 0 ) , w NUMERIC DEFAULT 'x' COLLATE NOCASE , r INTEGER REFERENCES o ( x ) ON DELETE CASCADE , PRIMARY KEY ( id , v ) , CONSTRAINT u1 UNIQUE ( v , w ) , CHECK ( v <> w ) , CONSTRAINT f1 FOREIGN KEY ( r , w ) REFERENCES s . o ( x , y ) ) WITHOUT ROWID ; CREATE TABLE u ( a TEXT ) ;"},
	{"CREATE TABLE IF NOT EXISTS s . t ( id BIGSERIAL PRIMARY KEY , \"n␣m\" VARCHAR ( 20 ) NOT NULL UNIQUE , v NUMERIC ( 10 , 2 ) DEFAULT -1.5 CHECK ( v > 0 ) , w CHARACTER VARYING ( 5 ) DEFAULT 'x' , r INT REFERENCES o ( x ) ON DELETE CASCADE , PRIMARY KEY ( id , v ) , CONSTRAINT u1 UNIQUE ( v , w ) , CHECK ( v <> w ) , EXCLUDE ( v ) , CONSTRAINT f1 FOREIGN KEY ( r , w ) REFERENCES s . o ( x , y ) ) TABLESPACE sp ; CREATE TABLE u ( a TEXT ) ;"},
	{"CREATE TABLE IF NOT EXISTS s . t ( id INT ( 11 ) AUTO_INCREMENT PRIMARY KEY , `n␣m` VARCHAR ( 20 ) NOT NULL UNIQUE , v DECIMAL ( 10 , 2 ) DEFAULT -1.5 CHECK ( v > 0 ) , w CHAR ( 5 ) DEFAULT 'x' COLLATE utf8_bin COMMENT 'y' , r INT REFERENCES o ( x ) ON DELETE CASCADE , PRIMARY KEY ( id , v ) , CONSTRAINT u1 UNIQUE KEY k ( v ( 3 ) , w DESC ) , CHECK ( v <> w ) , KEY i ( v ) , CONSTRAINT f1 FOREIGN KEY ( r , w ) REFERENCES s . o ( x , y ) ) ENGINE = InnoDB DEFAULT CHARACTER SET utf8 ; CREATE TABLE u ( a TEXT ) ;"},
}
