// Package spec is an independent reading of the supported grammar (README and the accepted forms
// documented in DESIGN.md): a predictive parser over tokens that yields the tables, or the first
// token that cannot continue a statement.
package spec

import (
	ddl "github.com/kodaimura/ddlparse"
	"github.com/kodaimura/ddlparse/internal/zzverif/zz"
)

// Default is the value of a DEFAULT clause.
type Default struct {
	Kind int // 0 nil, 1 number, 2 text, 3 true, 4 false
	N    float64
	S    string
}

// Result of reading a text.
type Result struct {
	Ok       bool
	Open     bool // the text uses a form on which the properties make no statement
	Tables   []ddl.Table
	Defaults [][]Default
	Near     string
	L0, L1   int
	LexBad   bool
}

type parser struct {
	d      int
	t      []Token
	i      int
	last   int
	open   bool
	tables []ddl.Table
	defs   [][]Default
	tab    ddl.Table
	def    []Default
}

// Read decides a text.
func Read(d int, text string) Result {
	lx := Lex(d, text)
	if lx.Bad {
		return Result{Near: lx.Near, L0: lx.Line, L1: lx.Line, LexBad: true}
	}
	return ReadTokens(d, lx)
}

// ReadTokens decides a token list.
func ReadTokens(d int, lx Lexed) Result {
	p := &parser{d: d, t: lx.T, last: lx.Last}
	for p.i < len(p.t) {
		if !p.statement() {
			r := Result{Open: p.open, Near: "<EOF>", L0: p.last, L1: p.last}
			if p.i < len(p.t) {
				r.Near, r.L0, r.L1 = p.t[p.i].S, p.t[p.i].L0, p.t[p.i].L1
			}
			return r
		}
		if p.open {
			return Result{Open: true}
		}
	}
	return Result{Ok: true, Tables: p.tables, Defaults: p.defs}
}

// ---- tokens

func (p *parser) tok() string {
	if p.i < len(p.t) {
		return p.t[p.i].S
	}
	return ""
}

func anyOf(u string, words []string) bool {
	for _, w := range words {
		if u == w {
			return true
		}
	}
	return false
}

// is: the current token is one of the keywords.
func (p *parser) is(words ...string) bool {
	return p.isAt(0, words...)
}

// isAt: the token k places ahead is one of the keywords.
func (p *parser) isAt(k int, words ...string) bool {
	if p.i+k >= len(p.t) {
		return false
	}
	s := p.t[p.i+k].S
	if anyOf(zz.Upper(s), words) {
		return true
	}
	// a keyword spelled with a letter such as U+017F that folds to an ASCII letter is left open
	if anyOf(zz.Fold(s), words) {
		p.open = true
	}
	return false
}

// opt consumes the current token when it is one of the keywords.
func (p *parser) opt(words ...string) bool {
	if p.is(words...) {
		p.i++
		return true
	}
	return false
}

// seq requires these keywords one after the other.
func (p *parser) seq(words ...string) bool {
	for _, w := range words {
		if !p.opt(w) {
			return false
		}
	}
	return true
}

func first(s string) string {
	if s == "" {
		return ""
	}
	return s[:1]
}

func quotedName(d int, s string) bool {
	q := first(s)
	switch d {
	case SQLite:
		return q == "\"" || q == "`"
	case PostgreSQL:
		return q == "\""
	}
	return q == "`"
}

func quotedText(d int, s string) bool {
	q := first(s)
	return q == "'" || (d == MySQL && q == "\"")
}

func reserved(d int) []string {
	switch d {
	case SQLite:
		return reservedSQLite
	case PostgreSQL:
		return reservedPostgreSQL
	}
	return reservedMySQL
}

// IsName: the token is a valid name.
func IsName(d int, s string) bool {
	return quotedName(d, s) || (zz.IsIdent(s) && !anyOf(zz.Upper(s), reserved(d)))
}

func plain(d int, s string) string {
	if quotedName(d, s) {
		return zz.Unquote(s)
	}
	return s
}

// name consumes a name; raw keeps its quotes.
func (p *parser) name() (raw string, ok bool) {
	if p.i >= len(p.t) || !IsName(p.d, p.t[p.i].S) {
		return "", false
	}
	p.i++
	return p.t[p.i-1].S, true
}

// tableName: [schema.]name, quotes removed.
func (p *parser) tableName() (schema, name string, ok bool) {
	n, ok := p.name()
	if !ok {
		return "", "", false
	}
	if p.opt(".") {
		m, ok := p.name()
		return plain(p.d, n), plain(p.d, m), ok
	}
	return "", plain(p.d, n), true
}

// names: name {, name}
func (p *parser) names() (out []string, ok bool) {
	for {
		n, ok := p.name()
		if !ok {
			return nil, false
		}
		out = append(out, n)
		if !p.opt(",") {
			return out, true
		}
	}
}

func (p *parser) bracketedNames() (out []string, ok bool) {
	if !p.opt("(") {
		return nil, false
	}
	out, ok = p.names()
	return out, ok && p.opt(")")
}

// expr: a balanced bracket; its text is its tokens put together.
func (p *parser) expr() (text string, ok bool) {
	if !p.is("(") {
		return "", false
	}
	depth := 0
	for p.i < len(p.t) {
		t := p.t[p.i].S
		p.i++
		text += t
		if t == "(" {
			depth++
		} else if t == ")" {
			depth--
			if depth == 0 {
				return text, true
			}
		}
	}
	return "", false
}

func (p *parser) optExpr() bool {
	if p.is("(") {
		_, ok := p.expr()
		return ok
	}
	return true
}

func (p *parser) skipExpr() bool {
	_, ok := p.expr()
	return ok
}

// size: one positive integer.
func (p *parser) size() (n int, ok bool) {
	if p.i >= len(p.t) {
		return 0, false
	}
	s := p.t[p.i].S
	k := zz.SizeKind(s)
	if k == 0 {
		return 0, false
	}
	if k == 2 {
		p.open = true
		p.i++
		return 0, true
	}
	p.i++
	return zz.SizeVal(s), true
}

// sizes: an optional bracket with at most max sizes.
func (p *parser) sizes(max int) (n, m int, ok bool) {
	if !p.opt("(") {
		return 0, 0, true
	}
	n, ok = p.size()
	if !ok {
		return 0, 0, false
	}
	if max == 2 && p.opt(",") {
		m, ok = p.size()
		if !ok {
			return 0, 0, false
		}
	}
	return n, m, p.opt(")")
}

// literal value of DEFAULT and of options.
func (p *parser) literal() (v Default, ok bool) {
	if p.i >= len(p.t) {
		return v, false
	}
	s := p.t[p.i].S
	n := zz.IsNum(s)
	if n == 1 {
		p.i++
		return Default{Kind: 1, N: zz.Num(s)}, true
	}
	if n == 2 {
		p.open = true
		p.i++
		return v, true
	}
	if quotedText(p.d, s) {
		p.i++
		return Default{Kind: 2, S: zz.Unquote(s)}, true
	}
	if p.opt("NULL") {
		return v, true
	}
	if p.opt("TRUE") {
		return Default{Kind: 3}, true
	}
	if p.opt("FALSE") {
		return Default{Kind: 4}, true
	}
	if p.opt("CURRENT_TIME", "CURRENT_DATE", "CURRENT_TIMESTAMP") {
		return Default{Kind: 2, S: s}, true
	}
	return v, false
}

func (p *parser) str() bool {
	if p.i < len(p.t) && quotedText(p.d, p.t[p.i].S) {
		p.i++
		return true
	}
	return false
}

// ---- statements

func (p *parser) statement() bool {
	if !p.opt("CREATE") {
		return false
	}
	temp := p.d == SQLite && p.opt("TEMP", "TEMPORARY")
	if p.opt("TABLE") {
		return p.createTable()
	}
	return p.createOther(temp)
}

func (p *parser) createOther(temp bool) bool {
	switch p.d {
	case SQLite:
		if temp && p.is("VIRTUAL", "INDEX", "UNIQUE") {
			p.open = true
		}
		if !p.opt("VIRTUAL", "VIEW", "TRIGGER", "INDEX", "UNIQUE") {
			return false
		}
	case PostgreSQL:
		if !p.opt("VIEW", "TRIGGER", "INDEX", "MATERIALIZED", "SEQUENCE", "FUNCTION", "TYPE", "PROCEDURE",
			"AGGREGATE", "SCHEMA", "ROLE", "USER", "GROUP", "TABLESPACE", "EXTENSION", "DATABASE", "LANGUAGE",
			"FOREIGN", "DOMAIN", "SERVER", "CONVERSION", "RULE", "COLLATION", "POLICY", "OPERATOR") {
			return false
		}
	default:
		if !p.opt("VIEW", "TRIGGER", "INDEX", "DATABASE", "UNIQUE", "PROCEDURE", "SERVER", "FUNCTION", "USER",
			"EVENT", "SEQUENCE", "TABLESPACE", "ROLE", "LOGIN") {
			return false
		}
	}
	// the statement ends at the first semicolon outside BEGIN ... END; in the body, CASE ... END (and
	// in MySQL BEGIN ... END, IF ... END IF and the loops) are nested
	depth := 0
	for p.i < len(p.t) {
		if depth == 0 {
			if p.opt(";") {
				return true
			}
			if p.is("BEGIN") {
				depth = 1
			}
			p.i++
			continue
		}
		if p.opt("END") {
			if p.d == MySQL && p.opt("IF", "LOOP", "WHILE", "REPEAT") {
				continue
			}
			depth--
			if p.d == MySQL {
				p.opt("CASE")
			}
			if depth == 0 && p.i < len(p.t) && !p.is(";") {
				p.open = true
			}
			continue
		}
		if p.is("CASE") || (p.d == MySQL && p.is("BEGIN")) {
			depth++
		}
		p.i++
	}
	return false
}

func (p *parser) createTable() bool {
	p.tab = ddl.Table{}
	p.def = nil
	if p.is("IF") && (p.d != PostgreSQL || p.isAt(1, "NOT")) {
		p.i++
		if !p.seq("NOT", "EXISTS") {
			return false
		}
		p.tab.IfNotExists = true
	}
	var ok bool
	p.tab.Schema, p.tab.Name, ok = p.tableName()
	if !ok || !p.opt("(") {
		return false
	}
	for {
		if !p.element() {
			return false
		}
		if !p.opt(",") {
			break
		}
	}
	if !p.opt(")") || !p.options() {
		return false
	}
	if !p.opt(";") && !(p.d == SQLite && p.i >= len(p.t)) {
		return false
	}
	p.tables = append(p.tables, p.tab)
	p.defs = append(p.defs, p.def)
	return true
}

func (p *parser) element() bool {
	if p.is("CONSTRAINT", "PRIMARY", "UNIQUE", "CHECK", "FOREIGN") ||
		(p.d == PostgreSQL && p.is("EXCLUDE")) ||
		(p.d == MySQL && p.is("INDEX", "KEY", "FULLTEXT", "SPATIAL")) {
		return p.tableConstraint()
	}
	return p.column()
}

func (p *parser) column() bool {
	n, ok := p.name()
	if !ok {
		return false
	}
	var c ddl.Column
	var def Default
	c.Name = plain(p.d, n)
	if !p.dataType(&c.DataType) || !p.columnConstraints(&c.Constraint, &def) {
		return false
	}
	p.tab.Columns = append(p.tab.Columns, c)
	p.def = append(p.def, def)
	return true
}

func (p *parser) dataType(t *ddl.DataType) bool {
	t.Name = zz.Upper(p.tok())
	max := 0
	zone := false
	switch p.d {
	case SQLite:
		return p.opt("TEXT", "NUMERIC", "INTEGER", "REAL", "NONE")
	case PostgreSQL:
		if p.opt("BIT") {
			if p.opt("VARYING") {
				t.Name = "VARBIT"
			}
			max = 1
		} else if p.opt("CHARACTER") {
			if p.opt("VARYING") {
				t.Name = "VARCHAR"
			}
			max = 1
		} else if p.opt("VARBIT", "VARCHAR", "CHAR") {
			max = 1
		} else if p.opt("NUMERIC", "DECIMAL") {
			max = 2
		} else if p.opt("DOUBLE") {
			return p.opt("PRECISION")
		} else if p.opt("TIME", "TIMESTAMP") {
			max = 1
			zone = true
		} else {
			return p.opt("BIGINT", "INT8", "BIGSERIAL", "SERIAL8", "BOOLEAN", "BOOL", "BOX", "BYTEA", "CIDR",
				"CIRCLE", "DATE", "FLOAT8", "INET", "INTEGER", "INT", "INT4", "JSON", "JSONB", "LINE", "LSEG",
				"MACADDR", "MACADDR8", "MONEY", "PATH", "PG_LSN", "PG_SNAPSHOT", "POINT", "POLYGON", "REAL",
				"FLOAT4", "SMALLINT", "INT2", "SMALLSERIAL", "SERIAL2", "SERIAL", "SERIAL4", "TEXT", "TIMETZ",
				"TIMESTAMPTZ", "TSQUERY", "TSVECTOR", "TXID_SNAPSHOT", "UUID", "XML")
		}
	default:
		if p.opt("VARCHAR", "CHAR", "BINARY", "VARBINARY", "BLOB", "TEXT", "BIT", "TINYINT", "SMALLINT",
			"MEDIUMINT", "INT", "INTEGER", "BIGINT") {
			max = 1
		} else if p.opt("NUMERIC", "DECIMAL", "FLOAT", "REAL", "DOUBLE") {
			max = 2
		} else if p.opt("TIME", "DATETIME", "TIMESTAMP", "YEAR") {
			max = 1
			zone = true
		} else {
			return p.opt("SERIAL", "BOOL", "BOOLEAN", "DATE", "GEOMETRY", "POINT", "LINESTRING", "POLYGON",
				"MULTIPOINT", "MULTILINESTRING", "MULTIPOLYGON", "GEOMETRYCOLLECTION", "JSON")
		}
	}
	var ok bool
	t.DigitN, t.DigitM, ok = p.sizes(max)
	if !ok {
		return false
	}
	if zone && p.opt("WITH", "WITHOUT") {
		return p.seq("TIME", "ZONE")
	}
	return true
}

// ---- references

func (p *parser) references(r *ddl.Reference, many, column bool) bool {
	var ok bool
	_, r.TableName, ok = p.tableName()
	if !ok {
		return false
	}
	if p.is("(") {
		p.i++
		if many {
			r.ColumnNames, ok = p.names()
		} else {
			var n string
			n, ok = p.name()
			r.ColumnNames = []string{n}
		}
		if !ok || !p.opt(")") {
			return false
		}
	}
	return p.refActions(column)
}

func (p *parser) refActions(column bool) bool {
	for {
		if p.opt("ON") {
			if !p.opt("DELETE", "UPDATE") {
				return false
			}
			if p.opt("SET") {
				if !p.opt("NULL", "DEFAULT") {
					return false
				}
			} else if p.opt("NO") {
				if !p.opt("ACTION") {
					return false
				}
			} else if !p.opt("CASCADE", "RESTRICT") {
				return false
			}
			continue
		}
		if p.opt("MATCH") {
			if p.d == SQLite {
				if !p.opt("FULL") {
					if _, ok := p.name(); !ok {
						return false
					}
				}
			} else if !p.opt("SIMPLE", "PARTIAL", "FULL") {
				return false
			}
			continue
		}
		if p.d == SQLite && p.is("NOT", "DEFERRABLE") && !(column && p.is("NOT") && p.isAt(1, "NULL")) {
			p.opt("NOT")
			if !p.opt("DEFERRABLE") {
				return false
			}
			if p.opt("INITIALLY") && !p.opt("DEFERRED", "IMMEDIATE") {
				return false
			}
			continue
		}
		return true
	}
}

// ---- column constraints

func (p *parser) columnConstraints(c *ddl.Constraint, def *Default) bool {
	var seen []string
	named := false
	for {
		if p.opt("CONSTRAINT") {
			if !(p.d == MySQL && p.is("CHECK")) {
				n, ok := p.name()
				if !ok {
					return false
				}
				if !named {
					c.Name = plain(p.d, n)
					named = true
				}
			}
			if p.d == MySQL && !p.is("CHECK") {
				p.open = true // documented for CHECK only
			}
			if p.clause() == "" {
				p.open = true // a name without its constraint
			}
		}
		k := p.clause()
		if k == "" {
			return true
		}
		if p.d == MySQL {
			switch k {
			case "NULL":
				k = "NOT"
			case "KEY":
				k = "PRIMARY"
			case "AS":
				k = "GENERATED"
			}
			if (k == "VISIBLE" && anyOf("INVISIBLE", seen)) || (k == "INVISIBLE" && anyOf("VISIBLE", seen)) ||
				(k == "VIRTUAL" && anyOf("STORED", seen)) || (k == "STORED" && anyOf("VIRTUAL", seen)) {
				p.open = true
			}
		} else {
			if p.d == PostgreSQL && k == "NULL" {
				k = "NOT"
			}
			if (k == "AS" && anyOf("GENERATED", seen)) || (k == "GENERATED" && anyOf("AS", seen)) {
				p.open = true
			}
		}
		if anyOf(k, seen) {
			return false
		}
		seen = append(seen, k)
		if !p.columnConstraint(c, def) {
			return false
		}
	}
}

var clausesSQLite = []string{"PRIMARY", "NOT", "UNIQUE", "CHECK", "DEFAULT", "COLLATE", "REFERENCES", "GENERATED", "AS"}
var clausesPostgreSQL = []string{"PRIMARY", "NOT", "NULL", "UNIQUE", "CHECK", "DEFAULT", "REFERENCES", "GENERATED", "AS"}
var clausesMySQL = []string{"PRIMARY", "KEY", "NOT", "NULL", "UNIQUE", "CHECK", "DEFAULT", "COLLATE", "REFERENCES",
	"GENERATED", "AS", "COMMENT", "COLUMN_FORMAT", "ENGINE_ATTRIBUTE", "SECONDARY_ENGINE_ATTRIBUTE", "STORAGE",
	"VISIBLE", "INVISIBLE", "VIRTUAL", "STORED", "AUTO_INCREMENT"}

// clause: the keyword that begins a column constraint here, "" when none does.
func (p *parser) clause() string {
	ks := clausesSQLite
	if p.d == PostgreSQL {
		ks = clausesPostgreSQL
	} else if p.d == MySQL {
		ks = clausesMySQL
	}
	if !p.is(ks...) {
		return ""
	}
	for _, k := range ks {
		if p.is(k) {
			return k
		}
	}
	return ""
}

func (p *parser) columnConstraint(c *ddl.Constraint, def *Default) bool {
	k := p.clause()
	p.i++
	var ok bool
	switch k {
	case "PRIMARY":
		if !p.opt("KEY") {
			return false
		}
		c.IsPrimaryKey = true
		if p.d == SQLite {
			p.opt("ASC", "DESC")
			if !p.conflict() {
				return false
			}
			if p.opt("AUTOINCREMENT") {
				c.IsAutoincrement = true
			}
			return true
		}
		return p.d == MySQL || p.indexParams()
	case "KEY":
		c.IsPrimaryKey = true
		return true
	case "NOT":
		if !p.opt("NULL") {
			return false
		}
		c.IsNotNull = true
		return p.d != SQLite || p.conflict()
	case "NULL":
		return true
	case "UNIQUE":
		c.IsUnique = true
		if p.d == MySQL {
			p.opt("KEY")
			return true
		}
		if p.d == SQLite {
			return p.conflict()
		}
		return p.indexParams()
	case "CHECK":
		c.Check, ok = p.expr()
		if !ok {
			return false
		}
		return p.checkTail(true)
	case "DEFAULT":
		if p.is("(") {
			var s string
			s, ok = p.expr()
			*def = Default{Kind: 2, S: s}
			return ok
		}
		*def, ok = p.literal()
		if ok && p.d == MySQL && p.opt("ON") {
			return p.seq("UPDATE") && p.opt("CURRENT_TIME", "CURRENT_DATE", "CURRENT_TIMESTAMP")
		}
		return ok
	case "COLLATE":
		if p.d == SQLite {
			c.Collate = p.tok()
			return p.opt("BINARY", "NOCASE", "RTRIM")
		}
		var s string
		s, ok = p.name()
		c.Collate = plain(p.d, s)
		return ok
	case "REFERENCES":
		return p.references(&c.References, false, true)
	case "GENERATED":
		return p.generated()
	case "AS":
		if !p.skipExpr() {
			return false
		}
		if p.d != MySQL {
			p.opt("STORED", "VIRTUAL")
		}
		return true
	case "COMMENT":
		return p.str()
	case "COLUMN_FORMAT":
		return p.opt("FIXED", "DYNAMIC", "DEFAULT")
	case "ENGINE_ATTRIBUTE", "SECONDARY_ENGINE_ATTRIBUTE":
		p.opt("=")
		return p.str()
	case "STORAGE":
		return p.opt("DISK", "MEMORY")
	case "AUTO_INCREMENT":
		c.IsAutoincrement = true
		return true
	}
	return true // VISIBLE, INVISIBLE, VIRTUAL, STORED
}

func (p *parser) checkTail(column bool) bool {
	if p.d == PostgreSQL && p.opt("NO") {
		return p.opt("INHERIT")
	}
	if p.d == MySQL {
		if p.is("NOT") && !(column && p.isAt(1, "NULL")) {
			p.i++
			return p.opt("ENFORCED")
		}
		p.opt("ENFORCED")
	}
	return true
}

func (p *parser) generated() bool {
	if p.d != PostgreSQL {
		if !p.seq("ALWAYS", "AS") || !p.skipExpr() {
			return false
		}
		if p.d == SQLite {
			p.opt("STORED", "VIRTUAL")
		}
		return true
	}
	if p.opt("ALWAYS") {
		if !p.opt("AS") {
			return false
		}
		if p.opt("IDENTITY") {
			return p.optExpr()
		}
		return p.skipExpr() && p.opt("STORED")
	}
	if p.opt("BY") {
		return p.seq("DEFAULT", "AS", "IDENTITY") && p.optExpr()
	}
	if p.opt("AS") {
		p.open = true // not documented
		return p.opt("IDENTITY") && p.optExpr()
	}
	return false
}

func (p *parser) conflict() bool {
	if p.opt("ON") {
		return p.opt("CONFLICT") && p.opt("ROLLBACK", "ABORT", "FAIL", "IGNORE", "REPLACE")
	}
	return true
}

func (p *parser) indexParams() bool {
	if p.opt("INCLUDE") {
		if _, ok := p.bracketedNames(); !ok {
			return false
		}
	}
	if p.opt("WITH") && !p.skipExpr() {
		return false
	}
	if p.opt("USING") {
		if !p.seq("INDEX", "TABLESPACE") {
			return false
		}
		_, ok := p.name()
		return ok
	}
	return true
}

// ---- table constraints

func (p *parser) tableConstraint() bool {
	name := ""
	if p.opt("CONSTRAINT") {
		if !(p.d == MySQL && p.is("PRIMARY", "UNIQUE", "FOREIGN", "CHECK")) {
			n, ok := p.name()
			if !ok {
				return false
			}
			name = plain(p.d, n)
		}
		if p.d == MySQL && !p.is("PRIMARY", "UNIQUE", "FOREIGN", "CHECK") {
			return false
		}
	}
	cs := &p.tab.Constraints
	var ok bool
	if p.opt("PRIMARY") {
		if !p.opt("KEY") {
			return false
		}
		k := ddl.PrimaryKey{Name: name}
		k.ColumnNames, ok = p.keyColumns()
		if !ok || !p.keyTail() {
			return false
		}
		cs.PrimaryKey = append(cs.PrimaryKey, k)
		return true
	}
	if p.opt("UNIQUE") {
		if p.d == MySQL {
			p.opt("INDEX", "KEY")
			if !p.indexName() {
				return false
			}
		}
		k := ddl.Unique{Name: name}
		k.ColumnNames, ok = p.keyColumns()
		if !ok || !p.keyTail() {
			return false
		}
		cs.Unique = append(cs.Unique, k)
		return true
	}
	if p.opt("CHECK") {
		k := ddl.Check{Name: name}
		k.Expr, ok = p.expr()
		if !ok || !p.checkTail(false) {
			return false
		}
		cs.Check = append(cs.Check, k)
		return true
	}
	if p.opt("FOREIGN") {
		if !p.opt("KEY") {
			return false
		}
		if p.d == MySQL && !p.is("(") {
			if _, ok := p.name(); !ok {
				return false
			}
		}
		k := ddl.ForeignKey{Name: name}
		k.ColumnNames, ok = p.bracketedNames()
		if !ok || !p.opt("REFERENCES") {
			return false
		}
		if p.d == MySQL {
			_, k.References.TableName, ok = p.tableName()
			if !ok {
				return false
			}
			k.References.ColumnNames, ok = p.keyParts()
			if k.References.ColumnNames == nil {
				// only expressions: an empty list, nil or not
				k.References.ColumnNames = []string{}
			}
			if !ok || !p.refActions(false) {
				return false
			}
		} else if !p.references(&k.References, true, false) {
			return false
		}
		cs.ForeignKey = append(cs.ForeignKey, k)
		return true
	}
	if p.d == PostgreSQL && p.opt("EXCLUDE") {
		if p.opt("USING") {
			if _, ok := p.name(); !ok {
				return false
			}
		}
		if !p.skipExpr() || !p.indexParams() {
			return false
		}
		return !p.opt("WHERE") || p.skipExpr()
	}
	if p.d == MySQL && p.opt("INDEX", "KEY") {
		if !p.indexName() {
			return false
		}
		_, ok = p.keyColumns()
		return ok && p.keyTail()
	}
	if p.d == MySQL && p.opt("FULLTEXT", "SPATIAL") {
		p.opt("INDEX", "KEY")
		if !p.is("(") {
			if _, ok := p.name(); !ok {
				return false
			}
		}
		_, ok = p.keyParts()
		return ok && p.keyTail()
	}
	return false
}

// indexName: an optional index name.
func (p *parser) indexName() bool {
	if p.is("USING", "(") {
		return true
	}
	_, ok := p.name()
	return ok
}

// keyColumns: the bracketed columns of a key.
func (p *parser) keyColumns() (out []string, ok bool) {
	if p.d != MySQL {
		return p.bracketedNames()
	}
	if p.opt("USING") && !p.opt("BTREE", "HASH") {
		return nil, false
	}
	return p.keyParts()
}

// keyParts (MySQL): {name [(length)] | (expr)} [ASC | DESC], ...
func (p *parser) keyParts() (out []string, ok bool) {
	if !p.opt("(") {
		return nil, false
	}
	for {
		if p.is("(") {
			if !p.skipExpr() {
				return nil, false
			}
		} else {
			n, ok := p.name()
			if !ok {
				return nil, false
			}
			out = append(out, n)
			if _, _, ok := p.sizes(1); !ok {
				return nil, false
			}
		}
		p.opt("ASC", "DESC")
		if !p.opt(",") {
			return out, p.opt(")")
		}
	}
}

// keyTail: what may follow the columns of a key.
func (p *parser) keyTail() bool {
	switch p.d {
	case SQLite:
		return p.conflict()
	case PostgreSQL:
		return p.indexParams()
	}
	for {
		switch {
		case p.opt("KEY_BLOCK_SIZE"):
			p.opt("=")
			if !p.value() {
				return false
			}
		case p.opt("USING"):
			if !p.opt("BTREE", "HASH") {
				return false
			}
		case p.opt("WITH"):
			if !p.opt("PARSER") {
				return false
			}
			if _, ok := p.name(); !ok {
				return false
			}
		case p.opt("COMMENT"):
			if !p.str() {
				return false
			}
		case p.opt("VISIBLE", "INVISIBLE"):
		case p.opt("ENGINE_ATTRIBUTE", "SECONDARY_ENGINE_ATTRIBUTE"):
			p.opt("=")
			if !p.str() {
				return false
			}
		default:
			return true
		}
	}
}

// value: a number; other literals are left open.
func (p *parser) value() bool {
	v, ok := p.literal()
	if ok && v.Kind != 1 {
		p.open = true
	}
	return ok
}

// ---- table options

func (p *parser) options() bool {
	switch p.d {
	case SQLite:
		if p.opt("WITHOUT") {
			return p.opt("ROWID") && (!p.opt(",") || p.opt("STRICT"))
		}
		if p.opt("STRICT") && p.opt(",") {
			return p.seq("WITHOUT", "ROWID")
		}
		return true
	case PostgreSQL:
		for p.i < len(p.t) && !p.is(";") {
			p.opt(",")
			if !p.optionPostgreSQL() {
				return false
			}
		}
		return true
	}
	for p.i < len(p.t) && !p.is(";") {
		p.opt(",")
		if !p.optionMySQL() {
			return false
		}
	}
	return true
}

func (p *parser) optionPostgreSQL() bool {
	switch {
	case p.opt("WITH", "INHERITS"):
		return p.skipExpr()
	case p.opt("WITHOUT"):
		return p.opt("OIDS")
	case p.opt("TABLESPACE", "USING"):
		_, ok := p.name()
		return ok
	case p.opt("PARTITION"):
		return p.opt("BY") && p.opt("RANGE", "LIST", "HASH") && p.skipExpr()
	}
	return false
}

func (p *parser) optionMySQL() bool {
	switch {
	case p.opt("AUTOEXTEND_SIZE", "AUTO_INCREMENT", "AVG_ROW_LENGTH", "KEY_BLOCK_SIZE", "MAX_ROWS", "MIN_ROWS", "STATS_SAMPLE_PAGES"):
		p.opt("=")
		return p.value()
	case p.opt("COMMENT", "ENGINE_ATTRIBUTE", "PASSWORD", "SECONDARY_ENGINE_ATTRIBUTE", "CONNECTION"):
		p.opt("=")
		return p.str()
	case p.opt("COMPRESSION", "ENCRYPTION"):
		p.opt("=")
		if !p.is("'ZLIB'", "'LZ4'", "'NONE'", "'Y'", "'N'") {
			p.open = true // other strings than the documented ones
		}
		return p.str()
	case p.opt("DEFAULT"):
		if p.opt("CHARACTER") {
			if !p.opt("SET") {
				return false
			}
		} else if !p.opt("COLLATE") {
			return false
		}
		p.opt("=")
		_, ok := p.name()
		return ok
	case p.opt("CHARACTER"):
		if !p.opt("SET") {
			return false
		}
		p.opt("=")
		_, ok := p.name()
		return ok
	case p.opt("COLLATE", "ENGINE"):
		p.opt("=")
		_, ok := p.name()
		return ok
	case p.opt("CHECKSUM", "DELAY_KEY_WRITE"):
		p.opt("=")
		return p.opt("0", "1")
	case p.opt("PACK_KEYS", "STATS_AUTO_RECALC", "STATS_PERSISTENT"):
		p.opt("=")
		return p.opt("0", "1", "DEFAULT")
	case p.opt("DATA", "INDEX"):
		if !p.opt("DIRECTORY") {
			return false
		}
		p.opt("=")
		v, ok := p.literal()
		if ok && v.Kind != 2 {
			p.open = true
		}
		return ok
	case p.opt("TABLESPACE"):
		if _, ok := p.name(); !ok {
			return false
		}
		return !p.opt("STORAGE") || p.opt("DISK", "MEMORY")
	case p.opt("UNION"):
		p.opt("=")
		if !p.opt("(") {
			return false
		}
		for {
			if _, _, ok := p.tableName(); !ok {
				return false
			}
			if !p.opt(",") {
				return p.opt(")")
			}
		}
	case p.opt("INSERT_METHOD"):
		p.opt("=")
		return p.opt("NO", "FIRST", "LAST")
	case p.opt("ROW_FORMAT"):
		p.opt("=")
		return p.opt("DEFAULT", "DYNAMIC", "FIXED", "COMPRESSED", "REDUNDANT", "COMPACT")
	}
	return false
}
