// Package h holds the property harnesses. Every harness takes the way the texts are given (mode), a
// dialect, integer arguments and the texts in pieces; it runs the real parser on them and asserts.
package h

import (
	ddl "github.com/kodaimura/ddlparse"
	_ "github.com/kodaimura/ddlparse/internal/zzverif/model"
	"github.com/kodaimura/ddlparse/internal/zzverif/spec"
	"github.com/kodaimura/ddlparse/internal/zzverif/zz"
)

var dialects = []ddl.Rdbms{ddl.SQLite, ddl.PostgreSQL, ddl.MySQL}

// want: assertions of property p are active (args[0] is the property, 0 means all).
func want(args []int, p int) bool {
	return len(args) == 0 || args[0] == 0 || args[0] == p
}

// Main compares one parse call with the specification.
func Main(mode int, d int, args []int, texts [][]string) {
	text := zz.Text(mode, texts[0])
	tabs, err := ddl.Parse(text, dialects[d])
	outcome(args, tabs, err)
	if len(args) > 0 && args[0] <= 2 && args[0] > 0 {
		return
	}
	sp := spec.Read(d, text)
	if sp.Open {
		zz.Reach("open")
		return
	}
	against(args, d, tabs, err, sp)
}

// Judge tells what the specification says about a text, without running the parser.
func Judge(mode int, d int, args []int, texts [][]string) {
	sp := spec.Read(d, zz.Text(mode, texts[0]))
	switch {
	case sp.Open:
		zz.Assert(false, "open")
	case sp.Ok:
		zz.Assert(false, "accepted")
	default:
		zz.Assert(false, "rejected")
	}
}

// outcome: C02, and C01 by having returned.
func outcome(args []int, tabs []ddl.Table, err error) {
	if !want(args, 2) {
		return
	}
	if err == nil {
		zz.Assert(tabs != nil, "C02 tables are not nil without an error")
		zz.Reach("returned tables")
		return
	}
	zz.Reach("returned an error")
	zz.Assert(tabs != nil && len(tabs) == 0, "C02 an error comes with an empty table list")
	ve, ok := err.(ddl.ValidateError)
	zz.Assert(ok, "C02 the error is a ValidateError")
	if ok {
		zz.Assert(ve.Line >= 1, "C02 the line is at least 1")
		zz.Assert(ve.Near != "", "C02 Near is not empty")
		zz.Assert(err.Error() == "ValidateError: Syntax error: near '"+ve.Near+"' at line "+itoa(ve.Line)+".", "C02 error message")
	}
}

func itoa(n int) string {
	if n < 0 {
		return "-" + itoa(-n)
	}
	if n < 10 {
		return string(rune('0' + n))
	}
	return itoa(n/10) + string(rune('0'+n%10))
}

func against(args []int, d int, tabs []ddl.Table, err error, sp spec.Result) {
	if !sp.Ok {
		zz.Reach("rejected by the specification")
		// the properties that fix where something is rejected
		for _, p := range []int{4, 9, 10, 14, 15, 16, 20} {
			if want(args, p) {
				zz.Assert(err != nil, label(p, "a text outside the grammar is rejected"))
			}
		}
		if want(args, 3) && err != nil {
			ve, ok := err.(ddl.ValidateError)
			zz.Assert(ok, "C03 the error is a ValidateError")
			if ok {
				zz.Assert(ve.Near == sp.Near, "C03 Near is the offending token")
				zz.Assert(ve.Line >= sp.L0, "C03 Line is not before the offending token")
				zz.Assert(ve.Line <= sp.L1, "C03 Line is not after the offending token")
			}
		}
		return
	}
	zz.Reach("accepted by the specification")
	for _, p := range []int{5, 9, 10, 14, 15, 16, 20} {
		if want(args, p) {
			zz.Assert(err == nil, label(p, "a text of the grammar is accepted"))
		}
	}
	if err != nil {
		tabs = nil // a text of the grammar that is rejected loses everything it declares
	}
	sameTables(args, d, tabs, sp)
}

func label(p int, s string) string {
	return "C" + string(rune('0'+p/10)) + string(rune('0'+p%10)) + " " + s
}

func sameTables(args []int, d int, tabs []ddl.Table, sp spec.Result) {
	if want(args, 6) {
		zz.Assert(len(tabs) == len(sp.Tables), "C06 one table per CREATE TABLE")
	}
	for i := range sp.Tables {
		if i >= len(tabs) {
			if want(args, 7) {
				zz.Assert(len(sp.Tables[i].Columns) == 0, "C07 the columns of a table are missing")
			}
			for j := range sp.Tables[i].Columns {
				lostColumn(args, &sp.Tables[i].Columns[j], sp.Defaults[i][j])
			}
			lostConstraints(args, &sp.Tables[i].Constraints)
			continue
		}
		g, w := &tabs[i], &sp.Tables[i]
		if want(args, 6) {
			zz.Assert(g.Schema == w.Schema, "C06 schema")
			zz.Assert(g.Name == w.Name, "C06 table name")
			zz.Assert(g.IfNotExists == w.IfNotExists, "C06 if-not-exists flag")
		}
		for _, p := range []int{15, 16, 20} {
			if want(args, p) {
				zz.Assert(g.Schema == w.Schema, label(p, "schema"))
				zz.Assert(g.Name == w.Name, label(p, "table name"))
			}
		}
		if want(args, 7) {
			zz.Assert(len(g.Columns) == len(w.Columns), "C07 number of columns")
		}
		for j := range w.Columns {
			if j >= len(g.Columns) {
				lostColumn(args, &w.Columns[j], sp.Defaults[i][j])
				continue
			}
			sameColumn(args, &g.Columns[j], &w.Columns[j], sp.Defaults[i][j])
		}
		sameConstraints(args, &g.Constraints, &w.Constraints)
	}
}

// lostColumn: a column of the text that the result does not have; what was declared on it is lost.
func lostColumn(args []int, w *ddl.Column, def spec.Default) {
	c := &w.Constraint
	if want(args, 8) {
		zz.Assert(!c.IsPrimaryKey && !c.IsUnique && !c.IsNotNull && !c.IsAutoincrement && c.Collate == "" && c.Name == "", "C08 a column with constraints is missing")
	}
	if want(args, 9) {
		zz.Assert(def.Kind == 0, "C09 a column with a default is missing")
	}
	if want(args, 10) {
		zz.Assert(c.Check == "", "C10 a column with a check expression is missing")
	}
	if want(args, 12) {
		zz.Assert(c.References.TableName == "", "C12 a column with a reference is missing")
	}
}

func lostConstraints(args []int, w *ddl.TableConstraint) {
	if want(args, 10) {
		zz.Assert(len(w.Check) == 0, "C10 a check expression is missing")
	}
	if want(args, 11) {
		zz.Assert(len(w.PrimaryKey)+len(w.Unique)+len(w.Check)+len(w.ForeignKey) == 0, "C11 a table with constraints is missing")
	}
	if want(args, 12) {
		zz.Assert(len(w.ForeignKey) == 0, "C12 a foreign key is missing")
	}
}

func sameColumn(args []int, g, w *ddl.Column, def spec.Default) {
	for _, p := range []int{7, 15, 16, 20} {
		if want(args, p) {
			zz.Assert(g.Name == w.Name, label(p, "column name"))
		}
	}
	for _, p := range []int{7, 16} {
		if want(args, p) {
			zz.Assert(g.DataType.Name == w.DataType.Name, label(p, "type name"))
		}
	}
	if want(args, 7) {
		zz.Assert(g.DataType.DigitN == w.DataType.DigitN, "C07 type size")
		zz.Assert(g.DataType.DigitM == w.DataType.DigitM, "C07 type scale")
	}
	a, b := &g.Constraint, &w.Constraint
	for _, p := range []int{8, 16} {
		if want(args, p) {
			zz.Assert(a.IsPrimaryKey == b.IsPrimaryKey, label(p, "primary key flag"))
			zz.Assert(a.IsUnique == b.IsUnique, label(p, "unique flag"))
			zz.Assert(a.IsNotNull == b.IsNotNull, label(p, "not null flag"))
			zz.Assert(a.IsAutoincrement == b.IsAutoincrement, label(p, "autoincrement flag"))
			zz.Assert(a.Collate == b.Collate, label(p, "collation"))
		}
	}
	for _, p := range []int{8, 15, 16, 20} {
		if want(args, p) {
			zz.Assert(a.Name == b.Name, label(p, "constraint name"))
		}
	}
	for _, p := range []int{10, 15, 16} {
		if want(args, p) {
			zz.Assert(a.Check == b.Check, label(p, "check expression"))
		}
	}
	for _, p := range []int{9, 10, 15, 16} {
		if want(args, p) {
			sameDefault(p, a.Default, def)
		}
	}
	for _, p := range []int{12, 15, 16} {
		if want(args, p) {
			sameRef(p, &a.References, &b.References)
		}
	}
}

func sameDefault(p int, got interface{}, w spec.Default) {
	switch x := got.(type) {
	case nil:
		zz.Assert(w.Kind == 0, label(p, "default is not nil"))
	case string:
		zz.Assert(w.Kind == 2, label(p, "default is not a text"))
		if w.Kind == 2 {
			zz.Assert(x == w.S, label(p, "default text"))
		}
	case float64:
		zz.Assert(w.Kind == 1, label(p, "default is not a number"))
		if w.Kind == 1 {
			zz.Assert(x == w.N, label(p, "default number"))
		}
	case bool:
		zz.Assert(w.Kind == 3 || w.Kind == 4, label(p, "default is not a boolean"))
		zz.Assert(x == (w.Kind == 3), label(p, "default boolean"))
	default:
		zz.Assert(false, label(p, "default has another type"))
	}
}

func sameRef(p int, g, w *ddl.Reference) {
	zz.Assert(g.TableName == w.TableName, label(p, "referenced table"))
	if w.ColumnNames == nil || len(w.ColumnNames) > 0 {
		zz.Assert((g.ColumnNames == nil) == (w.ColumnNames == nil), label(p, "referenced columns given or not"))
	}
	sameNames(g.ColumnNames, w.ColumnNames, label(p, "referenced columns"))
}

func sameNames(g, w []string, label string) {
	zz.Assert(len(g) == len(w), label)
	for i := range w {
		if i < len(g) {
			zz.Assert(g[i] == w[i], label)
		}
	}
}

func sameConstraints(args []int, g, w *ddl.TableConstraint) {
	for _, p := range []int{11, 15, 16, 20} {
		if !want(args, p) {
			continue
		}
		zz.Assert(len(g.PrimaryKey) == len(w.PrimaryKey), label(p, "number of primary keys"))
		for i := range w.PrimaryKey {
			if i < len(g.PrimaryKey) {
				zz.Assert(g.PrimaryKey[i].Name == w.PrimaryKey[i].Name, label(p, "primary key name"))
				sameNames(g.PrimaryKey[i].ColumnNames, w.PrimaryKey[i].ColumnNames, label(p, "primary key columns"))
			}
		}
		zz.Assert(len(g.Unique) == len(w.Unique), label(p, "number of unique constraints"))
		for i := range w.Unique {
			if i < len(g.Unique) {
				zz.Assert(g.Unique[i].Name == w.Unique[i].Name, label(p, "unique constraint name"))
				sameNames(g.Unique[i].ColumnNames, w.Unique[i].ColumnNames, label(p, "unique constraint columns"))
			}
		}
		zz.Assert(len(g.Check) == len(w.Check), label(p, "number of check constraints"))
		for i := range w.Check {
			if i < len(g.Check) {
				zz.Assert(g.Check[i].Name == w.Check[i].Name, label(p, "check constraint name"))
			}
		}
		zz.Assert(len(g.ForeignKey) == len(w.ForeignKey), label(p, "number of foreign keys"))
		for i := range w.ForeignKey {
			if i < len(g.ForeignKey) {
				zz.Assert(g.ForeignKey[i].Name == w.ForeignKey[i].Name, label(p, "foreign key name"))
				sameNames(g.ForeignKey[i].ColumnNames, w.ForeignKey[i].ColumnNames, label(p, "foreign key columns"))
			}
		}
	}
	for _, p := range []int{10, 11, 15, 16} {
		if want(args, p) {
			for i := range w.Check {
				zz.Assert(i < len(g.Check), label(p, "a check expression is missing"))
				if i < len(g.Check) {
					zz.Assert(g.Check[i].Expr == w.Check[i].Expr, label(p, "check constraint expression"))
				}
			}
		}
	}
	for _, p := range []int{12, 15, 16} {
		if want(args, p) {
			for i := range w.ForeignKey {
				zz.Assert(i < len(g.ForeignKey), label(p, "a foreign key is missing"))
				if i < len(g.ForeignKey) {
					sameRef(p, &g.ForeignKey[i].References, &w.ForeignKey[i].References)
				}
			}
		}
	}
}
