package h

import (
	ddl "github.com/kodaimura/ddlparse"
	"github.com/kodaimura/ddlparse/internal/zzverif/spec"
	"github.com/kodaimura/ddlparse/internal/zzverif/zz"
)

// ---- comparing results

func eqNames(a, b []string) bool {
	if len(a) != len(b) || (a == nil) != (b == nil) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func eqList(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func assertNames(a, b []string, l string) {
	zz.Assert(len(a) == len(b), l)
	for i := range a {
		if i < len(b) {
			zz.Assert(a[i] == b[i], l)
		}
	}
}

func assertDefault(a, b interface{}, l string) {
	switch x := a.(type) {
	case nil:
		zz.Assert(b == nil, l)
	case string:
		y, ok := b.(string)
		zz.Assert(ok, l)
		if ok {
			zz.Assert(x == y, l)
		}
	case float64:
		y, ok := b.(float64)
		zz.Assert(ok, l)
		if ok {
			zz.Assert(x == y, l)
		}
	case bool:
		y, ok := b.(bool)
		zz.Assert(ok, l)
		if ok {
			zz.Assert(x == y, l)
		}
	default:
		zz.Assert(false, l)
	}
}

func assertRef(a, b *ddl.Reference, l string) {
	zz.Assert(a.TableName == b.TableName, l)
	zz.Assert((a.ColumnNames == nil) == (b.ColumnNames == nil), l)
	assertNames(a.ColumnNames, b.ColumnNames, l)
}

func assertColumn(a, b *ddl.Column, l string) {
	zz.Assert(a.Name == b.Name, l)
	zz.Assert(a.DataType.Name == b.DataType.Name, l)
	zz.Assert(a.DataType.DigitN == b.DataType.DigitN, l)
	zz.Assert(a.DataType.DigitM == b.DataType.DigitM, l)
	x, y := &a.Constraint, &b.Constraint
	zz.Assert(x.Name == y.Name, l)
	zz.Assert(x.IsPrimaryKey == y.IsPrimaryKey, l)
	zz.Assert(x.IsUnique == y.IsUnique, l)
	zz.Assert(x.IsNotNull == y.IsNotNull, l)
	zz.Assert(x.IsAutoincrement == y.IsAutoincrement, l)
	assertDefault(x.Default, y.Default, l)
	zz.Assert(x.Check == y.Check, l)
	zz.Assert(x.Collate == y.Collate, l)
	assertRef(&x.References, &y.References, l)
}

func assertColumns(a, b []ddl.Column, l string) {
	zz.Assert(len(a) == len(b), l)
	for i := range a {
		if i < len(b) {
			assertColumn(&a[i], &b[i], l)
		}
	}
}

func assertConstraints(a, b *ddl.TableConstraint, l string) {
	zz.Assert(len(a.PrimaryKey) == len(b.PrimaryKey), l)
	for i := range a.PrimaryKey {
		if i < len(b.PrimaryKey) {
			zz.Assert(a.PrimaryKey[i].Name == b.PrimaryKey[i].Name, l)
			assertNames(a.PrimaryKey[i].ColumnNames, b.PrimaryKey[i].ColumnNames, l)
		}
	}
	zz.Assert(len(a.Unique) == len(b.Unique), l)
	for i := range a.Unique {
		if i < len(b.Unique) {
			zz.Assert(a.Unique[i].Name == b.Unique[i].Name, l)
			assertNames(a.Unique[i].ColumnNames, b.Unique[i].ColumnNames, l)
		}
	}
	zz.Assert(len(a.Check) == len(b.Check), l)
	for i := range a.Check {
		if i < len(b.Check) {
			zz.Assert(a.Check[i].Name == b.Check[i].Name, l)
			zz.Assert(a.Check[i].Expr == b.Check[i].Expr, l)
		}
	}
	zz.Assert(len(a.ForeignKey) == len(b.ForeignKey), l)
	for i := range a.ForeignKey {
		if i < len(b.ForeignKey) {
			zz.Assert(a.ForeignKey[i].Name == b.ForeignKey[i].Name, l)
			assertNames(a.ForeignKey[i].ColumnNames, b.ForeignKey[i].ColumnNames, l)
			assertRef(&a.ForeignKey[i].References, &b.ForeignKey[i].References, l)
		}
	}
}

func assertTables(a, b []ddl.Table, l string) {
	zz.Assert(len(a) == len(b), l)
	for i := range a {
		if i < len(b) {
			assertTable(&a[i], &b[i], l)
		}
	}
}

func assertTable(a, b *ddl.Table, l string) {
	zz.Assert(a.Schema == b.Schema, l)
	zz.Assert(a.Name == b.Name, l)
	zz.Assert(a.IfNotExists == b.IfNotExists, l)
	assertColumns(a.Columns, b.Columns, l)
	assertConstraints(&a.Constraints, &b.Constraints, l)
}

func assertError(a, b error, l string) {
	zz.Assert((a == nil) == (b == nil), l)
	if a == nil || b == nil {
		return
	}
	x, ok1 := a.(ddl.ValidateError)
	y, ok2 := b.(ddl.ValidateError)
	zz.Assert(ok1 == ok2, l)
	if ok1 && ok2 {
		zz.Assert(x.Near == y.Near, l)
		zz.Assert(x.Line == y.Line, l)
	}
}

// ---- what the specification says about two texts

func specEqual(a, b spec.Result) bool {
	if len(a.Tables) != len(b.Tables) {
		return false
	}
	for i := range a.Tables {
		x, y := &a.Tables[i], &b.Tables[i]
		if x.Schema != y.Schema || x.Name != y.Name || x.IfNotExists != y.IfNotExists || len(x.Columns) != len(y.Columns) {
			return false
		}
		for j := range x.Columns {
			c, e := &x.Columns[j], &y.Columns[j]
			p, q := &c.Constraint, &e.Constraint
			if c.Name != e.Name || c.DataType != e.DataType || p.Name != q.Name || p.IsPrimaryKey != q.IsPrimaryKey || p.IsUnique != q.IsUnique ||
				p.IsNotNull != q.IsNotNull || p.IsAutoincrement != q.IsAutoincrement || p.Check != q.Check || p.Collate != q.Collate ||
				p.References.TableName != q.References.TableName || !eqNames(p.References.ColumnNames, q.References.ColumnNames) {
				return false
			}
			f, g := a.Defaults[i][j], b.Defaults[i][j]
			if f.Kind != g.Kind || f.S != g.S || f.N != g.N {
				return false
			}
		}
		p, q := &x.Constraints, &y.Constraints
		if len(p.PrimaryKey) != len(q.PrimaryKey) || len(p.Unique) != len(q.Unique) || len(p.Check) != len(q.Check) || len(p.ForeignKey) != len(q.ForeignKey) {
			return false
		}
		for k := range p.PrimaryKey {
			if p.PrimaryKey[k].Name != q.PrimaryKey[k].Name || !eqList(p.PrimaryKey[k].ColumnNames, q.PrimaryKey[k].ColumnNames) {
				return false
			}
		}
		for k := range p.Unique {
			if p.Unique[k].Name != q.Unique[k].Name || !eqList(p.Unique[k].ColumnNames, q.Unique[k].ColumnNames) {
				return false
			}
		}
		for k := range p.Check {
			if p.Check[k].Name != q.Check[k].Name || p.Check[k].Expr != q.Check[k].Expr {
				return false
			}
		}
		for k := range p.ForeignKey {
			r, s := &p.ForeignKey[k], &q.ForeignKey[k]
			if r.Name != s.Name || !eqList(r.ColumnNames, s.ColumnNames) || r.References.TableName != s.References.TableName || !eqNames(r.References.ColumnNames, s.References.ColumnNames) {
				return false
			}
		}
	}
	return true
}

// ---- harnesses over several calls

// Pair: two texts that the specification reads alike give the same tables (C13, C14, C16).
func Pair(mode int, d int, args []int, texts [][]string) {
	ta, tb := zz.Text(mode, texts[0]), zz.Text(mode, texts[1])
	sa := spec.Read(d, ta)
	if sa.Open || !sa.Ok {
		return
	}
	sb := spec.Read(d, tb)
	if sb.Open || !sb.Ok {
		return
	}
	if !specEqual(sa, sb) {
		return
	}
	zz.Reach("both texts accepted, same tables by the specification")
	l := label(args[0], "the same tables")
	a, ea := ddl.Parse(ta, dialects[d])
	b, eb := ddl.Parse(tb, dialects[d])
	zz.Assert((ea == nil) == (eb == nil), label(args[0], "both accepted or both rejected"))
	if ea != nil || eb != nil {
		return
	}
	assertTables(a, b, l)
}

// Layout: two texts that differ only in white space and comments give the same tables (C14).
func Layout(mode int, d int, args []int, texts [][]string) {
	ta, tb := zz.Text(mode, texts[0]), zz.Text(mode, texts[1])
	la, lb := spec.Lex(d, ta), spec.Lex(d, tb)
	zz.Assume(la.Bad == lb.Bad && len(la.T) == len(lb.T))
	if la.Bad {
		return
	}
	for i := range la.T {
		zz.Assume(la.T[i].S == lb.T[i].S)
	}
	zz.Reach("same tokens")
	a, ea := ddl.Parse(ta, dialects[d])
	b, eb := ddl.Parse(tb, dialects[d])
	zz.Assert((ea == nil) == (eb == nil), label(args[0], "both accepted or both rejected"))
	if ea != nil || eb != nil {
		return
	}
	assertTables(a, b, label(args[0], "the same tables"))
}

func join(a, b []string) []string {
	out := []string{}
	out = append(out, a...)
	return append(out, b...)
}

// Concat: texts one after the other (C17).
func Concat(mode int, d int, args []int, texts [][]string) {
	ta, tb := zz.Text(mode, texts[0]), zz.Text(mode, texts[1])
	a, ea := ddl.Parse(ta, dialects[d])
	if ea != nil {
		return
	}
	la := spec.Lex(d, ta)
	if la.Bad || len(la.T) == 0 || la.T[len(la.T)-1].S != ";" {
		return
	}
	b, eb := ddl.Parse(tb, dialects[d])
	tc := zz.Text(mode, join(texts[0], texts[1]))
	c, ec := ddl.Parse(tc, dialects[d])
	if eb == nil {
		zz.Reach("both accepted")
		zz.Assert(ec == nil, "C17 two accepted texts one after the other are accepted")
		if ec != nil {
			return
		}
		zz.Assert(len(c) == len(a)+len(b), "C17 the tables of both texts")
		for i := range c {
			if i < len(a) {
				assertTable(&a[i], &c[i], "C17 tables of the first text")
			} else if i-len(a) < len(b) {
				assertTable(&b[i-len(a)], &c[i], "C17 tables of the second text")
			}
		}
		return
	}
	zz.Reach("second rejected")
	zz.Assert(ec != nil, "C17 an error in the second text is reported")
	if ec == nil {
		return
	}
	x, ok1 := eb.(ddl.ValidateError)
	y, ok2 := ec.(ddl.ValidateError)
	if ok1 && ok2 {
		zz.Assert(x.Near == y.Near, "C17 Near of the second text's error")
		zz.Assert(x.Line+la.Last-1 == y.Line, "C17 line of the second text's error")
	}
}

// Elems: table elements next to each other (C17). texts: head, first elements, second elements, tail.
func Elems(mode int, d int, args []int, texts [][]string) {
	comma := []string{","}
	if mode != 0 {
		comma = []string{" , "}
	}
	ta := zz.Text(mode, join(join(texts[0], texts[1]), texts[3]))
	tb := zz.Text(mode, join(join(texts[0], texts[2]), texts[3]))
	tc := zz.Text(mode, join(join(join(texts[0], texts[1]), comma), join(texts[2], texts[3])))
	a, ea := ddl.Parse(ta, dialects[d])
	if ea != nil {
		return
	}
	b, eb := ddl.Parse(tb, dialects[d])
	if eb != nil {
		return
	}
	sc := spec.Read(d, tc)
	if sc.Open || !sc.Ok {
		return
	}
	c, ec := ddl.Parse(tc, dialects[d])
	zz.Assert(ec == nil, "C17 elements accepted alone are accepted together")
	if ec != nil || len(a) == 0 || len(b) == 0 {
		return
	}
	zz.Reach("elements together")
	zz.Assert(len(c) == len(a), "C17 number of tables")
	k := len(a) - 1
	if k >= len(c) || len(b) != len(a) {
		return
	}
	x, y, z := &a[k], &b[k], &c[k]
	cols := []ddl.Column{}
	cols = append(cols, x.Columns...)
	cols = append(cols, y.Columns...)
	assertColumns(cols, z.Columns, "C17 columns of both elements")
	var tcs ddl.TableConstraint
	tcs.PrimaryKey = append(append(tcs.PrimaryKey, x.Constraints.PrimaryKey...), y.Constraints.PrimaryKey...)
	tcs.Unique = append(append(tcs.Unique, x.Constraints.Unique...), y.Constraints.Unique...)
	tcs.Check = append(append(tcs.Check, x.Constraints.Check...), y.Constraints.Check...)
	tcs.ForeignKey = append(append(tcs.ForeignKey, x.Constraints.ForeignKey...), y.Constraints.ForeignKey...)
	assertConstraints(&tcs, &z.Constraints, "C17 constraints of both elements")
}

// Entry: the entry points agree (C19).
func Entry(mode int, d int, args []int, texts [][]string) {
	text := zz.Text(mode, texts[0])
	var ts [3][]ddl.Table
	var es [3]error
	for i := range dialects {
		ts[i], es[i] = ddl.Parse(text, dialects[i])
	}
	for i := range dialects {
		var t []ddl.Table
		var e error
		switch i {
		case 0:
			t, e = ddl.ParseSQLite(text)
		case 1:
			t, e = ddl.ParsePostgreSQL(text)
		default:
			t, e = ddl.ParseMySQL(text)
		}
		l := "C19 the entry point of " + [3]string{"SQLite", "PostgreSQL", "MySQL"}[i]
		assertError(es[i], e, l)
		assertTables(ts[i], t, l)
		zz.Assert((t == nil) == (ts[i] == nil), l)
	}
	t, e := ddl.ParseForce(text)
	for i := range dialects {
		if es[i] == nil {
			zz.Reach("dialect guessed")
			zz.Assert(e == nil, "C19 ParseForce accepts what a dialect accepts")
			if e == nil {
				assertTables(ts[i], t, "C19 ParseForce returns the tables of the first dialect that accepts")
			}
			return
		}
	}
	zz.Reach("no dialect accepts")
	zz.Assert(e != nil, "C19 ParseForce rejects what every dialect rejects")
	zz.Assert(len(t) == 0, "C19 ParseForce returns no tables with an error")
	if e != nil {
		_, ok := e.(ddl.ValidateError)
		zz.Assert(ok, "C19 ParseForce returns a ValidateError")
	}
}

// ---- histories

func cloneTables(a []ddl.Table) []ddl.Table {
	if a == nil {
		return nil
	}
	out := make([]ddl.Table, len(a))
	for i := range a {
		out[i] = a[i]
		out[i].Columns = make([]ddl.Column, len(a[i].Columns))
		for j := range a[i].Columns {
			out[i].Columns[j] = a[i].Columns[j]
			out[i].Columns[j].Constraint.References.ColumnNames = cloneNames(a[i].Columns[j].Constraint.References.ColumnNames)
		}
		c := &a[i].Constraints
		var o ddl.TableConstraint
		for _, x := range c.PrimaryKey {
			x.ColumnNames = cloneNames(x.ColumnNames)
			o.PrimaryKey = append(o.PrimaryKey, x)
		}
		for _, x := range c.Unique {
			x.ColumnNames = cloneNames(x.ColumnNames)
			o.Unique = append(o.Unique, x)
		}
		for _, x := range c.Check {
			o.Check = append(o.Check, x)
		}
		for _, x := range c.ForeignKey {
			x.ColumnNames = cloneNames(x.ColumnNames)
			x.References.ColumnNames = cloneNames(x.References.ColumnNames)
			o.ForeignKey = append(o.ForeignKey, x)
		}
		out[i].Constraints = o
	}
	return out
}

func cloneNames(a []string) []string {
	if a == nil {
		return nil
	}
	out := make([]string, len(a))
	copy(out, a)
	return out
}

func spoilNames(a []string) {
	for i := range a {
		a[i] = "spoilt"
	}
	b := a[:cap(a)]
	for i := range b {
		b[i] = "spoilt"
	}
}

// spoil overwrites everything reachable from the tables.
func spoil(a []ddl.Table) {
	for i := range a {
		t := &a[i]
		for j := range t.Columns {
			spoilNames(t.Columns[j].Constraint.References.ColumnNames)
		}
		for j := range t.Columns {
			t.Columns[j] = ddl.Column{Name: "spoilt"}
		}
		cs := t.Columns[:cap(t.Columns)]
		for j := range cs {
			cs[j].Name = "spoilt"
		}
		c := &t.Constraints
		for j := range c.PrimaryKey {
			spoilNames(c.PrimaryKey[j].ColumnNames)
			c.PrimaryKey[j].Name = "spoilt"
		}
		for j := range c.Unique {
			spoilNames(c.Unique[j].ColumnNames)
			c.Unique[j].Name = "spoilt"
		}
		for j := range c.Check {
			c.Check[j] = ddl.Check{Name: "spoilt"}
		}
		for j := range c.ForeignKey {
			spoilNames(c.ForeignKey[j].ColumnNames)
			spoilNames(c.ForeignKey[j].References.ColumnNames)
			c.ForeignKey[j].Name = "spoilt"
		}
	}
	b := a[:cap(a)]
	for i := range b {
		b[i] = ddl.Table{Name: "spoilt"}
	}
}

// History: earlier calls do not change the outcome of a call, later calls do not change earlier
// results (C18). args: property, then the dialect of every text but the last; the last text is parsed
// with dialect d after the others and once more in a fresh program.
func History(mode int, d int, args []int, texts [][]string) {
	n := len(texts) - 1
	last := zz.Text(mode, texts[n])
	var ft []ddl.Table
	var fe error
	if zz.Symbolic() {
		ft, fe = ddl.Parse(last, dialects[d])
		ft = cloneTables(ft)
		zz.Fresh()
	}
	rep := 1
	if len(args) > n+1 {
		rep = args[n+1]
	}
	var res, keep [][]ddl.Table
	for r := 0; r < rep; r++ {
		for i := 0; i < n; i++ {
			t, _ := ddl.Parse(zz.Text(mode, texts[i]), dialects[args[1+i]])
			res = append(res, t)
			keep = append(keep, cloneTables(t))
		}
	}
	t, e := ddl.Parse(last, dialects[d])
	if zz.Symbolic() {
		assertError(fe, e, "C18 the error does not depend on earlier calls")
		assertTables(ft, t, "C18 the tables do not depend on earlier calls")
	} else {
		zz.Assert(zz.FreshParse(d, last) == zz.Render(t, e), "C18 the tables do not depend on earlier calls")
	}
	for i := range res {
		assertTables(keep[i], res[i], "C18 returned tables are not changed by later calls")
	}
	k := cloneTables(t)
	for i := range res {
		spoil(res[i])
	}
	assertTables(k, t, "C18 returned tables do not share memory")
	spoil(t)
	t2, e2 := ddl.Parse(last, dialects[d])
	assertError(e, e2, "C18 changing returned tables does not affect later calls")
	assertTables(k, t2, "C18 changing returned tables does not affect later calls")
	for i := 0; i < n && i < 2; i++ {
		t3, _ := ddl.Parse(zz.Text(mode, texts[i]), dialects[args[1+i]])
		assertTables(keep[i], t3, "C18 the tables do not depend on earlier calls")
	}
	zz.Reach("history compared")
}

// Steady: a call leaves memory that outlives it as it was, so that histories of any length are
// covered by the initial state (C18). Not an assertion: a call that writes is only noted.
func Steady(mode int, d int, args []int, texts [][]string) {
	zz.Mark()
	ddl.Parse(zz.Text(mode, texts[0]), dialects[d])
	n := zz.Writes()
	zz.EndMark()
	if n == 0 {
		zz.Reach("the call left all older memory unchanged")
	} else {
		zz.Reach("the call wrote older memory")
	}
}

// Conc: two copies of a call (or two different calls) may run at the same time (C21). args:
// property, dialect of the second text.
func Conc(mode int, d int, args []int, texts [][]string) {
	ta := zz.Text(mode, texts[0])
	if !zz.Symbolic() {
		d2, tb := d, ta
		if len(texts) > 1 {
			d2, tb = args[1], zz.Text(mode, texts[1])
		}
		zz.Concurrent(func() string { t, e := ddl.Parse(ta, dialects[d]); return zz.Render(t, e) }, zz.FreshParse(d, ta),
			func() string { t, e := ddl.Parse(tb, dialects[d2]); return zz.Render(t, e) }, zz.FreshParse(d2, tb), "C21 a concurrent call returns what it would return alone")
		return
	}
	zz.Mark()
	ddl.Parse(ta, dialects[d])
	if len(texts) > 1 {
		zz.Second()
		ddl.Parse(zz.Text(mode, texts[1]), dialects[args[1]])
	}
	n := zz.Unsynced()
	zz.EndMark()
	zz.Assert(n == 0, "C21 data race")
	zz.Reach("accesses compared")
}

// Parse is the call that a process of its own makes (native only).
func Parse(d int, text string) string {
	t, e := ddl.Parse(text, dialects[d])
	return zz.Render(t, e)
}
