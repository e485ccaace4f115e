package main

import (
	"strconv"
	"strings"
)

// build returns the scenarios of a property. Those that aim at the property come first, the broad
// families follow; a time limit cuts from the end and is reported.
func buildScen(v *Vocab, prop int, thorough bool) *SB {
	b := &SB{v: v, prop: prop, thorough: thorough, fam: map[string]int{}}
	switch prop {
	case 1, 2:
		b.propC01()
	case 3:
		b.propC03()
	case 4, 5:
		b.propC04()
	case 6:
		b.propC06()
	case 7:
		b.propC07()
	case 8:
		b.propC08()
	case 9:
		b.propC09()
	case 10:
		b.propC10()
	case 11:
		b.propC11()
	case 12:
		b.propC12()
	case 13:
		b.propC13()
	case 14:
		b.propC14()
	case 15:
		b.propC15()
	case 16:
		b.propC16()
	case 17:
		b.propC17()
	case 18:
		b.propC18()
	case 19:
		b.propC19()
	case 20:
		b.propC20()
	case 21:
		b.propC21()
	}
	return b
}

func (b *SB) hole(d int) *Domain     { return b.v.holeOf(dn("hole", d), b.v.full(d)) }
func (b *SB) midHole(d int) *Domain  { return b.v.holeOf(dn("mhole", d), b.v.mid(d)) }
func (b *SB) nameHole(d int) *Domain { return b.v.names(d) }

func all3(f func(d int)) {
	for d := 0; d < 3; d++ {
		f(d)
	}
}

var allSlots = []string{"stmt0", "head", "tname", "cname", "type", "c1", "c2", "e1", "e2", "opt", "stmt1"}

// base: the families that every property over single calls shares.
func (b *SB) base(kinds string, slots ...string) {
	b.lexLemma()
	if kinds != "" {
		all3(func(d int) { b.slide("slide", d, sentences(d, kinds), b.hole(d), 0) })
		b.bound("one free token (%d, %d, %d values: every grammar word in 3 spellings, reserved words, names, numbers, quoted forms, symbols, odd characters, the repository's own constants) or none, in place of, before and after every token of every phrase (kinds %q)", len(b.v.full(0).vals), len(b.v.full(1).vals), len(b.v.full(2).vals), kinds)
	}
	if len(slots) > 1 {
		b.pairs("pair", slots...)
		b.bound("all combinations of two phrases in the places %s of a CREATE TABLE text", strings.Join(slots, ", "))
	}
}

func (b *SB) free(fam, h string, d int, tmpl string, doms ...*Domain) *Scenario {
	s := b.add(fam, h, 0, d, one(tk(tmpl)), doms)
	s.MaxPath = 60000
	return s
}

// freeRun: n free tokens in a row.
func (b *SB) freeRun(fam string, d int, pre, post string, n int, dom *Domain) *Scenario {
	var vars []*Domain
	mid := ""
	for i := 0; i < n; i++ {
		vars = append(vars, dom)
		mid += " {" + strconv.Itoa(i) + "}"
	}
	return b.free(fam, "Main", d, pre+mid+" "+post, vars...)
}

// big: sizes beyond what tests use: repetitions of one part, with a free token at the end.
func (b *SB) sizes() []int {
	out := []int{40, 130, 300}
	if b.thorough {
		out = append(out, 17, 65, 700, 1100)
	}
	n := 0
	for _, c := range b.v.repoInt {
		if c >= 4 && c <= 3000 && c != 64 && n < 8 {
			out = append(out, c+1, c)
			n++
		}
	}
	m := map[int]bool{}
	var u []int
	for _, x := range out {
		if !m[x] {
			m[x] = true
			u = append(u, x)
		}
	}
	return u
}

func rep(n int, f func(i int) string) string {
	var sb strings.Builder
	for i := 0; i < n; i++ {
		sb.WriteString(f(i))
		sb.WriteByte(' ')
	}
	return sb.String()
}

func (b *SB) big(kinds string) {
	for _, n := range b.sizes() {
		all3(func(d int) {
			T := typ(d)
			is := func(s string) bool { return strings.Contains(kinds, s) }
			mid := b.midHole(d)
			cl := b.ph("clause", d, phrases[d].clauses)
			el := b.ph("elemPlain", d, phrases[d].elements)
			if n >= 300 {
				mid = b.ph("bigmid", d, []string{"", "NOT NULL", "x", ",", ")", "1"})
				cl = b.ph("clause6", d, shortList(phrases[d].clauses, 6))
				el = b.ph("elem6", d, shortList(phrases[d].elements, 6))
			}
			if is("c") { // many columns
				cols := rep(n, func(i int) string { return "c" + strconv.Itoa(i) + " " + T + " ," })
				b.free("big", "Main", d, "CREATE TABLE t ( "+cols+" a "+T+" {0} , b "+T+" ) ;", cl)
				b.free("big", "Main", d, "CREATE TABLE t ( "+cols+" {0} ) ;", el)
				b.free("big", "Main", d, "CREATE TABLE t ( a "+T+" {0} , "+cols+" z "+T+" ) ;", cl)
			}
			if is("d") { // nesting
				o, c := strings.Repeat("( ", n), strings.Repeat(") ", n)
				b.free("big", "Main", d, "CREATE TABLE t ( a "+T+" CHECK ( "+o+" {0} "+c+" ) , b "+T+" ) ;", mid)
				b.free("big", "Main", d, "CREATE TABLE t ( a "+T+" DEFAULT ( "+o+" x "+c+" {0} ) ;", mid)
				b.free("big", "Main", d, "CREATE TABLE t ( a "+T+" , CHECK ( "+o+" x "+c+" ) {0} ) ;", mid)
			}
			if is("x") { // long expressions
				x := rep(n, func(i int) string { return []string{"x", ",", "'l'", "+", "Y1"}[i%5] })
				b.free("big", "Main", d, "CREATE TABLE t ( a "+T+" CHECK ( "+x+" {0} ) , b "+T+" ) ;", mid)
				b.free("big", "Main", d, "CREATE TABLE t ( a "+T+" DEFAULT ( "+x+" ) {0} , CHECK ( {1} "+x+" ) ) ;", cl, b.v.mid(d))
			}
			if is("s") { // many statements
				s := rep(n, func(i int) string {
					return []string{"CREATE TABLE t" + strconv.Itoa(i) + " ( a " + T + " ) ;", "CREATE VIEW v AS SELECT 1 ;"}[i%2]
				})
				b.free("big", "Main", d, s+" CREATE TABLE {0} ( a "+T+" ) ;", b.ph("tname", d, []string{"t"}))
				b.free("big", "Main", d, s+" {0}", b.ph("stmt0", d, []string{""}))
			}
			if is("l") { // many columns in a list
				l := rep(n, func(i int) string { return "c" + strconv.Itoa(i) + " ," })
				b.free("big", "Main", d, "CREATE TABLE t ( c "+T+" , PRIMARY KEY ( "+l+" {0} ) ) ;", b.v.mid(d))
				b.free("big", "Main", d, "CREATE TABLE t ( c "+T+" , UNIQUE ( "+l+" {0} ) ) ;", b.v.mid(d))
				b.free("big", "Main", d, "CREATE TABLE t ( c "+T+" , FOREIGN KEY ( "+l+" c ) REFERENCES o ( "+l+" {0} ) ) ;", b.v.mid(d))
			}
			if is("k") { // many table constraints
				k := rep(n, func(i int) string {
					return []string{", UNIQUE ( c )", ", CHECK ( c )", ", FOREIGN KEY ( c ) REFERENCES o ( x )", ", CONSTRAINT k" + strconv.Itoa(i) + " UNIQUE ( c , d )"}[i%4]
				})
				b.free("big", "Main", d, "CREATE TABLE t ( c "+T+" "+k+" , {0} ) ;", el)
			}
			if is("n") { // long names and texts
				nm := strings.Repeat("n", n)
				b.free("big", "Main", d, "CREATE TABLE "+nm+" ( "+nm+"a "+T+" {0} , b "+T+" CHECK ( "+nm+" ) REFERENCES "+nm+" ( "+nm+" ) , PRIMARY KEY ( "+nm+" ) ) ;", cl)
				b.free("big", "Main", d, "CREATE TABLE s"+nm+" . t ( a "+T+" DEFAULT '"+nm+"' {0} ) ;", cl)
			}
			if is("w") { // many newlines before and between
				nl := strings.Repeat("↵ ", n)
				b.free("big", "Main", d, nl+" CREATE TABLE t ( a "+nl+" "+T+" {0} , b "+T+" ) ;", mid)
			}
		})
	}
	b.bound("sizes %v of: %s (c columns, d nesting depth, x expression tokens, s statements, l listed columns, k table constraints, n name length, w newlines), each with one free phrase or token", b.sizes(), kinds)
}

// qid: an identifier in the dialect's quotes.
func qid(d int, s string) string {
	if dialectNames[d] == "MySQL" {
		return "`" + s + "`"
	}
	return "\"" + s + "\""
}

// huge: sizes beyond the range of 16-bit counters.
func (b *SB) huge(kinds string) {
	n := 2100
	if b.thorough {
		n = 66000
	}
	all3(func(d int) {
		T := typ(d)
		is := func(s string) bool { return strings.Contains(kinds, s) }
		few := b.v.dom("few", func() []string { return []string{"", "NOT NULL", "%", "UNIQUE", ")"} })
		add := func(t string) {
			b.add("huge", "Main", 1, d, one(ch(t)), []*Domain{few}).Huge = true
		}
		nl := strings.Repeat("\n", n)
		if is("w") {
			two := b.v.dom("two", func() []string { return []string{"", "%"} })
			b.add("huge", "Main", 1, d, one(ch(strings.Repeat("\n", 66000)+"CREATE TABLE t (a "+T+" {0});")), []*Domain{two}).Huge = true
			add("/*" + nl + "*/CREATE TABLE t (a " + T + " DEFAULT '" + nl + "' {0});")
			add("CREATE TABLE t (a " + T + " CHECK (x" + strings.Repeat("--\n", n) + ") {0});")
		}
		if is("n") {
			nm := strings.Repeat("n", n)
			add("CREATE TABLE " + nm + " (" + nm + "a " + T + " {0}, CONSTRAINT " + nm + " CHECK (" + nm + "));")
		}
		if is("q") {
			q := qid(d, strings.Repeat("q ", n))
			add("CREATE TABLE " + q + " (" + q + " " + T + " DEFAULT '" + strings.Repeat("'';", n) + "' {0});")
		}
		if is("m") {
			add("/*" + strings.Repeat("* /", n) + "*/ CREATE TABLE t (a " + T + " {0}); --" + strings.Repeat(";", n))
			add(strings.Repeat(" ", n) + "CREATE TABLE t (a " + T + strings.Repeat("\t ", n) + "{0});" + strings.Repeat("\r\n", n))
		}
		if is("x") {
			x := strings.Repeat("x + ", n)
			add("CREATE TABLE t (a " + T + " CHECK (" + x + "x) {0});")
		}
	})
	if kinds == "w" {
		b.bound("66000 newlines before a statement with a free clause")
	}
	b.bound("sizes %d of: %s (w newlines, n name length, q quoted text length, m length of comments and blanks, x expression tokens), with a free clause", n, kinds)
}

// dups: the same names and parts several times, in all combinations.
func (b *SB) dups(kinds string) {
	all3(func(d int) {
		T := typ(d)
		nm := b.v.dom(dn("dupn", d), func() []string {
			return b.v.filter(d, []string{"x", "y", "X", "\"x\"", "`x`", "\"X\"", "z1"})
		})
		ex := b.v.dom("dupx", func() []string { return []string{"x", "y", "X", "1", "'x'"} })
		is := func(s string) bool { return strings.Contains(kinds, s) }
		f := func(t string, ds ...*Domain) { b.free("dups", "Main", d, t, ds...) }
		if is("t") {
			f("CREATE TABLE {0} ( a1 "+T+" ) ; CREATE TABLE {1} ( a2 "+T+" ) ; CREATE TABLE IF NOT EXISTS {2} ( a3 "+T+" ) ; CREATE TABLE {3} . {0} ( a4 "+T+" ) ;", nm, nm, nm, nm)
			f("CREATE TABLE {0} . {1} ( a1 "+T+" ) ; CREATE VIEW {2} AS SELECT 1 ; CREATE TABLE {2} . {3} ( a1 "+T+" ) ;", nm, nm, nm, nm)
		}
		if is("c") {
			f("CREATE TABLE x ( {0} "+T+" , {1} "+T+" NOT NULL , {2} "+T+" , {3} "+T+" ) ;", nm, nm, nm, nm)
			f("CREATE TABLE {0} ( {1} "+T+" , {2} "+T+" REFERENCES {0} ( {1} ) , UNIQUE ( {2} ) ) ; CREATE TABLE x ( {0} "+T+" , {1} "+T+" UNIQUE ) ;", nm, nm, nm)
		}
		if is("l") {
			for _, k := range []string{"PRIMARY KEY", "UNIQUE", "CONSTRAINT k UNIQUE"} {
				f("CREATE TABLE t ( c "+T+" , "+k+" ( {0} , {1} , {2} , {3} ) ) ;", nm, nm, nm, nm)
				f("CREATE TABLE t ( {0} "+T+" , {1} "+T+" , "+k+" ( {2} , {3} ) , "+k+" ( {3} , {2} ) ) ;", nm, nm, nm, nm)
				f("CREATE TABLE t ( {0} "+T+" PRIMARY KEY UNIQUE , "+k+" ( {1} ) , "+k+" ( {2} ) , "+k+" ( {1} ) ) ;", nm, nm, nm)
			}
			f("CREATE TABLE t ( c "+T+" , FOREIGN KEY ( {0} , {1} , {2} ) REFERENCES o ( {2} , {3} , {1} ) ) ;", nm, nm, nm, nm)
			f("CREATE TABLE t ( c "+T+" , CONSTRAINT {0} UNIQUE ( {1} ) , CONSTRAINT {2} UNIQUE ( {3} ) , CONSTRAINT {0} CHECK ( {1} ) , CONSTRAINT {2} FOREIGN KEY ( {3} ) REFERENCES {0} ( {1} ) ) ;", nm, nm, nm, nm)
			f("CREATE TABLE t ( c "+T+" , CONSTRAINT {0} CHECK ( {1} ) , CHECK ( {2} ) , CHECK ( {3} ) , CHECK ( {1} ) ) ;", nm, ex, ex, ex)
			f("CREATE TABLE t ( c "+T+" , CONSTRAINT {0} PRIMARY KEY ( {1} ) , CONSTRAINT {2} PRIMARY KEY ( {3} ) , CONSTRAINT {0} UNIQUE ( {1} ) ) ;", nm, nm, nm, nm)
		}
		if is("r") {
			f("CREATE TABLE {0} ( {1} "+T+" REFERENCES {2} ( {3} ) , {2} "+T+" REFERENCES {0} , FOREIGN KEY ( {1} ) REFERENCES {2} ( {3} ) , FOREIGN KEY ( {1} ) REFERENCES {0} ) ;", nm, nm, nm, nm)
			f("CREATE TABLE t ( a1 "+T+" REFERENCES {0} . {1} ( {2} ) , FOREIGN KEY ( {3} , {2} ) REFERENCES {1} . {0} ( {2} , {3} ) ) ;", nm, nm, nm, nm)
			f("CREATE TABLE t ( a1 "+T+" , FOREIGN KEY ( {0} , {1} , {0} ) REFERENCES {2} ( {3} , {2} , {3} ) , FOREIGN KEY ( {1} ) REFERENCES {2} ) ;", nm, nm, nm, nm)
		}
		if is("x") {
			f("CREATE TABLE t ( {0} "+T+" DEFAULT {1} CHECK ( {2} ) , y "+T+" DEFAULT {2} CHECK ( {1} ) , z1 "+T+" DEFAULT ( {3} ) CHECK ( {3} ) , CHECK ( {1} ) , CHECK ( {2} ) ) ;", nm, ex, ex, ex)
			f("CREATE TABLE t ( a1 "+T+" CHECK ( {0} {1} {2} {3} ) , y "+T+" DEFAULT ( {0} {0} {1} {1} ) ) ;", ex, ex, ex, ex)
		}
		if is("n") && d != 2 {
			f("CREATE TABLE {0} ( {1} "+T+" CONSTRAINT {2} UNIQUE , {3} "+T+" CONSTRAINT {2} NOT NULL , z1 "+T+" CONSTRAINT {0} CHECK ( {1} ) , CONSTRAINT {2} UNIQUE ( {3} ) ) ;", nm, nm, nm, nm)
		}
		if is("n") && d == 2 {
			f("CREATE TABLE {0} ( {1} "+T+" CONSTRAINT {2} CHECK ( {3} ) , {3} "+T+" COLLATE {2} , z1 "+T+" CONSTRAINT {0} CHECK ( {1} ) , CONSTRAINT {2} UNIQUE ( {3} ) ) ;", nm, nm, nm, nm)
		}
	})
	b.bound("equal names and parts: up to 4 variables over 5-7 spellings of the same and other names (%s: t tables, c columns, l lists and constraints, r references, x expressions, n constraint names)", kinds)
}

// charTemplates: places of a text in which free characters are put.
func charTemplates(d int) []string {
	T := typ(d)
	q := "\""
	if d == 2 {
		q = "`"
	}
	out := []string{
		"{0}",
		"CREATE TABLE t (a " + T + ");{0}",
		"{0}CREATE TABLE t (a " + T + ");",
		"CREATE{0}TABLE t (a " + T + ");",
		"CREATE TABLE t{0}(a " + T + ");",
		"CREATE TABLE {0} (a " + T + ");",
		"CREATE TABLE s{0}t (a " + T + ");",
		"CREATE TABLE t ({0} " + T + ");",
		"CREATE TABLE t (a " + T + "{0}",
		"CREATE TABLE t (a " + T + "{0});",
		"CREATE TABLE t (a " + T + "{0}b " + T + ");",
		"CREATE TABLE t (a " + T + "){0};",
		"CREATE TABLE t (a " + T + ") {0} CREATE TABLE u (b " + T + ");",
		"CREATE TABLE t (a " + T + " DEFAULT {0});",
		"CREATE TABLE t (a " + T + " DEFAULT {0}, b " + T + ");",
		"CREATE TABLE t (a " + T + " DEFAULT ({0}) UNIQUE);",
		"CREATE TABLE t (a " + T + " CHECK({0}) NOT NULL);",
		"CREATE TABLE t (a " + T + ", CHECK(x{0}y));",
		"CREATE TABLE t (a " + T + " DEFAULT '{0}' NOT NULL, b " + T + ");",
		"CREATE TABLE t (" + q + "{0}" + q + " " + T + ");",
		"CREATE TABLE t (a " + T + " REFERENCES {0} (x));",
		"CREATE TABLE t (a " + T + ", UNIQUE (a{0}));",
		"CREATE TABLE t (a " + T + " -- {0}\n);",
		"CREATE TABLE t (a /*{0}*/ " + T + ");",
		"/*{0}\nCREATE TABLE t (a " + T + ");",
		"--{0}CREATE TABLE t (a " + T + ");",
	}
	return out
}

func (b *SB) chars(n, nSmall int, pick func(i int, t string) bool) {
	all3(func(d int) {
		for i, t := range charTemplates(d) {
			if pick != nil && !pick(i, t) {
				continue
			}
			if n > 0 {
				b.charHole("chars", d, t, n, b.v.chars())
			}
			if nSmall > n {
				b.charHole("charsS", d, t, nSmall, b.v.charsSmall())
			}
		}
	})
	b.bound("%d free characters out of %d (and %d out of %d) in every character template", n, len(b.v.chars().vals), nSmall, len(b.v.charsSmall().vals))
}

// lexLemma: every token of the vocabulary goes through the real lexer inside a statement, with and
// without blanks around it.
func (b *SB) lexLemma() {
	all3(func(d int) {
		T := typ(d)
		for _, t := range []string{"CREATE TABLE {0}(x " + T + ");", "CREATE TABLE t(\n{0} " + T + ",y " + T + ");", "CREATE TABLE t(x " + T + " DEFAULT {0},y " + T + ");", "CREATE TABLE t(x " + T + " CHECK({0})NOT NULL);", "CREATE TABLE t(x " + T + ",\n{0}(x))\n;", "CREATE TABLE t(x " + T + "){0};", "{0} TABLE t(x " + T + ");"} {
			s := b.add("lex", "Main", 1, d, one(ch(t)), []*Domain{b.v.full(d)})
			s.MaxPath = 20000
		}
	})
	b.bound("every token of the vocabulary, as characters, through the lexer in 7 places next to symbols, blanks and newlines")
}

func pick(l ...string) func(int, string) bool {
	return func(i int, t string) bool {
		for _, s := range l {
			if strings.Contains(t, s) {
				return true
			}
		}
		return false
	}
}

// ---- the properties

func (b *SB) propC01() {
	b.chars(2, 3, nil)
	all3(func(d int) {
		b.bodies(d)
		b.trunc("trunc", d, sentences(d, "ceosr"), b.hole(d), "Main")
		T := typ(d)
		n := 3
		if b.thorough {
			n = 4
		}
		for _, f := range []string{"", "CREATE", "CREATE TABLE", "CREATE TABLE t (", "CREATE TABLE t ( a", "CREATE TABLE t ( a " + T, "CREATE TABLE t ( a " + T + " ,", "CREATE TABLE t ( a " + T + " )", "CREATE TABLE t ( a " + T + " CHECK (", "CREATE TABLE t ( a " + T + " , PRIMARY KEY", "CREATE TABLE t ( a " + T + " ) ;", "CREATE TRIGGER g BEGIN"} {
			b.freeRun("free", d, f, "", n, b.midHole(d))
			b.freeRun("free", d, f, ") ;", 2, b.midHole(d))
		}
	})
	b.bound("texts cut off after any token of any phrase, with one more free token; %s free tokens from the mid vocabulary after 12 beginnings", "2-4")
	b.base("tceosrmw", "stmt0", "c1", "c2", "e1", "e2", "opt", "stmt1")
	b.big("cdxslknw")
}

// separators used where layout matters; {L} marks the lines they add.
var separators = []string{" ", "\n", "\t", "\r\n", "  ", "\n\n", " \n ", "\r", "/**/", "/* c */", "/*\n*/", "/* a\n\n b */ ", "-- x\n", "--\n", "--\n--\n", "-- a\n\n-- b\n", "/***/", "/* ' */", "/* \" ` */", "-- it's\n", "/* ; ) */", "/*/*/", "/* -- */", "-- /*\n", "--CREATE TABLE q (z INT);\n", "/* CREATE TABLE q (z INT); */", " -- x\n /* y */ -- z\n", "/**//**/", "/* a *//* b */", "/* * */", "/* / */", "/*-*/", "\n\n\n\n", "---\n", "-- --\n", "/* # */", "\t\t", "/*\r\n*/", "--\r\n", "--x\r\n--y\r\n", "/* é名 */", "-- 名\n"}

func (b *SB) seps(d int) *Domain {
	return b.v.dom(dn("sep", d), func() []string {
		out := append([]string{}, separators...)
		if d == 2 {
			out = append(out, "#\n", "# x\n", "#'\n", "#--\n", "/* x */#\n", "# a\n# b\n", "-- a\n# b\n", "#/*\n", "##\n")
		}
		return out
	})
}

// sepTemplates: texts with separators as variables in every gap.
func sepTexts(d int) []string {
	T := typ(d)
	q := "\"q c\""
	if d == 2 {
		q = "`q c`"
	}
	return []string{
		"CREATE TABLE t ( a " + T + " NOT NULL , b " + T + " DEFAULT 'x' ) ;",
		"CREATE TABLE IF NOT EXISTS s . t ( " + q + " " + T + " PRIMARY KEY CHECK ( a > 1 ) , UNIQUE ( a , b ) ) ;",
		"CREATE TABLE t ( a " + T + " REFERENCES o ( x ) , CONSTRAINT k FOREIGN KEY ( a ) REFERENCES o ( x ) ) ; CREATE VIEW v AS SELECT 1 ;",
	}
}

func (b *SB) propC03() {
	b.huge("w")
	// newlines, comments and multi-line quoted text before the offending token
	all3(func(d int) {
		T := typ(d)
		bad := b.v.dom("badtok", func() []string { return []string{"%", "SELECT", ")", "(", ",", ";", "1", "'x'", ""} })
		sepL := b.seps(d)
		if !b.thorough {
			bad = b.v.dom("badtokS", func() []string { return []string{"%", ")", ",", "1", ""} })
			sepL = b.v.dom(dn("sepL", d), func() []string {
				out := []string{" ", "\n", "\n\n", "\r\n", " -- x\n", "/* x */", "/* a\nb */", "/*\n\n*/ -- y\n\n"}
				if d == 2 {
					out = append(out, " # x\n")
				}
				return out
			})
		}
		// in every gap: a separator, the rest of the statement cut or spoilt
		for _, t := range sepTexts(d) {
			f := toks(t)
			for k := 0; k <= len(f); k++ {
				pre := strings.ReplaceAll(strings.Join(f[:k], " "), "␣", " ")
				b.add("sepbad", "Main", 1, d, one(ch(pre+"{0}{1}")), []*Domain{sepL, bad})
				if k > 0 && k < len(f) {
					pre2 := strings.Join(f[:k-1], " ")
					b.add("sepbad", "Main", 1, d, one(ch(pre2+" "+f[k-1]+"{0}{1} "+strings.Join(f[k:], " "))), []*Domain{sepL, bad})
				}
			}
		}
		_ = T
		// quoted text with newlines in front of the offending token
		nlq := b.v.dom("nlq", func() []string {
			return []string{"a", "a\nb", "\n", "\n\n", "x\n\n\ny", "a''\nb", "--\n", "/*\n*/", "\r\n", "(\n"}
		})
		for _, t := range []string{"CREATE TABLE t (a " + T + " DEFAULT '{0}' {1}", "CREATE TABLE t (a " + T + " CHECK (x = '{0}') {1} );", "CREATE TABLE t (a " + T + " DEFAULT '{0}', b " + T + " DEFAULT '{0}' ) {1} ;", "CREATE VIEW v AS SELECT '{0}' ;\n {1}"} {
			b.add("nlq", "Main", 1, d, one(ch(t)), []*Domain{nlq, bad})
		}
		qs := []string{"\""}
		if d == 0 {
			qs = []string{"\"", "`"}
		} else if d == 2 {
			qs = []string{"`"}
		}
		for _, q := range qs {
			nq := b.v.dom("nlq2", func() []string { return []string{"a", "a\nb", "\n", "\n\n", "x\n\n\ny", "\r\n"} })
			for _, t := range []string{"CREATE TABLE " + q + "{0}" + q + " (a " + T + " {1}", "CREATE TABLE t (" + q + "{0}" + q + " " + T + " {1} );", "CREATE TABLE t (a " + T + ", UNIQUE (" + q + "{0}" + q + ") {1} %"} {
				b.add("nlq", "Main", 1, d, one(ch(t)), []*Domain{nq, bad})
			}
		}
		// two places with newlines
		nl := b.v.dom("nl", func() []string { return []string{" ", "\n", " \n\n ", "--\n", "/*\n\n*/"} })
		b.add("nl3", "Main", 1, d, one(ch("{0}CREATE TABLE t{1}(a "+T+");{2}CREATE{0}TABLE u (b{1}"+T+" %);")), []*Domain{nl, nl, nl})
		b.add("nl3", "Main", 1, d, one(ch("CREATE VIEW v AS{0}SELECT 1;{1}CREATE TRIGGER g BEGIN{2}SELECT 1;{0}END;{1}%")), []*Domain{nl, nl, nl})
		b.slide("slideL1", d, sentences(d, "tceosrmw"), b.hole(d), 1)
		b.slide("slideL2", d, sentences(d, "ceos"), b.hole(d), 2)
		b.trunc("trunc", d, sentences(d, "ceosr"), b.hole(d), "Main")
	})
	b.bound("separators: %d forms of blanks, newlines and comments in every gap of 3 statements, before 9 offending tokens; newlines inside quoted text; every token on a line of its own, and newlines after every third", len(separators))
	b.base("", "stmt0", "c1", "e1", "opt", "stmt1")
	b.big("csw")
	b.chars(1, 2, nil)
}

func (b *SB) propC04() {
	b.base("tceosrmw", allSlots...)
	b.dups("tclrxn")
	all3(func(d int) {
		b.trunc("trunc", d, sentences(d, "eos"), b.hole(d), "Main")
		b.bodies(d)
		T := typ(d)
		for _, f := range [][2]string{{"CREATE TABLE t ( a", ") ;"}, {"CREATE TABLE t ( a " + T, ", b " + T + " ) ;"}, {"CREATE TABLE t ( a " + T + " ,", ") ;"}, {"CREATE TABLE t ( a " + T + " )", ";"}, {"CREATE", "( a " + T + " ) ;"}, {"", "CREATE TABLE t ( a " + T + " ) ;"}} {
			b.freeRun("free", d, f[0], f[1], 2, b.v.mid(d))
			if b.thorough {
				b.freeRun("free3", d, f[0], f[1], 3, b.v.mid(d))
			}
		}
		// phrases of the other dialects
		for o := 0; o < 3; o++ {
			if o != d {
				b.free("other", "Main", d, "CREATE TABLE t ( a {0} , b "+T+" ) ;", b.ph("type", o, phrases[o].types))
				b.free("other", "Main", d, "CREATE TABLE t ( a "+T+" {0} , b "+T+" ) ;", b.ph("clause", o, phrases[o].clauses))
				b.free("other", "Main", d, "CREATE TABLE t ( a "+T+" , {0} ) ;", b.ph("elemPlain", o, phrases[o].elements))
				b.free("other", "Main", d, "CREATE TABLE t ( a "+T+" ) {0} ;", b.ph("option", o, phrases[o].options))
				b.free("other", "Main", d, "{0}", b.ph("stmtPlain", o, phrases[o].stmts))
			}
		}
		for _, s := range []string{"type c1 c2", "c1 c2 e1"} {
			if b.thorough {
				b.slotted("triple", d, strings.Fields(s)...)
			}
		}
		b.sizesOf(d)
	})
	b.bound("two free tokens (three, thorough) in 6 places; every phrase of the other dialects in this one")
	b.chars(1, 2, nil)
	b.big("cdxslkn")
}

// sizesOf: type sizes as free tokens.
func (b *SB) sizesOf(d int) {
	num := b.v.dom("num", func() []string {
		return append(append([]string{}, numbers...), "2", "3", "4", "30", "65", "99", "4294967296", "999999999999999999", "'1'", "\"1\"", "a", "MAX", ",", ")", "(", "é", "1.0")
	})
	seen := map[string]bool{}
	for _, t := range phrases[d].types {
		f := toks(t)
		k := 0
		for i, x := range f {
			if x[0] >= '0' && x[0] <= '9' {
				f[i] = "{" + strconv.Itoa(k) + "}"
				k++
			}
		}
		s := strings.Join(f, " ")
		if k > 0 && !seen[s] {
			seen[s] = true
			var ds []*Domain
			for i := 0; i < k; i++ {
				ds = append(ds, num)
			}
			b.free("size", "Main", d, "CREATE TABLE t ( a "+s+" NOT NULL , b "+s+" ) ;", ds...)
		}
	}
}

func (b *SB) nameChars(d int, n int, tmpls ...string) {
	for i, t := range tmpls {
		if i > 0 && !b.thorough {
			n = 1
		}
		b.charHole("namechars", d, t, n, b.v.chars())
	}
}

// nestedBlocks: blocks nested up to three deep, and pairs of blocks inside a block.
func nestedBlocks() []string {
	kinds := [][2]string{{"BEGIN", "END ;"}, {"CASE x WHEN 1 THEN", "END CASE ;"}, {"IF x THEN", "END IF ;"}, {"LOOP", "END LOOP ;"}, {"WHILE x DO", "END WHILE ;"}, {"REPEAT", "END REPEAT ;"}, {"SELECT CASE WHEN 1 THEN 2 ELSE", "3 END ;"}}
	level := []string{"SELECT 1 ;"}
	var out, one []string
	for n := 0; n < 3; n++ {
		var next []string
		for _, k := range kinds {
			for _, x := range level {
				next = append(next, k[0]+" "+x+" "+k[1])
			}
		}
		if n == 0 {
			one = next
		}
		out = append(out, next...)
		level = next
	}
	for _, k := range kinds {
		for _, x := range one {
			for _, y := range one {
				out = append(out, k[0]+" "+x+" "+y+" "+k[1])
			}
		}
	}
	return out
}

// bodies: BEGIN ... END bodies with four and six free block words, and nested blocks.
func (b *SB) bodies(d int) {
	w := b.v.dom("blockw", func() []string {
		return []string{"BEGIN", "END", "CASE", "IF", "LOOP", "WHILE", "REPEAT", "end", "Case", "x", ";", "'END'", "\"BEGIN\"", "`CASE`", "(", "TABLE"}
	})
	w4 := b.v.dom("blockw4", func() []string { return []string{"BEGIN", "END", "CASE", "IF", "LOOP", "x", ";", "'END'"} })
	b.free("block", "Main", d, "CREATE TRIGGER x BEGIN {0} {1} ; {2} ; END ; CREATE TABLE t ( a "+typ(d)+" ) ;", w, w, w)
	b.free("block", "Main", d, "CREATE TRIGGER x BEGIN {0} {1} ; {2} {3} END ; CREATE TABLE t ( a "+typ(d)+" ) ;", w4, w4, w4, w4)
	b.free("block", "Main", d, "CREATE TRIGGER x {0} ; {1} {2} ; CREATE TABLE t ( a "+typ(d)+" ) ;", w, w, w)
	w6 := b.v.dom("blockw6", func() []string { return []string{"BEGIN", "END", "CASE", "IF", ";"} })
	b.free("block", "Main", d, "CREATE TRIGGER x BEGIN {0} {1} {2} {3} {4} {5} END ; CREATE TABLE t ( a "+typ(d)+" ) ;", w6, w6, w6, w6, w6, w6)
	nest := b.ph("nest", d, nestedBlocks())
	b.free("block", "Main", d, "CREATE TRIGGER x BEGIN {0} END ; CREATE TABLE t ( a "+typ(d)+" ) ; {1}", nest, b.ph("bodyafter", d, []string{"", "CREATE TRIGGER y BEGIN SELECT 1 ; END ;"}))
}

func (b *SB) propC06() {
	all3(func(d int) {
		T := typ(d)
		n := b.nameHole(d)
		for _, f := range []string{"CREATE TABLE {0} ( a " + T + " ) ;", "CREATE TABLE IF NOT EXISTS {0} ( a " + T + " ) ;", "CREATE TABLE {0} . t ( a " + T + " ) ;", "CREATE TABLE s . {0} ( a " + T + " ) ; CREATE TABLE u ( b " + T + " ) ;", "CREATE VIEW v AS SELECT 1 ; CREATE TABLE {0} ( a " + T + " ) ;", "CREATE TABLE u ( a " + T + " ) ; CREATE TABLE IF NOT EXISTS s . {0} ( b " + T + " ) ;"} {
			b.free("names", "Main", d, f, n)
		}
		b.free("names2", "Main", d, "CREATE TABLE {0} . {1} ( a "+T+" ) ;", b.v.mid(d), b.v.mid(d))
		b.slotted("triple", d, "stmt0", "head", "tname")
		b.slotted("triple", d, "head", "tname", "stmt1")
		st := b.ph("stmtS", d, shortList(phrases[d].stmts, 12))
		b.free("stmts", "Main", d, "{0} {1} {2}", st, st, st)
		b.bodies(d)
		// bodies with statements in them, free tokens inside
		for _, k := range []string{"TRIGGER", "VIEW", "INDEX", "PROCEDURE", "FUNCTION"} {
			if d == 0 && (k == "PROCEDURE" || k == "FUNCTION") {
				continue
			}
			b.free("body", "Main", d, "CREATE "+k+" {0} {1} ; CREATE TABLE t ( a "+T+" ) ;", b.v.mid(d), b.v.mid(d))
			b.free("body", "Main", d, "CREATE "+k+" x BEGIN {0} ; {1} ; END ; CREATE TABLE t ( a "+T+" ) ;", b.v.mid(d), b.v.mid(d))
			b.free("body", "Main", d, "CREATE "+k+" x CREATE TABLE {0} ; CREATE TABLE t ( a "+T+" ) ;", b.v.full(d))
			b.free("body", "Main", d, "CREATE "+k+" begin x ; {0} ; end ; CREATE TABLE t ( a "+T+" ) ;", b.v.full(d))
		}
		b.nameChars(d, 2, "CREATE TABLE {0} (a "+T+");", "CREATE TABLE s.{0} (a "+T+");", "CREATE TABLE {0}.t (a "+T+");")
	})
	b.bound("names of %d forms in every schema and table name position; three statements in a row; statement bodies with two free tokens", len(b.v.names(0).vals))
	b.dups("tc")
	b.base("osw", "stmt0", "head", "tname", "cname", "c1", "e1", "opt", "stmt1")
	b.big("csn")
}

func shortList(l []string, n int) []string {
	if len(l) <= n {
		return l
	}
	var out []string
	for i := 0; i < n; i++ {
		out = append(out, l[i*len(l)/n])
	}
	return out
}

func (b *SB) propC07() {
	all3(func(d int) {
		T := typ(d)
		b.sizesOf(d)
		n := b.nameHole(d)
		for _, f := range []string{"CREATE TABLE t ( {0} " + T + " ) ;", "CREATE TABLE t ( a " + T + " , {0} " + T + " NOT NULL , c " + T + " ) ;", "CREATE TABLE t ( a " + T + " CHECK ( x ) , {0} " + T + " ) ;", "CREATE TABLE t ( a " + T + " REFERENCES o , {0} " + T + " , UNIQUE ( a ) ) ;"} {
			b.free("names", "Main", d, f, n)
		}
		ty := b.ph("type", d, phrases[d].types)
		b.free("types", "Main", d, "CREATE TABLE t ( a {0} , b {1} ) ;", ty, ty)
		b.free("types", "Main", d, "CREATE TABLE t ( a {0} NOT NULL , b "+T+" , c {1} ) ;", ty, ty)
		b.nameChars(d, 2, "CREATE TABLE t ({0} "+T+");", "CREATE TABLE t (a "+T+", {0} "+T+" UNIQUE);")
		b.caseTypes(d)
		el := b.ph("elemS", d, shortList(phrases[d].elements, 12))
		s := b.free("elem3", "Main", d, "CREATE TABLE t ( {0} , {1} , {2} ) ;", el, el, el)
		s.MaxPath = 100000
	})
	b.bound("names of %d forms as column names; all pairs of types; free size tokens; three elements in a row (12 forms each)", len(b.v.names(0).vals))
	b.dups("c")
	b.base("tew", allSlots...)
	b.big("cxlkn")
}

// caseTypes: every type in other spellings.
func (b *SB) caseTypes(d int) {
	var l []string
	for _, t := range phrases[d].types {
		l = append(l, strings.ToLower(t), mixedAll(t))
	}
	b.free("types", "Main", d, "CREATE TABLE t ( a {0} UNIQUE , b "+typ(d)+" ) ;", b.ph("typecase", d, l))
}

func mixedAll(s string) string {
	f := strings.Fields(s)
	for i := range f {
		if specIsIdent(f[i]) {
			f[i] = mixed(f[i])
		}
	}
	return strings.Join(f, " ")
}

func (b *SB) propC08() {
	all3(func(d int) {
		T := typ(d)
		cl := b.ph("clause", d, phrases[d].clauses)
		b.free("two", "Main", d, "CREATE TABLE t ( a "+T+" {0} {1} , b "+T+" ) ;", cl, cl)
		b.free("two", "Main", d, "CREATE TABLE t ( a "+T+" {0} , b "+T+" {1} , c "+T+" ) ;", cl, cl)
		cs := b.ph("clauseS", d, shortList(phrases[d].clauses, 16))
		s := b.free("three", "Main", d, "CREATE TABLE t ( a "+T+" {0} {1} {2} , b "+T+" ) ;", cs, cs, cs)
		s.MaxPath = 100000
		if b.thorough {
			s := b.free("three", "Main", d, "CREATE TABLE t ( a "+T+" {0} {1} {2} ) ;", cl, cl, cl)
			s.MaxPath = 400000
		}
		n := b.nameHole(d)
		for _, c := range []string{"UNIQUE", "CHECK ( x )", "PRIMARY KEY", "NOT NULL", "REFERENCES o ( x )", "DEFAULT 1"} {
			if d == 2 && c != "CHECK ( x )" {
				continue
			}
			b.free("cnames", "Main", d, "CREATE TABLE t ( a "+T+" CONSTRAINT {0} "+c+" , b "+T+" ) ;", n)
		}
		b.free("cnames", "Main", d, "CREATE TABLE t ( a "+T+" COLLATE {0} NOT NULL , b "+T+" ) ;", n)
		b.free("cnames", "Main", d, "CREATE TABLE t ( a "+T+" NOT NULL COLLATE {0} ) ;", n)
		b.free("cnames", "Main", d, "CREATE TABLE t ( {0} "+T+" , b "+T+" ) ;", n)
		b.free("cnames", "Main", d, "CREATE TABLE t ( a "+T+" REFERENCES {0} , b "+T+" ) ;", n)
		b.free("cnames", "Main", d, "CREATE TABLE t ( a "+T+" REFERENCES o ( {0} ) , b "+T+" ) ;", n)
		b.free("cnames", "Main", d, "CREATE TABLE t ( a "+T+" DEFAULT {0} , b "+T+" ) ;", b.v.full(d))
		b.free("cnames", "Main", d, "CREATE TABLE t ( a "+T+" CHECK ( {0} {1} ) , b "+T+" ) ;", b.v.mid(d), b.v.mid(d))
		b.free("cnames", "Main", d, "CREATE TABLE t ( a "+T+" DEFAULT ( {0} {1} ) , b "+T+" ) ;", b.v.mid(d), b.v.mid(d))
		if d == 2 {
			b.free("cnames", "Main", d, "CREATE TABLE t ( a "+T+" COMMENT {0} , b "+T+" ) ;", b.v.full(d))
			b.free("cnames", "Main", d, "CREATE TABLE t ( a "+T+" COMMENT {0} NOT NULL , b "+T+" ) ;", b.v.full(d))
		}
	})
	b.bound("every two clauses on one column and on neighbouring columns; three clauses (16 forms each; all, thorough); names of all forms")
	b.dups("cn")
	b.base("cmw", allSlots...)
	b.big("cxdn")
	b.chars(1, 0, pick("DEFAULT", "CHECK"))
}

func (b *SB) propC09() {
	all3(func(d int) {
		T := typ(d)
		full := b.v.full(d)
		dv := b.v.dom(dn("defv", d), func() []string {
			var out []string
			out = append(out, full.vals...)
			for _, w := range []string{"NULL", "TRUE", "FALSE", "CURRENT_DATE", "CURRENT_TIME", "CURRENT_TIMESTAMP"} {
				out = append(out, w, strings.ToLower(w), mixed(w), "'"+w+"'", "'"+strings.ToLower(w)+"'", "\""+w+"\"", "`"+w+"`", w+"X", "X"+w, w+"_", "'"+w+" '")
			}
			for _, w := range []string{"1", "0", "-0", "+0", "00", "1.50", "-1.50", "+1.50", "1e10", "1E10", "1e-10", "1.5e3", "-1.5E+3", "0.1", "0.30000000000000004", "123456.789", "1e308", "4.9e-324", "999999999999999999999", "0x10", "0b1", "1_000", ".5", "5.", "1e", "e1", "--5", "+-5", "1.2.3", "1,5", "nan", "inf", "-inf", "NaN", "Infinity", "infinity", "0e0", "10", "100", "255", "4294967295", "9223372036854775807", "-9223372036854775808"} {
				out = append(out, w, "'"+w+"'", "\""+w+"\"", "`"+w+"`")
			}
			return b.v.filter(d, out)
		})
		for _, f := range []string{"DEFAULT {0} , b " + T, "NOT NULL DEFAULT {0} , b " + T, "DEFAULT {0} NOT NULL , b " + T, "UNIQUE DEFAULT {0} CHECK ( x )", ", b " + T + " DEFAULT {0}"} {
			b.free("value", "Main", d, "CREATE TABLE t ( a "+T+" "+f+" ) ;", dv)
		}
		b.free("value", "Main", d, "CREATE TABLE t ( a "+T+" DEFAULT {0} , b "+T+" DEFAULT {1} ) ;", b.v.mid(d), dv)
		cl := b.ph("clause", d, phrases[d].clauses)
		b.free("around", "Main", d, "CREATE TABLE t ( a "+T+" DEFAULT {0} {1} , b "+T+" ) ;", dv, cl)
		b.free("around", "Main", d, "CREATE TABLE t ( a "+T+" {1} DEFAULT {0} ) ;", dv, cl)
		b.free("expr", "Main", d, "CREATE TABLE t ( a "+T+" DEFAULT ( {0} {1} ) , b "+T+" ) ;", b.v.mid(d), b.v.mid(d))
		b.free("expr", "Main", d, "CREATE TABLE t ( a "+T+" DEFAULT ( {0} ) NOT NULL , b "+T+" ) ;", dv)
		b.free("expr", "Main", d, "CREATE TABLE t ( a "+T+" DEFAULT {0} ( {1} ) , b "+T+" ) ;", b.v.mid(d), b.v.mid(d))
		ty := b.ph("type", d, phrases[d].types)
		b.free("types", "Main", d, "CREATE TABLE t ( a {0} DEFAULT {1} , b "+T+" ) ;", ty, b.v.dom(dn("defs", d), func() []string {
			return b.v.filter(d, []string{"1", "-1.5", "'1'", "'x y'", "NULL", "null", "TRUE", "false", "CURRENT_TIMESTAMP", "x", "\"x\"", "'NULL'", "'it''s'"})
		}))
		n := 3
		if b.thorough {
			n = 4
		}
		digits := b.v.dom("digits", func() []string {
			return []string{"0", "1", "5", "9", ".", "e", "E", "+", "-", "x", "_", "n", "a", "i", " "}
		})
		b.charHole("numchars", d, "CREATE TABLE t (a "+T+" DEFAULT {0}, b "+T+");", n, digits)
		b.charHole("numchars", d, "CREATE TABLE t (a "+T+" DEFAULT 1{0});", n, digits)
		b.charHole("strchars", d, "CREATE TABLE t (a "+T+" DEFAULT '{0}', b "+T+");", 2, b.v.chars())
		b.charHole("strchars", d, "CREATE TABLE t (a "+T+" DEFAULT '{0}');", n, b.v.charsSmall())
		b.charHole("strchars", d, "CREATE TABLE t (a "+T+" DEFAULT ({0}));", n-2, b.v.chars())
		b.charHole("strchars", d, "CREATE TABLE t (a "+T+" DEFAULT {0});", 2, b.v.chars())
		if d == 2 {
			b.charHole("strchars", d, "CREATE TABLE t (a "+T+" DEFAULT \"{0}\", b "+T+");", 2, b.v.chars())
		}
	})
	b.bound("DEFAULT values: %d tokens in 7 positions, with every clause before and after, with every type; %d free number characters; 2 free characters of all and %d of %d inside quotes", len(b.v.doms[dn("defv", 0)].vals), 3, 3, len(b.v.charsSmall().vals))
	b.dups("x")
	b.base("cmw", "stmt0", "cname", "type", "c1", "c2", "e1", "e2")
	b.big("cdxn")
}

func (b *SB) propC10() {
	b.huge("x")
	all3(func(d int) {
		T := typ(d)
		m := b.v.mid(d)
		small := b.v.dom(dn("exs", d), func() []string {
			return b.v.filter(d, []string{"(", ")", ",", ";", ".", "=", "x", "Y", "NULL", "not", "CHECK", "END", "1", "-1.5", "'a,b'", "'('", "')'", "\"q c\"", "`b`", "''", "'it''s'", "<", ">=", "::", "CONSTRAINT", "DEFAULT", "BEGIN", "+", "é", "CREATE"})
		})
		places := [][2]string{
			{"CREATE TABLE t ( a " + T + " CHECK (", ") , b " + T + " ) ;"}, {"CREATE TABLE t ( a " + T + " DEFAULT (", ") , b " + T + " ) ;"},
			{"CREATE TABLE t ( a " + T + " , CHECK (", ") , UNIQUE ( a ) ) ;"}, {"CREATE TABLE t ( a " + T + " , CONSTRAINT k CHECK (", ") ) ;"},
			{"CREATE TABLE t ( a " + T + " NOT NULL CHECK ( (", ") ) UNIQUE ) ;"}, {"CREATE TABLE t ( a " + T + " DEFAULT ( f (", ") , g ) NOT NULL ) ;"}}
		for i, p := range places {
			b.freeRun("expr1", d, p[0], p[1], 1, b.v.full(d))
			b.freeRun("expr2", d, p[0], p[1], 2, m)
			b.freeRun("expr3", d, p[0], p[1], 3, small)
			if b.thorough || i == 0 {
				b.freeRun("expr4", d, p[0], p[1], 4, b.v.dom(dn("exs4", d), func() []string {
					return b.v.filter(d, []string{"(", ")", ",", ";", "x", "'a)'", "CHECK", "=", ".", "\"q\""})
				}))
			}
		}
		for _, t := range []string{"CREATE TABLE t (a " + T + " CHECK({0}) NOT NULL, b " + T + ");", "CREATE TABLE t (a " + T + " DEFAULT ({0}) UNIQUE);", "CREATE TABLE t (a " + T + ", CHECK(x{0}y));"} {
			b.charHole("exchars", d, t, 2, b.v.chars())
			k := 3
			if b.thorough {
				k = 4
			}
			b.charHole("excharsS", d, t, k, b.v.charsSmall())
		}
		for _, t := range []string{"CREATE TABLE t (a " + T + " CHECK(x{0}= {0}'a b' {0}) NOT NULL);", "CREATE TABLE t (a " + T + ", CHECK({0}f ( {0} a , 'x' {0} ) {0}), UNIQUE (a));", "CREATE TABLE t (a " + T + " DEFAULT ({0}a{0}+ {0}1 {0}) UNIQUE);"} {
			b.add("exseps", "Main", 1, d, one(ch(t)), []*Domain{b.seps(d)})
		}
		cl := b.ph("clause", d, phrases[d].clauses)
		b.free("around", "Main", d, "CREATE TABLE t ( a "+T+" CHECK ( a > ( 0 ) , 'x' ) {0} , b "+T+" ) ;", cl)
		b.free("around", "Main", d, "CREATE TABLE t ( a "+T+" {0} CHECK ( a > ( 0 ) , 'x' ) {1} , b "+T+" ) ;", cl, cl)
		b.free("around", "Main", d, "CREATE TABLE t ( a "+T+" {0} DEFAULT ( a > ( 0 ) , 'x' ) {1} , b "+T+" ) ;", cl, cl)
	})
	b.bound("expressions of 1 token (all), 2 tokens (mid vocabulary), 3 and 4 tokens (roles) in 6 places; 2 free characters (3 of the small set); %d separators between tokens", len(separators))
	b.dups("xl")
	b.base("cemw", "stmt0", "cname", "type", "c1", "c2", "e1", "e2", "opt")
	b.big("cdxk")
}

func (b *SB) propC11() {
	all3(func(d int) {
		T := typ(d)
		el := b.ph("elemPlain", d, phrases[d].elements)
		b.free("two", "Main", d, "CREATE TABLE t ( z "+T+" , {0} , {1} ) ;", el, el)
		b.free("two", "Main", d, "CREATE TABLE t ( {0} , z "+T+" , {1} ) ;", el, el)
		es := b.ph("elemS", d, shortList(phrases[d].elements, 12))
		if b.thorough {
			es = el
		}
		s := b.free("three", "Main", d, "CREATE TABLE t ( z "+T+" , {0} , {1} , {2} ) ;", es, es, es)
		s.MaxPath = 200000
		n := b.nameHole(d)
		kinds := []string{"PRIMARY KEY ( %s )", "UNIQUE ( %s )", "FOREIGN KEY ( %s ) REFERENCES o ( x )"}
		for _, k := range kinds {
			for _, l := range []string{"{0}", "{0} , d", "c , {0}", "c , {0} , d"} {
				b.free("cols", "Main", d, "CREATE TABLE t ( z "+T+" , "+strings.Replace(k, "%s", l, 1)+" ) ;", n)
			}
			b.free("cnames", "Main", d, "CREATE TABLE t ( z "+T+" , CONSTRAINT {0} "+strings.Replace(k, "%s", "c , d", 1)+" , UNIQUE ( e ) ) ;", n)
			b.free("cols2", "Main", d, "CREATE TABLE t ( z "+T+" , "+strings.Replace(k, "%s", "{0} {1}", 1)+" ) ;", b.v.mid(d), b.v.mid(d))
		}
		b.free("cnames", "Main", d, "CREATE TABLE t ( z "+T+" , CONSTRAINT {0} CHECK ( c ) , UNIQUE ( e ) ) ;", n)
		if d == 2 {
			for _, k := range []string{"UNIQUE {0} ( c )", "UNIQUE KEY {0} ( c )", "CONSTRAINT k UNIQUE INDEX {0} ( c )", "INDEX {0} ( c )", "KEY {0} USING BTREE ( c )", "FULLTEXT {0} ( c )", "FULLTEXT KEY {0} ( c )", "SPATIAL INDEX {0} ( c )", "FOREIGN KEY {0} ( c ) REFERENCES o ( x )", "UNIQUE ( c ( {0} ) )", "PRIMARY KEY ( c {0} , d )", "INDEX i ( c ) {0}", "UNIQUE ( c ) {0}", "UNIQUE ( ( {0} ) , c )", "KEY ( ( a , {0} ) DESC )"} {
				b.free("mysql", "Main", d, "CREATE TABLE t ( z "+T+" , "+k+" , UNIQUE ( e ) , y "+T+" ) ;", b.v.names(d))
				b.free("mysql", "Main", d, "CREATE TABLE t ( z "+T+" , "+k+" ) ;", b.v.full(d))
			}
		}
		if d == 1 {
			for _, k := range []string{"EXCLUDE ( {0} )", "EXCLUDE USING {0} ( c )", "EXCLUDE ( c ) WHERE ( {0} )", "EXCLUDE ( ( a ) {0} , b )", "UNIQUE ( c ) INCLUDE ( {0} )", "PRIMARY KEY ( c ) WITH ( {0} )"} {
				b.free("pg", "Main", d, "CREATE TABLE t ( z "+T+" , "+k+" , UNIQUE ( e ) , y "+T+" ) ;", b.v.full(d))
			}
		}
		b.nameChars(d, 2, "CREATE TABLE t (z "+T+", UNIQUE ({0}));", "CREATE TABLE t (z "+T+", CONSTRAINT {0} UNIQUE (a));", "CREATE TABLE t (z "+T+", PRIMARY KEY (a,{0}));")
	})
	b.bound("every two elements in a row and around a column; three in a row (12 forms each; all, thorough); names of all forms in every name position")
	b.dups("ln")
	b.base("ew", "stmt0", "cname", "type", "c1", "e1", "e2", "e3", "opt", "stmt1")
	b.big("cdxlkn")
}

func (b *SB) propC12() {
	all3(func(d int) {
		T := typ(d)
		n := b.nameHole(d)
		tl := b.ph("reftail", d, refTails[d])
		for _, f := range []string{
			"( a " + T + " REFERENCES {0} {1} , b " + T + " ) ;", "( a " + T + " REFERENCES {0} ( x ) {1} NOT NULL , b " + T + " ) ;", "( a " + T + " REFERENCES s . {0} ( x ) {1} , b " + T + " ) ;", "( a " + T + " REFERENCES {0} . o {1} ) ;",
			"( a " + T + " REFERENCES o ( {0} ) {1} UNIQUE , b " + T + " REFERENCES p ( y ) ) ;",
			"( a " + T + " , FOREIGN KEY ( a ) REFERENCES {0} {1} ) ;", "( a " + T + " , FOREIGN KEY ( a ) REFERENCES {0} ( x ) {1} , UNIQUE ( a ) ) ;", "( a " + T + " , FOREIGN KEY ( a ) REFERENCES s . {0} ( x ) {1} ) ;",
			"( a " + T + " , FOREIGN KEY ( a , b ) REFERENCES o ( {0} , y ) {1} ) ;", "( a " + T + " , CONSTRAINT k FOREIGN KEY ( a , b ) REFERENCES o ( x , {0} ) {1} , FOREIGN KEY ( c ) REFERENCES p ( y ) ) ;"} {
			b.free("ref", "Main", d, "CREATE TABLE t "+f, n, b.ph("reftailS", d, shortList(refTails[d], 6)))
		}
		b.free("tails", "Main", d, "CREATE TABLE t ( a "+T+" REFERENCES o ( x ) {0} {1} {2} , b "+T+" ) ;", tl, tl, b.ph("clauseS", d, shortList(phrases[d].clauses, 16)))
		b.free("tails", "Main", d, "CREATE TABLE t ( a "+T+" , FOREIGN KEY ( a ) REFERENCES o ( x , y ) {0} {1} , FOREIGN KEY ( b ) REFERENCES p {2} ) ;", tl, tl, tl)
		b.free("tails", "Main", d, "CREATE TABLE t ( a "+T+" REFERENCES o {0} , b "+T+" REFERENCES p ( y ) {1} ) ;", tl, tl)
		b.free("free", "Main", d, "CREATE TABLE t ( a "+T+" REFERENCES {0} {1} {2} , b "+T+" ) ;", b.midHole(d), b.midHole(d), b.midHole(d))
		b.free("free", "Main", d, "CREATE TABLE t ( a "+T+" REFERENCES o ( {0} {1} {2} ) , b "+T+" ) ;", b.midHole(d), b.midHole(d), b.midHole(d))
		b.free("free", "Main", d, "CREATE TABLE t ( a "+T+" , FOREIGN KEY ( a ) REFERENCES o ( {0} {1} {2} ) ) ;", b.midHole(d), b.midHole(d), b.midHole(d))
		b.free("free", "Main", d, "CREATE TABLE t ( a "+T+" REFERENCES o {0} {1} , b "+T+" ) ;", b.hole(d), b.midHole(d))
		b.nameChars(d, 2, "CREATE TABLE t (a "+T+" REFERENCES {0} (x));", "CREATE TABLE t (a "+T+" REFERENCES s.{0});", "CREATE TABLE t (a "+T+", FOREIGN KEY (a) REFERENCES o (x,{0}));")
	})
	b.bound("names of all forms as referenced schema, table and column; every two reference tails; three free tokens after REFERENCES and in its column list")
	b.dups("rl")
	b.base("cermw", "stmt0", "cname", "type", "c1", "c2", "e1", "e2")
	b.big("clkn")
}

// inert phrases per dialect: clauses the result does not represent, to be put anywhere.
func inertAll(d int) []string {
	l := []string{"ON DELETE CASCADE", "ON UPDATE SET NULL", "ON DELETE NO ACTION", "MATCH FULL", "ASC", "DESC"}
	switch d {
	case 0:
		l = append(l, "TEMP", "TEMPORARY", "temp", "MATCH simple", "DEFERRABLE", "NOT DEFERRABLE", "DEFERRABLE INITIALLY DEFERRED", "NOT DEFERRABLE INITIALLY IMMEDIATE", "GENERATED ALWAYS AS ( q , ( r ) )", "AS ( s ) STORED", "GENERATED ALWAYS AS ( q ) VIRTUAL", "WITHOUT ROWID", "STRICT", "STRICT , WITHOUT ROWID")
	case 1:
		l = append(l, "NULL", "MATCH SIMPLE", "NO INHERIT", "GENERATED ALWAYS AS ( q , ( r ) ) STORED", "GENERATED ALWAYS AS IDENTITY", "GENERATED BY DEFAULT AS IDENTITY ( START 5 )", "AS ( s )", ", EXCLUDE ( c WITH = )", ", CONSTRAINT ex EXCLUDE USING gist ( c , ( d ) ) WHERE ( x )", "EXCLUDE ( c ) ,")
		l = append(l, phrases[1].options[1:]...)
	case 2:
		l = append(l, "MATCH SIMPLE", "ENFORCED", "NOT ENFORCED", "USING BTREE", "USING HASH", "KEY_BLOCK_SIZE = 8", "KEY_BLOCK_SIZE 8", "WITH PARSER p", "( 10 )", "( 3 ) DESC", "KEY", "INDEX", "i", ", INDEX ( c )", ", KEY k USING HASH ( c , d ( 4 ) DESC ) COMMENT 'x'", ", FULLTEXT KEY ( c )", ", SPATIAL INDEX s ( c )", "INDEX j ( ( c + 1 ) ) ,", "FULLTEXT ( c ) ,")
		l = append(l, phrases[2].options[1:]...)
	}
	return append(l, phrases[d].inertCol...)
}

func (b *SB) propC13() {
	all3(func(d int) {
		T := typ(d)
		in := b.ph("inert", d, inertAll(d))
		addPair := func(f framed, k int) {
			base := fixed(f.toks...)
			with := append(append(fixed(f.toks[:k]...), Piece{Var: 1}), fixed(f.toks[k:]...)...)
			b.add("inert", "Pair", 0, d, [][]Piece{base, with}, []*Domain{in})
		}
		var fs []framed
		fs = append(fs, sentences(d, "ceosrtmw")...)
		fs = append(fs, frame("", "CREATE TABLE t ( a "+T+" PRIMARY KEY , b "+T+" NOT NULL UNIQUE CHECK ( x ) REFERENCES o ( x ) , PRIMARY KEY ( a , b ) , UNIQUE ( b ) , CHECK ( y ) , FOREIGN KEY ( a ) REFERENCES o ( x ) ) ; CREATE TABLE u ( a "+T+" ) ;", ""))
		seen := map[string]bool{}
		for _, f := range fs {
			for k := f.from; k <= f.to; k++ {
				key := strings.Join(f.toks[:k], " ") + "|" + strings.Join(f.toks[k:], " ")
				if !seen[key] {
					seen[key] = true
					addPair(f, k)
				}
			}
		}
		// two clauses with an inert one before, between and after them
		cl := b.ph("clauseS2", d, shortList(phrases[d].clauses, 22))
		ic := b.ph("inertS", d, inertAll(d))
		for _, p := range []string{"{0} {2} {1}", "{2} {0} {1}", "{0} {1} {2}"} {
			s := b.add("between", "Pair", 0, d, [][]Piece{tk("CREATE TABLE t ( a " + T + " {0} {1} , b " + T + " ) ;"), tk("CREATE TABLE t ( a " + T + " " + p + " , b " + T + " ) ;")}, []*Domain{cl, cl, ic})
			s.MaxPath = 100000
		}
		el := b.ph("elemPlain", d, phrases[d].elements)
		op := b.ph("option", d, phrases[d].options)
		b.add("option", "Pair", 0, d, [][]Piece{tk("CREATE TABLE t ( z " + T + " , {0} ) ; CREATE TABLE u ( a " + T + " ) ;"), tk("CREATE TABLE t ( z " + T + " , {0} ) {1} ; CREATE TABLE u ( a " + T + " ) ;")}, []*Domain{el, op})
		b.add("elem", "Pair", 0, d, [][]Piece{tk("CREATE TABLE t ( z " + T + " , {0} ) ;"), tk("CREATE TABLE t ( z " + T + " , {0} {1} ) ;")}, []*Domain{el, in})
		// free tokens inside inert clauses
		m := b.v.full(d)
		pairs := [][2]string{{"a " + T + " REFERENCES o ( x )", "a " + T + " REFERENCES o ( x ) ON DELETE {0}"}, {"a " + T + " REFERENCES o", "a " + T + " REFERENCES o MATCH {0}"}}
		switch d {
		case 0:
			pairs = append(pairs, [][2]string{{"a " + T + " NOT NULL", "a " + T + " NOT NULL ON CONFLICT {0}"}, {"a " + T + " NOT NULL", "a " + T + " NOT NULL GENERATED ALWAYS AS ( {0} )"}, {"a " + T + " NOT NULL", "a " + T + " AS ( {0} ) NOT NULL"}, {"a " + T + " PRIMARY KEY", "a " + T + " PRIMARY KEY {0}"}, {"a " + T + " , UNIQUE ( a )", "a " + T + " , UNIQUE ( a ) ON CONFLICT {0}"}}...)
		case 1:
			pairs = append(pairs, [][2]string{{"a " + T + " UNIQUE", "a " + T + " UNIQUE WITH ( {0} )"}, {"a " + T + " UNIQUE", "a " + T + " UNIQUE INCLUDE ( {0} )"}, {"a " + T + " UNIQUE", "a " + T + " UNIQUE USING INDEX TABLESPACE {0}"}, {"a " + T + " NOT NULL", "a " + T + " GENERATED ALWAYS AS IDENTITY ( {0} ) NOT NULL"}, {"a " + T + " NOT NULL", "a " + T + " GENERATED ALWAYS AS ( {0} ) STORED NOT NULL"}, {"a " + T + " , UNIQUE ( a )", "a " + T + " , UNIQUE ( a ) WITH ( {0} )"}, {"a " + T + " , UNIQUE ( a )", "a " + T + " , EXCLUDE ( {0} ) , UNIQUE ( a )"}, {"a " + T + " , UNIQUE ( a )", "a " + T + " , EXCLUDE USING {0} ( x ) , UNIQUE ( a )"}}...)
		case 2:
			pairs = append(pairs, [][2]string{{"a " + T + " NOT NULL", "a " + T + " COMMENT {0} NOT NULL"}, {"a " + T + " NOT NULL", "a " + T + " ENGINE_ATTRIBUTE = {0} NOT NULL"}, {"a " + T + " NOT NULL", "a " + T + " COLUMN_FORMAT {0} NOT NULL"}, {"a " + T + " NOT NULL", "a " + T + " STORAGE {0} NOT NULL"}, {"a " + T + " NOT NULL", "a " + T + " GENERATED ALWAYS AS ( {0} ) NOT NULL"}, {"a " + T + " , UNIQUE ( a )", "a " + T + " , UNIQUE {0} ( a )"}, {"a " + T + " , UNIQUE ( a )", "a " + T + " , UNIQUE ( a ( {0} ) )"}, {"a " + T + " , UNIQUE ( a )", "a " + T + " , UNIQUE ( a ) COMMENT {0}"}, {"a " + T + " , UNIQUE ( a )", "a " + T + " , INDEX {0} ( a ) , UNIQUE ( a )"}, {"a " + T + " , UNIQUE ( a )", "a " + T + " , INDEX i ( {0} ) , UNIQUE ( a )"}, {"a " + T + " , UNIQUE ( a )", "a " + T + " , FULLTEXT KEY {0} ( a ) , UNIQUE ( a )"}}...)
		}
		for _, p := range pairs {
			b.add("inside", "Pair", 0, d, [][]Piece{tk("CREATE TABLE t ( " + p[0] + " , b " + T + " ) ;"), tk("CREATE TABLE t ( " + p[1] + " , b " + T + " ) ;")}, []*Domain{m})
		}
		opts := []string{}
		switch d {
		case 1:
			opts = []string{"WITH ( {0} )", "TABLESPACE {0}", "INHERITS ( {0} )", "PARTITION BY {0} ( a )", "PARTITION BY RANGE ( {0} )", "USING {0}"}
		case 2:
			opts = []string{"ENGINE = {0}", "COMMENT = {0}", "AUTO_INCREMENT {0}", "DEFAULT CHARACTER SET {0}", "COLLATE = {0}", "UNION ( {0} )", "TABLESPACE {0}", "ROW_FORMAT = {0}", "DATA DIRECTORY {0}"}
		default:
			opts = []string{"WITHOUT {0}", "{0}"}
		}
		for _, o := range opts {
			b.add("inside", "Pair", 0, d, [][]Piece{tk("CREATE TABLE t ( a " + T + " NOT NULL ) ; CREATE TABLE u ( b " + T + " ) ;"), tk("CREATE TABLE t ( a " + T + " NOT NULL ) " + o + " ; CREATE TABLE u ( b " + T + " ) ;")}, []*Domain{m})
		}
	})
	b.bound("every inert clause (%d, %d, %d forms) at every gap of every sentence; between, before and after every two of 22 clauses; one free token inside every inert clause", len(inertAll(0)), len(inertAll(1)), len(inertAll(2)))
}

func (b *SB) propC14() {
	b.huge("m")
	all3(func(d int) {
		sp := b.seps(d)
		T := typ(d)
		for _, t := range sepTexts(d) {
			f := toks(t)
			join := func(l []string) string { return strings.ReplaceAll(strings.Join(l, " "), "␣", " ") }
			for k := 0; k <= len(f); k++ {
				pre, post := join(f[:k]), join(f[k:])
				b.add("gap", "Layout", 1, d, [][]Piece{ch(pre + " " + post), ch(pre + "{0}" + post)}, []*Domain{sp})
			}
			// the same separator everywhere
			b.add("every", "Layout", 1, d, [][]Piece{ch(join(f)), ch("{0}" + strings.ReplaceAll(strings.Join(f, "{0}"), "␣", " ") + "{0}")}, []*Domain{sp})
			// alternating separators
			s := "{0}"
			for i, x := range f {
				s += x + []string{"{1}", "{0}"}[i%2]
			}
			s2 := b.add("two", "Layout", 1, d, [][]Piece{ch(join(f)), ch(strings.ReplaceAll(s, "␣", " "))}, []*Domain{sp, sp})
			s2.MaxPath = 100000
			// against the specification
			b.add("spec", "Main", 1, d, one(ch("{0}"+strings.ReplaceAll(strings.Join(f, "{0}"), "␣", " ")+"{1}")), []*Domain{sp, sp})
		}
		// two separators next to each other
		for _, t := range []string{"CREATE TABLE t (a{0}{1}" + T + ");", "{0}{1}CREATE TABLE t (a " + T + ");", "CREATE TABLE t (a " + T + ");{0}{1}", "CREATE TABLE t (a " + T + " DEFAULT{0}{1}1, b " + T + ");", "CREATE TABLE t (a " + T + ",{0}{1}b " + T + ");", "CREATE TABLE t{0}({1}a " + T + ");"} {
			b.add("adjacent", "Main", 1, d, one(ch(t)), []*Domain{sp, sp})
		}
		n := 2
		if b.thorough {
			n = 3
		}
		cm := [][2]string{{"/*{0}*/", ""}, {"--{0}\n", ""}, {"/*{0}*/", "--x\n"}, {"-- a{0}\n", "/* b */"}}
		if d == 2 {
			cm = append(cm, [2]string{"#{0}\n", ""}, [2]string{"# a{0}\n", "#b\n"})
		}
		for _, c := range cm {
			for i, t := range []string{"CREATE TABLE t (a % " + T + ");", "%CREATE TABLE t (a " + T + ");", "CREATE TABLE t (a " + T + ");%", "CREATE TABLE t%(a " + T + " % NOT NULL);"} {
				b.charHole("inside", d, strings.ReplaceAll(t, "%", c[0]+c[1]), n, b.v.chars())
				k := 2
				if b.thorough || (i == 0 && c[1] == "") {
					k = 3
				}
				b.charHole("insideS", d, strings.ReplaceAll(t, "%", c[0]), k, b.v.charsSmall())
			}
		}
		if d != 2 {
			b.charHole("inside", d, "CREATE TABLE t (a "+T+" CHECK (x #{0}\n));", 1, b.v.chars())
		}
	})
	b.chars(1, 3, pick("{0}TABLE", "t{0}(", ");{0}", "{0}CREATE", "{0}b ", "--", "/*"))
	b.bound("%d separator forms in every gap, in all gaps at once, alternating, and two next to each other; 2 free characters (3 of the small set) inside each kind of comment", len(separators))
	all3(func(d int) {
		// broad: phrases, each token on its own line or after a comment
		for _, f := range sentences(d, "ceostmw") {
			l := strings.ReplaceAll(strings.Join(f.toks, " "), "␣", " ")
			b.add("phrase", "Layout", 1, d, [][]Piece{ch(l), ch("{0}" + strings.Join(f.toks, "{0}") + "{0}")}, []*Domain{b.v.dom(dn("sepS", d), func() []string { return shortList(b.seps(d).vals, 9) })})
		}
	})
}

func (b *SB) propC15() {
	b.huge("q")
	all3(func(d int) {
		T := typ(d)
		var ids []string
		strs := []string{"'"}
		switch d {
		case 0:
			ids = []string{"\"", "`"}
		case 1:
			ids = []string{"\""}
		case 2:
			ids = []string{"`"}
			strs = []string{"'", "\""}
		}
		inner := b.v.dom("inner", func() []string {
			var out []string
			for _, s := range []string{"", "a", "A b", "(", ")", "()", ",", ";", ".", "=", "--", "-- x", "/*", "*/", "/* x */", "#", "# x", "\n", "a\nb", "\n\n", "\t", "\r\n", "''", "\"\"", "``", "a''b", "a\"\"b", "a``b", "''''", "\"\"\"\"", "````", "'", "\"", "`", "\\", "\\\\", "a\\b", "%", "名前", "é", " ", "  ", " a ", "\u3000", "\u00a0", "NULL", "null", "PRIMARY KEY", "CREATE TABLE x (y INT);", "CHECK", "1", "-1.5", "TRUE", "DEFAULT", "a.b", "a,b", "x'y\"z`w", "<EOF>", "CURRENT_DATE", "0x1", "$$", "\x00", "tab\tle", "UNIQUE", "FOREIGN", "INDEX", "KEY", "a;b;c", "((", "))", "'--'", "/*'*/"} {
				out = append(out, s)
			}
			for _, s := range b.v.repoStr {
				if len(s) < 30 && !strings.ContainsAny(s, "'\"`") {
					out = append(out, s)
				}
			}
			return out
		})
		idPlaces := []string{"CREATE TABLE @ (a " + T + ");", "CREATE TABLE @.t (a " + T + ");", "CREATE TABLE s.@ (a " + T + ");", "CREATE TABLE t (@ " + T + " NOT NULL, b " + T + ");", "CREATE TABLE t (a " + T + ", @ " + T + ");", "CREATE TABLE t (a " + T + " REFERENCES @ (x));", "CREATE TABLE t (a " + T + " REFERENCES o (@));", "CREATE TABLE t (a " + T + ", PRIMARY KEY (@));", "CREATE TABLE t (a " + T + ", UNIQUE (a, @));", "CREATE TABLE t (a " + T + ", CONSTRAINT @ UNIQUE (a));", "CREATE TABLE t (a " + T + ", FOREIGN KEY (@) REFERENCES o (x));", "CREATE TABLE t (a " + T + ", FOREIGN KEY (a) REFERENCES @ (@));", "CREATE TABLE t (a " + T + " CHECK (@ > 1));", "CREATE TABLE t (a " + T + " CONSTRAINT @ CHECK (x));", "CREATE VIEW @ AS SELECT @; CREATE TABLE t (a " + T + ");"}
		strPlaces := []string{"CREATE TABLE t (a " + T + " DEFAULT @);", "CREATE TABLE t (a " + T + " DEFAULT @ NOT NULL, b " + T + ");", "CREATE TABLE t (a " + T + " CHECK (x = @) UNIQUE);", "CREATE TABLE t (a " + T + " DEFAULT (@), b " + T + ");", "CREATE TABLE t (a " + T + ", CHECK (a <> @), UNIQUE (a));", "CREATE VIEW v AS SELECT @; CREATE TABLE t (a " + T + ");", "CREATE TABLE t (a " + T + " DEFAULT @, b " + T + " DEFAULT @);"}
		if d == 2 {
			strPlaces = append(strPlaces, "CREATE TABLE t (a "+T+" COMMENT @ NOT NULL, b "+T+");", "CREATE TABLE t (a "+T+") COMMENT = @;", "CREATE TABLE t (a "+T+", INDEX (a) COMMENT @);")
		}
		do := func(q string, places []string) {
			for i, p := range places {
				t := strings.ReplaceAll(p, "@", q+"{0}"+q)
				b.add("quoted", "Main", 1, d, one(ch(t)), []*Domain{inner})
				if strings.Count(t, "{0}") == 1 {
					n, k := 1, 2
					if b.thorough || i == 3 {
						n = 2
					}
					if b.thorough || (i == 0 && q == strs[0]) {
						k = 3
					}
					b.charHole("chars", d, t, n, b.v.chars())
					b.charHole("charsS", d, t, k, b.v.charsSmall())
				} else {
					b.add("quoted", "Main", 1, d, one(ch(t)), []*Domain{b.v.chars()})
				}
			}
		}
		for _, q := range ids {
			do(q, idPlaces)
		}
		for _, q := range strs {
			do(q, strPlaces)
		}
		// two quoted texts next to each other, quotes of all kinds
		qd := b.v.dom(dn("qd", d), func() []string {
			var out []string
			for _, s := range quotedForms {
				out = append(out, s)
			}
			return append(out, "'", "\"", "`", "'''", "\"\"\"", "'a", "a'", "\"a", "`a", "x")
		})
		for _, p := range []string{"CREATE TABLE t (a " + T + " CHECK ({0}{1}));", "CREATE TABLE t (a " + T + " DEFAULT {0}{1});", "CREATE TABLE t (a " + T + " DEFAULT {0}, b " + T + " CHECK ({1}));", "CREATE TABLE {0} ({1} " + T + ");"} {
			s := b.add("quotes2", "Main", 1, d, one(ch(p)), []*Domain{qd, qd})
			s.MaxPath = 60000
		}
		// the wrong kind of quote for a place
		qf := b.v.dom(dn("qf", d), func() []string { return b.v.filter(d, quotedForms) })
		for _, p := range []string{"CREATE TABLE {0} ( a " + T + " ) ;", "CREATE TABLE t ( {0} " + T + " ) ;", "CREATE TABLE t ( a {0} ) ;", "CREATE TABLE t ( a " + T + " {0} ) ;", "CREATE TABLE t ( a " + T + " DEFAULT {0} ) ;", "CREATE TABLE t ( a " + T + " REFERENCES {0} ( {0} ) ) ;", "CREATE TABLE t ( a " + T + " , {0} ( a ) ) ;", "CREATE TABLE t ( a " + T + " , {0} KEY ( a ) ) ;", "CREATE {0} t ( a " + T + " ) ;", "CREATE TABLE t ( a " + T + " NOT {0} ) ;", "CREATE TABLE t ( a " + T + " ) {0} ;", "{0} TABLE t ( a " + T + " ) ;", "CREATE TABLE t ( {0} {1} ) ;"} {
			ds := []*Domain{qf}
			if strings.Contains(p, "{1}") {
				ds = append(ds, b.v.mid(d))
			}
			b.free("kinds", "Main", d, p, ds...)
		}
		b.slideH("slideQ", d, sentences(d, "tceosrw"), qf, 0, false)
	})
	b.bound("quoted texts: %d forms and 2 free characters (3 of the small set) in every name and string position; pairs of adjacent quoted texts; a quoted text in place of every token of every phrase", len(b.v.doms["inner"].vals))
	b.big("n")
}

func (b *SB) propC16() {
	cases := func(name string, d int, l []string) *Domain {
		n := dn(name, d)
		if x, ok := b.v.doms[n]; ok {
			return x
		}
		var all []string
		for _, s := range l {
			all = append(all, s)
			f := toks(s)
			for _, conv := range []func(string) string{strings.ToLower, mixed, func(s string) string { return swap(mixed(s)) }} {
				g := append([]string{}, f...)
				for i := range g {
					if specIsIdent(g[i]) && g[i] == asciiUpper(g[i]) && len(g[i]) > 1 {
						g[i] = conv(g[i])
					}
					g[i] = strings.ReplaceAll(g[i], " ", "␣")
				}
				all = append(all, strings.Join(g, " "))
			}
		}
		return b.ph(name, d, all)
	}
	all3(func(d int) {
		T := typ(d)
		p := phrases[d]
		b.free("case", "Main", d, "CREATE TABLE t ( a {0} NOT NULL , b "+T+" ) ;", cases("ctypes", d, p.types))
		b.free("case", "Main", d, "CREATE TABLE t ( a "+T+" {0} , b "+T+" ) ;", cases("cclause", d, p.clauses))
		b.free("case", "Main", d, "CREATE TABLE t ( z "+T+" , {0} ) ;", cases("celem", d, p.elements))
		b.free("case", "Main", d, "CREATE TABLE t ( z "+T+" ) {0} ;", cases("copt", d, p.options))
		b.free("case", "Main", d, "{0} CREATE TABLE t ( z "+T+" ) ;", cases("cstmt", d, p.stmts))
		b.free("case", "Main", d, "CREATE TABLE t ( z "+T+" REFERENCES o ( x ) {0} ) ;", cases("cref", d, refTails[d]))
		// one keyword at a time in every spelling
		for _, f := range sentences(d, "tceosrm") {
			for k := f.from; k < f.to; k++ {
				w := f.toks[k]
				if !specIsIdent(w) || len(w) < 2 {
					continue
				}
				ps := fixed(f.toks...)
				ps[k] = Piece{Var: 1}
				b.add("word", "Main", 0, d, one(ps), []*Domain{b.v.dom("case_"+w, func() []string {
					return []string{w, strings.ToUpper(w), strings.ToLower(w), mixed(w), swap(mixed(w)), strings.ToUpper(w[:1]) + strings.ToLower(w[1:]), strings.ToLower(w[:1]) + strings.ToUpper(w[1:]), strings.ToLower(w[:len(w)-1]) + strings.ToUpper(w[len(w)-1:])}
				})})
			}
		}
		// pairs of spellings of the same text, independent of the specification
		for _, f := range sentences(d, "ceos") {
			up := fixed(f.toks...)
			var vars []*Domain
			lo := fixed(f.toks...)
			for k := f.from; k < f.to; k++ {
				w := f.toks[k]
				if specIsIdent(w) && len(w) > 1 && w == asciiUpper(w) && len(vars) < 4 {
					vars = append(vars, b.v.dom("case3_"+w, func() []string { return []string{w, strings.ToLower(w), mixed(w)} }))
					lo[k] = Piece{Var: len(vars)}
				}
			}
			if len(vars) > 0 {
				s := b.add("pair", "Pair", 0, d, [][]Piece{up, lo}, vars)
				s.MaxPath = 2000
			}
		}
		// names keep their case
		n := b.v.dom(dn("cname", d)+"x", func() []string {
			return b.v.filter(d, []string{"abc", "ABC", "aBc", "AbC", "Table1", "TABLE1", "\"aBc\"", "\"ABC d\"", "`aBc`", "`ABC d`", "_A", "_a", "Éa", "\"É\"", "\"é\"", "select1", "KEYX", "keyx"})
		})
		for _, f := range []string{"CREATE TABLE {0} . {1} ( a " + T + " ) ;", "CREATE TABLE t ( {0} " + T + " REFERENCES {1} ( {1} ) ) ;", "CREATE TABLE t ( a " + T + " , CONSTRAINT {0} UNIQUE ( {1} , {0} ) ) ;", "CREATE TABLE t ( a " + T + " , FOREIGN KEY ( {0} ) REFERENCES {1} ( {0} ) ) ;", "CREATE TABLE t ( a " + T + " CHECK ( {0} {1} ) , CHECK ( {1} {0} ) ) ;", "CREATE TABLE t ( a " + T + " DEFAULT ( {0} {1} ) ) ;"} {
			b.free("names", "Main", d, f, n, n)
		}
		st := b.v.dom("cstr", func() []string {
			return []string{"'aBc'", "'ABC'", "'abc'", "'É é ſ'", "'NULL'", "'null'", "'Current_Date'"}
		})
		b.free("names", "Main", d, "CREATE TABLE t ( a "+T+" DEFAULT {0} CHECK ( {0} ) , CHECK ( {0} ) ) ;", st)
		cd := b.v.dom("ccur", func() []string {
			var out []string
			for _, w := range []string{"CURRENT_DATE", "CURRENT_TIME", "CURRENT_TIMESTAMP", "NULL", "TRUE", "FALSE", "BINARY", "NOCASE", "RTRIM", "utf8_bin", "UTF8_BIN", "Utf8"} {
				out = append(out, w, strings.ToLower(w), mixed(w), swap(mixed(w)))
			}
			return out
		})
		b.free("kept", "Main", d, "CREATE TABLE t ( a "+T+" DEFAULT {0} NOT NULL ) ;", cd)
		b.free("kept", "Main", d, "CREATE TABLE t ( a "+T+" COLLATE {0} NOT NULL ) ;", cd)
		b.free("kept", "Main", d, "CREATE TABLE t ( a "+T+" CHECK ( {0} {1} ) ) ;", cd, cd)
		b.charHole("chars", d, "{0}REATE TABLE t (a "+T+");", 1, b.v.chars())
		b.charHole("chars", d, "CREATE TABL{0} t (a "+T+" N{0}T NUL{0});", 1, b.v.chars())
		b.charHole("chars", d, "CREATE TABLE t (a "+T+" "+"C{0}ECK (x), UNIQU{0} (a));", 1, b.v.chars())
	})
	b.bound("every phrase in 4 spellings, every keyword of every phrase in 8 spellings one at a time and up to 4 keywords in 3 spellings at once")
	b.base("", "stmt0", "type", "c1", "e1", "opt")
}

func swap(s string) string {
	b := []byte(s)
	for i, c := range b {
		switch {
		case c >= 'a' && c <= 'z':
			b[i] = c - 32
		case c >= 'A' && c <= 'Z':
			b[i] = c + 32
		}
	}
	return string(b)
}

func (b *SB) propC17() {
	all3(func(d int) {
		T := typ(d)
		st := b.ph("stmtPlain", d, phrases[d].stmts)
		cat := func(fam string, a, z string, ds ...*Domain) {
			s := b.add(fam, "Concat", 0, d, [][]Piece{tk(a), tk(z)}, ds)
			s.MaxPath = 60000
		}
		cat("stmts", "{0}", "{1}", st, st)
		cat("stmts", "↵ {0} ↵", "↵ {1}", st, st)
		ss := b.ph("stmtS", d, shortList(phrases[d].stmts, 12))
		cat("stmts3", "{0} {1}", "{2}", ss, ss, ss)
		cl := b.ph("clause", d, phrases[d].clauses)
		el := b.ph("elemPlain", d, phrases[d].elements)
		op := b.ph("option", d, phrases[d].options)
		cat("clause", "CREATE TABLE t ( a "+T+" {0} ) ;", "CREATE TABLE u ( b "+T+" {1} ) ;", cl, cl)
		cat("elem", "CREATE TABLE t ( z "+T+" , {0} ) ;", "CREATE TABLE u ( y "+T+" , {1} ) ;", el, el)
		cat("opt", "CREATE TABLE t ( z "+T+" ) {0} ;", "CREATE TABLE u ( y "+T+" , {1} ) ;", op, el)
		cat("mix", "CREATE TABLE t ( z "+T+" , {0} ) ;", "CREATE TABLE u ( y "+T+" {1} ) ;", el, cl)
		cat("head", "CREATE TABLE IF NOT EXISTS s . t ( z "+T+" {0} ) ;", "CREATE TABLE {1} ( y "+T+" ) ;", cl, b.v.names(d))
		cat("err", "CREATE TABLE t ( z "+T+" {0} ) ; ↵", "CREATE TABLE ↵ u ( y "+T+" {1} ) ;", cl, b.v.full(d))
		cat("err", "{0}", "CREATE TABLE ↵ u ( y "+T+" ↵ {1} ) ;", st, b.v.full(d))
		cat("err", "{0}", "{1}", st, b.v.full(d))
		cat("err", "{0} ↵", "CREATE {1}", st, b.v.full(d))
		// elements of one table
		elems := func(fam string, a, z string, ds ...*Domain) {
			s := b.add(fam, "Elems", 0, d, [][]Piece{tk("CREATE TABLE t ("), tk(a), tk(z), tk(") ;")}, ds)
			s.MaxPath = 60000
		}
		rc := b.ph("rich", d, rich[d])
		elems("rich", "a "+T+" {0}", "b "+T+" {1}", rc, cl)
		elems("rich", "a "+T+" {1}", "b "+T+" {0}", rc, cl)
		elems("rich", "a "+T+" {0}", "b "+T+" {1}", rc, rc)
		elems("rich", "a "+T+" {0}", "b "+T+" {1} , c "+T+" {2}", rc, rc, rc)
		elems("rich", "a "+T+" {0}", "{1}", rc, el)
		cat("rich", "CREATE TABLE t ( a "+T+" {0} , z "+T+" ) ;", "CREATE TABLE u ( b "+T+" {1} , y "+T+" ) ;", rc, rc)
		wh := b.ph("whole", d, whole[d])
		cat("rich", "{0}", "{1}", wh, st)
		cat("rich", "{1}", "{0}", wh, st)
		cat("rich", "{0}", "{0}", wh)
		elems("elems", "{0}", "{1}", el, el)
		elems("elems", "z "+T+" , {0}", "{1}", el, el)
		elems("cols", "a "+T+" {0}", "b "+T+" {1}", cl, cl)
		elems("cols", "a "+T+" {0}", "{1}", cl, el)
		elems("cols", "a {0}", "b {1}", b.ph("type", d, phrases[d].types), b.ph("type", d, phrases[d].types))
		es := b.ph("elemS", d, shortList(phrases[d].elements, 12))
		elems("elems3", "{0} , {1}", "{2}", es, es, es)
		elems("names", "{0} "+T, "b "+T+" {1}", b.v.names(d), b.ph("clauseS", d, shortList(phrases[d].clauses, 16)))
		elems("expr", "a "+T+" CHECK ( {0} {1} )", "b "+T+" NOT NULL", b.v.mid(d), b.v.mid(d))
		elems("expr", "a "+T+" DEFAULT {0}", "b "+T, b.v.full(d))
		// characters
		cc := func(a, z string, n int, dom *Domain) {
			var vars []*Domain
			exp := func(s string) []Piece {
				var out []Piece
				for _, p := range ch(s) {
					if p.Var == 0 {
						out = append(out, p)
						continue
					}
					for i := 0; i < n; i++ {
						vars = append(vars, dom)
						out = append(out, Piece{Var: len(vars)})
					}
				}
				return out
			}
			s := b.add("chars", "Concat", 1, d, [][]Piece{exp(a), exp(z)}, vars)
			s.MaxPath = 60000
		}
		cc("CREATE TABLE t (a "+T+");{0}", "\nCREATE TABLE u (b "+T+");", 1, b.v.chars())
		cc("CREATE TABLE t (a "+T+" DEFAULT '{0}');\n", "CREATE TABLE u (b "+T+" DEFAULT 'x');", 2, b.v.charsSmall())
		cc("CREATE TABLE t (a "+T+"); -- {0}\n", "CREATE TABLE u (b "+T+");", 2, b.v.charsSmall())
		cc("CREATE TABLE t (a "+T+"); /*{0}*/", "CREATE TABLE u (b "+T+");", 2, b.v.charsSmall())
		cc("CREATE TABLE t (a "+T+");\n", "{0}", 2, b.v.chars())
		for _, n := range b.sizes() {
			s := rep(n, func(i int) string { return "CREATE TABLE t" + strconv.Itoa(i) + " ( a " + T + " UNIQUE ) ;" })
			cat("big", s, "{0}", st)
			k := rep(n, func(i int) string { return "c" + strconv.Itoa(i) + " " + T + " NOT NULL ," })
			elems("big", k+" c "+T, "{0}", el)
		}
	})
	b.bound("all pairs of statements, clauses and elements, 3 in a row (12 forms each), one free token in the second text, sizes %v", b.sizes())
}

func (b *SB) propC18() {
	all3(func(d int) {
		T := typ(d)
		st := b.ph("stmtPlain", d, phrases[d].stmts)
		hist := func(fam string, texts []string, ds []int, vars ...*Domain) *Scenario {
			var ts [][]Piece
			for _, t := range texts {
				ts = append(ts, tk(t))
			}
			s := b.add(fam, "History", 0, d, ts, vars, ds...)
			s.MaxPath = 40000
			return s
		}
		for o := 0; o < 3; o++ {
			so := b.ph("stmtPlain", o, phrases[o].stmts)
			hist("two", []string{"{0}", "{1}"}, []int{o}, so, st)
			oc := b.ph("clause", o, phrases[o].clauses)
			oe := b.ph("elemS", o, shortList(phrases[o].elements, 12))
			hist("after", []string{"CREATE TABLE t ( a " + typ(o) + " {0} , z " + typ(o) + " ) ;", "CREATE TABLE t ( a " + T + " {1} , b " + T + " ) ;"}, []int{o}, oc, b.ph("clauseS", d, shortList(phrases[d].clauses, 16)))
			hist("after", []string{"CREATE TABLE t ( a " + typ(o) + " , {0} ) ;", "CREATE TABLE t ( b " + T + " , {1} ) ;"}, []int{o}, oe, b.ph("elemS", d, shortList(phrases[d].elements, 12)))
			hist("rejected", []string{"CREATE TABLE t ( a " + typ(o) + " {0} ) ;", "CREATE TABLE t ( b " + T + " NOT NULL REFERENCES o ( x , y ) , UNIQUE ( b ) ) ;"}, []int{o}, b.v.full(o))
			hist("rejected", []string{"CREATE TABLE {0} ( a " + typ(o) + " ) ;", "CREATE TABLE {1} ( b " + T + " ) ;"}, []int{o}, b.v.mid(o), b.v.mid(d))
			hist("rejected", []string{"{0}", "CREATE TABLE u ( b " + T + " {1} ) ;"}, []int{o}, b.v.full(o), b.ph("clauseS", d, shortList(phrases[d].clauses, 16)))
			hist("trunc", []string{"CREATE TABLE t ( a " + typ(o) + " CHECK ( {0}", "CREATE TABLE t ( b " + T + " {1} ) ;"}, []int{o}, b.v.mid(o), b.ph("clauseS", d, shortList(phrases[d].clauses, 16)))
		}
		rc, wh := b.ph("rich", d, rich[d]), b.ph("whole", d, whole[d])
		hist("rich", []string{"CREATE TABLE t ( a " + T + " {0} , z " + T + " ) ;", "CREATE TABLE t ( a " + T + " {1} , z " + T + " ) ;"}, []int{d}, rc, rc)
		hist("rich", []string{"{0}", "{1}"}, []int{d}, wh, st)
		hist("rich", []string{"{1}", "{0}"}, []int{d}, wh, st)
		// the same text, and the same table name, again
		cl := b.ph("clause", d, phrases[d].clauses)
		hist("same", []string{"CREATE TABLE t ( a " + T + " {0} , b " + T + " ) ;", "CREATE TABLE t ( a " + T + " {0} , b " + T + " ) ;"}, []int{d}, cl)
		hist("same", []string{"CREATE TABLE t ( a " + T + " {0} , b " + T + " ) ;", "CREATE TABLE t ( a " + T + " {1} , b " + T + " ) ;"}, []int{d}, cl, cl)
		el := b.ph("elemPlain", d, phrases[d].elements)
		hist("same", []string{"CREATE TABLE t ( z " + T + " , {0} ) ;", "CREATE TABLE t ( z " + T + " , {1} ) ;"}, []int{d}, el, el)
		ty := b.ph("type", d, phrases[d].types)
		hist("same", []string{"CREATE TABLE t ( a {0} ) ;", "CREATE TABLE t ( a {1} ) ;"}, []int{d}, ty, ty)
		// three earlier calls in different dialects, one rejected
		for _, o := range [][]int{{0, 1, 2}, {2, 2, 1}, {d, d, d}} {
			hist("four", []string{"CREATE TABLE a ( a " + typ(o[0]) + " NOT NULL ) ;", "CREATE TABLE t ( %", "CREATE TABLE t ( b " + typ(o[2]) + " ) ; {0}", "CREATE TABLE t ( c " + T + " {1} ) ;"}, o, b.ph("stmtS", o[2], shortList(phrases[o[2]].stmts, 12)), cl)
		}
		// three earlier calls in every order of dialects, each accepted, rejected or empty
		small := func(o int) *Domain {
			return b.ph("hist3", o, []string{"", "CREATE TABLE t ( a " + typ(o) + " NOT NULL ) ;", "CREATE TABLE t ( %"})
		}
		for o := 0; o < 27; o++ {
			ds := []int{o % 3, o / 3 % 3, o / 9}
			hist("orders", []string{"{0}", "{1}", "{2}", "CREATE TABLE t ( c " + T + " {3} ) ;"}, ds, small(ds[0]), small(ds[1]), small(ds[2]), b.ph("clause4", d, shortList(phrases[d].clauses, 4)))
			if ds[2] == 0 {
				hist("orders", []string{"{0}", "{1}", "CREATE TABLE t ( c " + T + " {2} ) ;"}, ds[:2], small(ds[0]), small(ds[1]), cl)
			}
		}
		// many calls
		for _, n := range []int{3, 70} {
			for o := 0; o < 3; o++ {
				hist("many", []string{"CREATE TABLE a ( a " + typ(o) + " NOT NULL ) ;", "CREATE TABLE t ( c " + T + " {0} ) ;"}, []int{o, n}, b.ph("clauseS", d, shortList(phrases[d].clauses, 16)))
			}
		}
		for _, c := range b.v.repoInt {
			if c >= 4 && c <= 2000 && c != 64 {
				hist("many", []string{"CREATE TABLE a ( a " + T + " NOT NULL ) ;", "CREATE TABLE t ( c " + T + " {0} ) ;"}, []int{d, c + 1}, b.ph("clause6", d, shortList(phrases[d].clauses, 6)))
			}
		}
		// characters
		for _, t := range []string{"CREATE TABLE t (a " + T + " DEFAULT '{0}", "CREATE TABLE t (a " + T + "); -- {0}", "/*{0}", "CREATE TABLE t (a{0}" + T + ");"} {
			for o := 0; o < 3; o++ {
				s := b.add("chars", "History", 1, d, [][]Piece{ch(t), ch("CREATE TABLE t (b " + T + " DEFAULT '{0}' NOT NULL);\n-- x\n")}, []*Domain{b.v.charsSmall()}, o)
				_ = s
			}
		}
		// writes to memory that outlives the call
		for _, f := range sentences(d, "ceosmw") {
			b.add("steady", "Steady", 0, d, one(fixed(f.toks...)), nil)
		}
		for _, f := range []string{"CREATE TABLE t ( a " + T + " {0} , b " + T + " ) ;", "CREATE TABLE t ( {0} ) ;", "{0}", "CREATE TABLE t ( a {0} ) ;", "CREATE TABLE {0} ( a " + T + " ) ;"} {
			b.add("steady", "Steady", 0, d, one(tk(f)), []*Domain{b.v.full(d)})
		}
	})
	b.bound("histories of 2 calls over all pairs of statements and dialects, over pairs of clauses, elements and types, after rejected calls with a free token; 3 and 4 calls in every order of dialects, the earlier ones accepted, rejected or empty; 3 and 70 repetitions; every call also compared with the same call in a fresh program")
}

func (b *SB) propC19() {
	d := 0
	ent := func(fam, t string, ds ...*Domain) {
		s := b.add(fam, "Entry", 0, d, one(tk(t)), ds)
		s.MaxPath = 60000
	}
	for o := 0; o < 3; o++ {
		ent("stmt", "{0}", b.ph("stmtPlain", o, phrases[o].stmts))
		ent("stmt", "{0} {1}", b.ph("stmtS", o, shortList(phrases[o].stmts, 12)), b.ph("stmtS", (o+1)%3, shortList(phrases[(o+1)%3].stmts, 12)))
		for p := 0; p < 3; p++ {
			T := typ(p)
			ent("clause", "CREATE TABLE t ( a "+T+" {0} , b "+T+" ) ;", b.ph("clause", o, phrases[o].clauses))
			ent("elem", "CREATE TABLE t ( a "+T+" , {0} ) ;", b.ph("elemPlain", o, phrases[o].elements))
			ent("opt", "CREATE TABLE t ( a "+T+" ) {0} ;", b.ph("option", o, phrases[o].options))
		}
		ent("type", "CREATE TABLE t ( a {0} , b TEXT ) ;", b.ph("type", o, phrases[o].types))
		ent("free", "CREATE TABLE t ( a TEXT {0} , b TEXT ) ;", b.v.full(o))
		ent("free", "CREATE TABLE {0} ( a TEXT ) ;", b.v.names(o))
		ent("free", "CREATE TABLE t ( {0} TEXT ) ;", b.v.names(o))
		ent("free", "CREATE TABLE t ( a {0} {1} ) ;", b.v.mid(o), b.v.mid(o))
		ent("free", "{0} {1}", b.v.mid(o), b.v.mid(o))
		ent("free", "CREATE TABLE t ( a TEXT ) {0} {1}", b.v.mid(o), b.v.mid(o))
		ent("types", "CREATE TABLE t ( a {0} DEFAULT {1} ) ;", b.ph("type", o, phrases[o].types), b.v.mid(o))
	}
	for _, t := range []string{"{0}", "CREATE TABLE t (a TEXT{0});", "CREATE TABLE t (a TEXT DEFAULT '{0}');", "CREATE TABLE t (a TEXT) {0};", "CREATE TABLE {0}(a INTEGER);", "CREATE TABLE t (a TEXT);{0}", "CREATE TABLE t (x INT CHECK (y {0}\n z));", "CREATE TABLE t (x INT DEFAULT ({0} z\n));", "CREATE TABLE t (x INT {0}\n NOT NULL);", "CREATE TABLE t (x TEXT {0} UNIQUE\n NOT NULL);", "CREATE TABLE t (x INT, CHECK ({0}));", "CREATE TABLE t (x INT DEFAULT {0}, y INT);"} {
		var out []Piece
		var vars []*Domain
		n := 2
		for _, p := range ch(t) {
			if p.Var == 0 {
				out = append(out, p)
				continue
			}
			for i := 0; i < n; i++ {
				vars = append(vars, b.v.charsSmall())
				out = append(out, Piece{Var: len(vars)})
			}
		}
		s := b.add("chars", "Entry", 1, 0, one(out), vars)
		s.MaxPath = 60000
		b.add("chars", "Entry", 1, 0, one(ch(t)), []*Domain{b.v.chars()})
	}
	b.bound("every phrase of every dialect, with the plain types of each; two free tokens in 4 places; 1 and 2 free characters in 6 places")
}

func (b *SB) propC20() {
	b.huge("n")
	all3(func(d int) {
		T := typ(d)
		n := b.nameHole(d)
		places := []string{"CREATE TABLE {0} ( a " + T + " ) ;", "CREATE TABLE {0} . t ( a " + T + " ) ;", "CREATE TABLE s . {0} ( a " + T + " ) ;", "CREATE TABLE IF NOT EXISTS {0} ( a " + T + " ) ;",
			"CREATE TABLE t ( {0} " + T + " ) ;", "CREATE TABLE t ( a " + T + " , {0} " + T + " NOT NULL ) ;", "CREATE TABLE t ( a " + T + " , {0} " + T + " , UNIQUE ( a ) ) ;",
			"CREATE TABLE t ( a " + T + " CONSTRAINT {0} CHECK ( x ) , b " + T + " ) ;", "CREATE TABLE t ( a " + T + " , CONSTRAINT {0} UNIQUE ( a ) ) ;", "CREATE TABLE t ( a " + T + " , CONSTRAINT {0} PRIMARY KEY ( a ) ) ;", "CREATE TABLE t ( a " + T + " , CONSTRAINT {0} CHECK ( a ) , b " + T + " ) ;", "CREATE TABLE t ( a " + T + " , CONSTRAINT {0} FOREIGN KEY ( a ) REFERENCES o ( x ) ) ;",
			"CREATE TABLE t ( a " + T + " , PRIMARY KEY ( {0} ) ) ;", "CREATE TABLE t ( a " + T + " , UNIQUE ( a , {0} ) ) ;", "CREATE TABLE t ( a " + T + " , FOREIGN KEY ( {0} ) REFERENCES o ( x ) ) ;", "CREATE TABLE t ( a " + T + " , FOREIGN KEY ( a ) REFERENCES {0} ( x ) ) ;", "CREATE TABLE t ( a " + T + " , FOREIGN KEY ( a ) REFERENCES o ( {0} ) ) ;",
			"CREATE TABLE t ( a " + T + " REFERENCES {0} ( x ) ) ;", "CREATE TABLE t ( a " + T + " REFERENCES {0} , b " + T + " ) ;", "CREATE TABLE t ( a " + T + " REFERENCES o ( {0} ) ) ;", "CREATE TABLE t ( a " + T + " REFERENCES s . {0} ( x ) ) ;", "CREATE TABLE t ( a " + T + " REFERENCES {0} . o ( x ) ) ;"}
		switch d {
		case 0:
			places = append(places, "CREATE TEMP TABLE {0} ( a "+T+" ) ;", "CREATE TABLE t ( a "+T+" CONSTRAINT {0} NOT NULL ) ;", "CREATE TABLE t ( a "+T+" CONSTRAINT {0} PRIMARY KEY AUTOINCREMENT ) ;")
		case 1:
			places = append(places, "CREATE TABLE t ( a "+T+" CONSTRAINT {0} NOT NULL ) ;", "CREATE TABLE t ( a "+T+" UNIQUE USING INDEX TABLESPACE {0} ) ;", "CREATE TABLE t ( a "+T+" ) TABLESPACE {0} ;", "CREATE TABLE t ( a "+T+" , CONSTRAINT {0} EXCLUDE ( a ) ) ;")
		case 2:
			places = append(places, "CREATE TABLE t ( a "+T+" , UNIQUE KEY {0} ( a ) ) ;", "CREATE TABLE t ( a "+T+" , INDEX {0} ( a ) ) ;", "CREATE TABLE t ( a "+T+" , KEY i ( {0} ) ) ;", "CREATE TABLE t ( a "+T+" ) TABLESPACE {0} ;")
		}
		for _, p := range places {
			b.free("place", "Main", d, p, n)
		}
		k := 3
		if b.thorough {
			k = 4
		}
		nc := b.v.dom("namechar", func() []string {
			return []string{"a", "Z", "k", "_", "0", "9", "$", "-", "@", "é", "名", "\u017f", "\u212a", "\"", "`", "'", "#", "!", "\u00a0", "\\", "[", "]", ":", "/", "*", "+", "\x00", "~"}
		})
		for _, p := range []string{"CREATE TABLE {0} (a " + T + ");", "CREATE TABLE t ({0} " + T + ");", "CREATE TABLE t (a " + T + ", CONSTRAINT {0} UNIQUE (a));", "CREATE TABLE t (a " + T + ", UNIQUE ({0}));"} {
			b.charHole("chars", d, p, 2, b.v.chars())
			b.charHole("charsN", d, p, k, nc)
		}
		b.free("two", "Main", d, "CREATE TABLE {0} ( {1} "+T+" ) ;", b.v.mid(d), n)
		b.free("two", "Main", d, "CREATE TABLE t ( {0} "+T+" , UNIQUE ( {1} ) ) ;", b.v.mid(d), n)
		b.charHole("reserved", d, "CREATE TABLE {0}ELECT (a "+T+");", 1, b.v.chars())
		b.charHole("reserved", d, "CREATE TABLE t (tabl{0} "+T+");", 1, b.v.chars())
		b.charHole("reserved", d, "CREATE TABLE t (select{0} "+T+");", 1, b.v.chars())
		b.charHole("reserved", d, "CREATE TABLE t (chec{0} "+T+");", 1, b.v.chars())
	})
	b.bound("%d, %d, %d name forms (every reserved word of every dialect in 3 spellings, quoted keywords, lengths up to 1000, odd characters) in up to 26 name positions; 2 free characters and 3 of 28 as a whole name", len(b.v.names(0).vals), len(b.v.names(1).vals), len(b.v.names(2).vals))
	b.big("n")
}

func (b *SB) propC21() {
	all3(func(d int) {
		T := typ(d)
		conc := func(t string, ds ...*Domain) {
			b.add("conc", "Conc", 0, d, one(tk(t)), ds)
		}
		conc("{0}", b.ph("stmtPlain", d, phrases[d].stmts))
		conc("{0}", b.v.full(d))
		conc("{0}", b.ph("whole", d, whole[d]))
		conc("CREATE TABLE t ( a "+T+" {0} ) ;", b.ph("rich", d, rich[d]))
		conc("CREATE TABLE t ( a "+T+" {0} , b "+T+" ) ;", b.ph("clause", d, phrases[d].clauses))
		conc("CREATE TABLE t ( z "+T+" , {0} ) ;", b.ph("elemPlain", d, phrases[d].elements))
		conc("CREATE TABLE t ( a {0} ) ;", b.ph("type", d, phrases[d].types))
		conc("CREATE TABLE t ( a "+T+" ) {0} ;", b.ph("option", d, phrases[d].options))
		conc("CREATE TABLE t ( a "+T+" {0} ) ;", b.v.full(d))
		conc("CREATE TABLE {0} ( a "+T+" ) ;", b.v.names(d))
		conc("CREATE TABLE t ( {0} "+T+" ) ;", b.v.names(d))
		conc("CREATE TABLE t ( a "+T+" DEFAULT {0} ) ;", b.v.full(d))
		conc("CREATE TABLE t ( a "+T+" , CONSTRAINT {0} UNIQUE ( a ) ) ;", b.v.names(d))
		for o := 0; o < 3; o++ {
			b.add("conc2", "Conc", 0, d, [][]Piece{tk("{0}"), tk("{1}")}, []*Domain{b.ph("stmtPlain", d, phrases[d].stmts), b.ph("stmtS", o, shortList(phrases[o].stmts, 12))}, o)
			b.add("conc2", "Conc", 0, d, [][]Piece{tk("CREATE TABLE t ( a " + T + " {0} ) ;"), tk("CREATE TABLE t ( a " + typ(o) + " {1} ) ;")}, []*Domain{b.ph("clauseS", d, shortList(phrases[d].clauses, 16)), b.ph("clauseS", o, shortList(phrases[o].clauses, 16))}, o)
		}
		for _, t := range charTemplates(d) {
			b.add("chars", "Conc", 1, d, one(ch(t)), []*Domain{b.v.chars()})
		}
	})
	b.bound("two threads, each one call: every statement, clause, element, type, option, one free token in 5 places, one free character in every template; pairs of different calls in all dialect combinations")
}
