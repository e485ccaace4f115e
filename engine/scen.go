package main

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"
)

// SB builds the scenarios of one property.
type SB struct {
	v        *Vocab
	prop     int
	thorough bool
	out      []*Scenario
	fam      map[string]int
	bounds   []string
}

func (b *SB) add(fam, h string, mode, d int, texts [][]Piece, vars []*Domain, args ...int) *Scenario {
	b.fam[fam]++
	s := &Scenario{Name: fam + "/" + dialectNames[d] + "/" + strconv.Itoa(b.fam[fam]), Harness: h, Mode: mode, Dialect: d,
		Args: append([]int{b.prop}, args...), Texts: texts, Vars: vars}
	b.out = append(b.out, s)
	return s
}

func (b *SB) bound(f string, a ...any) { b.bounds = append(b.bounds, fmt.Sprintf(f, a...)) }

// PostgreSQL reserves some one-letter words; in templates and phrases they are names.
var oneLetter = regexp.MustCompile("(^|[^A-Za-z0-9_'\"`])([acgkm])($|[^A-Za-z0-9_'\"`])")

func plainName(s string) string {
	if len(s) == 1 && strings.Contains("acgkm", s) {
		return s + "1"
	}
	return s
}

func plainNames(s string) string {
	for i := 0; i < 2; i++ { // twice: neighbours share a separator
		s = oneLetter.ReplaceAllString(s, "${1}${2}1${3}")
	}
	return s
}

// tk reads a token template: {k} is the k-th variable, ␣ a space inside a token, ↵ a newline token.
func tk(s string) []Piece {
	var out []Piece
	for _, f := range strings.Fields(s) {
		if len(f) == 3 && f[0] == '{' && f[2] == '}' {
			out = append(out, Piece{Var: int(f[1]-'0') + 1})
			continue
		}
		f = strings.ReplaceAll(f, "␣", " ")
		if f == "↵" {
			f = "\n"
		}
		out = append(out, Piece{S: plainName(f)})
	}
	return out
}

// ch reads a character template: {k} is the k-th variable; everything else is taken as it is.
func ch(s string) []Piece {
	var out []Piece
	lit := ""
	for i := 0; i < len(s); i++ {
		if s[i] == '{' && i+2 < len(s) && s[i+2] == '}' && s[i+1] >= '0' && s[i+1] <= '9' {
			if lit != "" {
				out = append(out, Piece{S: plainNames(lit)})
			}
			lit = ""
			out = append(out, Piece{Var: int(s[i+1]-'0') + 1})
			i += 2
			continue
		}
		lit += s[i : i+1]
	}
	if lit != "" {
		out = append(out, Piece{S: plainNames(lit)})
	}
	return out
}

func seq(ps ...[]Piece) []Piece {
	var out []Piece
	for _, p := range ps {
		out = append(out, p...)
	}
	return out
}

func one(p []Piece) [][]Piece { return [][]Piece{p} }

// ---- frames

// typ: a plain data type of the dialect.
func typ(d int) string { return phrases[d].base }

type framed struct {
	toks     []string
	from, to int // the phrase inside the frame
}

func frame(pre, phrase, post string) framed {
	a, p, z := toks(pre), toks(phrase), toks(post)
	return framed{append(append(append([]string{}, a...), p...), z...), len(a), len(a) + len(p)}
}

// sentences: every phrase of the dialect in a statement.
func sentences(d int, kinds string) []framed {
	p := phrases[d]
	var out []framed
	if strings.Contains(kinds, "t") {
		for _, s := range p.types {
			out = append(out, frame("CREATE TABLE t ( a", s, "UNIQUE ) ;"))
		}
	}
	if strings.Contains(kinds, "c") {
		for _, s := range p.clauses {
			out = append(out, frame("CREATE TABLE t ( a "+typ(d), s, ", b "+typ(d)+" ) ;"))
		}
	}
	if strings.Contains(kinds, "e") {
		for _, s := range p.elements {
			out = append(out, frame("CREATE TABLE t ( z "+typ(d)+" ,", s, ") ;"))
		}
	}
	if strings.Contains(kinds, "o") {
		for _, s := range p.options {
			out = append(out, frame("CREATE TABLE t ( a "+typ(d)+" )", s, ";"))
		}
	}
	if strings.Contains(kinds, "s") {
		for _, s := range p.stmts {
			out = append(out, frame("", s, ""))
		}
	}
	if strings.Contains(kinds, "m") {
		for _, s := range rich[d] {
			out = append(out, frame("CREATE TABLE t ( a "+typ(d), s, ", b "+typ(d)+" ) ;"))
		}
	}
	if strings.Contains(kinds, "w") {
		for _, s := range whole[d] {
			out = append(out, frame("", s, ""))
		}
	}
	if strings.Contains(kinds, "r") {
		for _, s := range refTails[d] {
			out = append(out, frame("CREATE TABLE t ( a "+typ(d)+" REFERENCES o ( x )", s, ", FOREIGN KEY ( a ) REFERENCES o ( x ) "+s+" ) ;"))
		}
	}
	return out
}

// slide: one free token (or none) in the place of, before and after every token of the phrase.
func (b *SB) slide(fam string, d int, fs []framed, dom *Domain, layout int) {
	b.slideH(fam, d, fs, dom, layout, true)
}

func (b *SB) slideH(fam string, d int, fs []framed, dom *Domain, layout int, insert bool) {
	lay := func(ps []Piece) []Piece {
		if layout == 0 {
			return ps
		}
		var out []Piece
		for i, p := range ps {
			if layout == 1 || (layout == 2 && i%3 == 0) {
				out = append(out, Piece{S: "\n"})
			}
			out = append(out, p)
		}
		if layout == 2 {
			out = append(out, Piece{S: "\n"}, Piece{S: "\n"})
		}
		return out
	}
	seen := map[string]bool{}
	for _, f := range fs {
		for k := f.from; k <= f.to; k++ {
			if k < f.to {
				ps := fixed(f.toks...)
				ps[k] = Piece{Var: 1}
				key := strings.Join(f.toks[:k], "\x01") + "\x02" + strings.Join(f.toks[k+1:], "\x01")
				if !seen[key] {
					seen[key] = true
					b.add(fam, "Main", 0, d, one(lay(ps)), []*Domain{dom})
				}
			}
			if insert {
				ps := append(append(fixed(f.toks[:k]...), Piece{Var: 1}), fixed(f.toks[k:]...)...)
				key := strings.Join(f.toks[:k], "\x01") + "\x02" + strings.Join(f.toks[k:], "\x01")
				if !seen[key] {
					seen[key] = true
					b.add(fam, "Main", 0, d, one(lay(ps)), []*Domain{dom})
				}
			}
		}
	}
}

// trunc: the text stops after k tokens, one more free token (or none) may follow.
func (b *SB) trunc(fam string, d int, fs []framed, dom *Domain, h string) {
	seen := map[string]bool{}
	for _, f := range fs {
		for k := 0; k <= f.to; k++ {
			key := strings.Join(f.toks[:k], "\x01")
			if seen[key] {
				continue
			}
			seen[key] = true
			b.add(fam, h, 0, d, one(append(fixed(f.toks[:k]...), Piece{Var: 1})), []*Domain{dom})
		}
	}
}

// slot frame: a statement with named places; pairs of places become variables at the same time.
type slot struct {
	name string
	dom  *Domain
	def  string
}

func (b *SB) ph(name string, d int, l []string) *Domain {
	n := dn(name, d)
	if x, ok := b.v.doms[n]; ok {
		return x
	}
	x := phraseDom(n, l)
	b.v.doms[n] = x
	return x
}

func (b *SB) slots(d int) []slot {
	p := phrases[d]
	T := typ(d)
	opt := func(l []string) []string { return append([]string{""}, l...) }
	heads := []string{"TABLE", "TABLE IF NOT EXISTS"}
	if d == 0 {
		heads = append(heads, "TEMP TABLE", "TEMPORARY TABLE IF NOT EXISTS", "temp table if not exists")
	}
	tn := []string{"t", "s . t", "\"q␣t\"", "\"s\" . \"t\"", "T_1"}
	cn := []string{"a", "\"a␣b\"", "\"PRIMARY\"", "_x", "Aa"}
	if d == 2 {
		tn = []string{"t", "s . t", "`q␣t`", "`s` . `t`", "T_1"}
		cn = []string{"a", "`a␣b`", "`PRIMARY`", "_x", "Aa"}
	}
	if d == 0 {
		tn = append(tn, "`q` . t")
		cn = append(cn, "`CHECK`")
	}
	els := []string{}
	for _, e := range p.elements {
		els = append(els, ", "+e)
	}
	return []slot{
		{"stmt0", b.ph("stmt0", d, opt(p.stmts)), ""},
		{"head", b.ph("head", d, heads), "TABLE"},
		{"tname", b.ph("tname", d, tn), "t"},
		{"cname", b.ph("cname", d, cn), "a"},
		{"type", b.ph("type", d, p.types), T},
		{"c1", b.ph("clause", d, p.clauses), ""},
		{"c2", b.ph("clause", d, p.clauses), ""},
		{"c3", b.ph("clause", d, p.clauses), ""},
		{"e1", b.ph("elem", d, opt(els)), ""},
		{"e2", b.ph("elem", d, opt(els)), ""},
		{"e3", b.ph("elem", d, opt(els)), ""},
		{"opt", b.ph("option", d, p.options), ""},
		{"stmt1", b.ph("stmt0", d, opt(p.stmts)), ""},
	}
}

// slotted makes a scenario with the given slots as variables.
func (b *SB) slotted(fam string, d int, names ...string) *Scenario {
	texts, vars := b.slotText(d, names...)
	s := b.add(fam, "Main", 0, d, texts, vars)
	s.Name += " " + strings.Join(names, "×")
	s.MaxPath = 60000
	return s
}

func (b *SB) slotText(d int, names ...string) ([][]Piece, []*Domain) {
	sl := b.slots(d)
	var vars []*Domain
	var ps []Piece
	for _, s := range sl {
		switch s.name {
		case "head":
			ps = append(ps, Piece{S: "CREATE"})
		case "cname":
			ps = append(ps, Piece{S: "("})
		case "opt":
			ps = append(ps, Piece{S: ")"})
		case "stmt1":
			ps = append(ps, Piece{S: ";"})
		}
		k := -1
		for i, n := range names {
			if n == s.name {
				k = i
			}
		}
		if k >= 0 {
			vars = append(vars, s.dom)
			ps = append(ps, Piece{Var: len(vars)})
		} else {
			ps = append(ps, fixed(toks(s.def)...)...)
		}
	}
	return one(ps), vars
}

// pairs: all pairs of the named slots.
func (b *SB) pairs(fam string, names ...string) {
	for d := 0; d < 3; d++ {
		for i := range names {
			for j := i + 1; j < len(names); j++ {
				b.slotted(fam, d, names[i], names[j])
			}
		}
	}
}

// ---- characters

func (b *SB) charHole(fam string, d int, tmpl string, n int, dom *Domain) *Scenario {
	ps := ch(tmpl)
	var out []Piece
	var vars []*Domain
	for _, p := range ps {
		if p.Var == 0 {
			out = append(out, p)
			continue
		}
		for i := 0; i < n; i++ {
			vars = append(vars, dom)
			out = append(out, Piece{Var: len(vars)})
		}
	}
	s := b.add(fam, "Main", 1, d, one(out), vars)
	s.MaxPath = 200000
	return s
}
