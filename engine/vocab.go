package main

import (
	"go/constant"
	"go/types"
	"sort"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

// Vocab holds the domains of the symbolic variables. They are built on every run from the constants
// in the repository's code, the words of the specification and the phrases.
type Vocab struct {
	e        *Engine
	repoStr  []string // string constants of the repository
	repoInt  []int
	repoRune []rune
	novel    []string // identifier-like repository constants that the specification does not know
	words    []string // keywords and reserved words, upper case
	gram     [3][]string
	doms     map[string]*Domain
}

func (e *Engine) pkgConsts(p *ssa.Package, str map[string]bool, ints map[int64]bool) {
	seen := map[*ssa.Function]bool{}
	var fn func(f *ssa.Function)
	val := func(v ssa.Value, num bool) {
		c, ok := v.(*ssa.Const)
		if !ok || c.Value == nil {
			return
		}
		switch c.Value.Kind() {
		case constant.String:
			str[constant.StringVal(c.Value)] = true
		case constant.Int:
			if !num {
				return
			}
			if n, ok := constant.Int64Val(c.Value); ok {
				ints[n] = true
			}
		}
	}
	fn = func(f *ssa.Function) {
		if f == nil || seen[f] {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var ops [10]*ssa.Value
				num := false
				switch in.(type) {
				case *ssa.BinOp, *ssa.Call, *ssa.Phi, *ssa.Return:
					num = true
				}
				for _, o := range in.Operands(ops[:0]) {
					if *o != nil {
						val(*o, num)
					}
				}
			}
		}
		for _, a := range f.AnonFuncs {
			fn(a)
		}
	}
	for _, m := range p.Members {
		switch x := m.(type) {
		case *ssa.Function:
			fn(x)
		case *ssa.Type:
			for _, t := range []types.Type{x.Type(), types.NewPointer(x.Type())} {
				ms := e.prog.MethodSets.MethodSet(t)
				for i := 0; i < ms.Len(); i++ {
					if g := e.prog.MethodValue(ms.At(i)); g != nil && g.Pkg == p {
						fn(g)
					}
				}
			}
		case *ssa.NamedConst:
			if x.Value != nil {
				val(x.Value, true)
			}
		}
	}
}

// isTok: s is exactly one token of the dialect, with no newline in it.
func isTok(d int, s string) bool {
	if s == "" || strings.ContainsAny(s, "\n\u3000") || strings.Contains(s, "--") || strings.Contains(s, "/*") || strings.Contains(s, "*/") || (d == 2 && strings.Contains(s, "#")) {
		q := s != "" && (s[0] == '\'' || s[0] == '"' || s[0] == '`') && !strings.Contains(s, "\n")
		if !q {
			return false
		}
	}
	if c := s[0]; c == '\'' || c == '"' || c == '`' {
		if c == '`' && d == 1 {
			return false
		}
		if len(s) < 2 {
			return false
		}
		i := 1
		for i < len(s) {
			if s[i] == c {
				if i+1 < len(s) && s[i+1] == c {
					i += 2
					continue
				}
				return i == len(s)-1
			}
			i++
		}
		return false
	}
	if len(s) == 1 && strings.ContainsAny(s, "(),.;=") {
		return true
	}
	if strings.ContainsAny(s, " \t\r\n'\"`(),;=") {
		return false
	}
	if k := strings.IndexByte(s, '.'); k >= 0 {
		// a dot is part of a number only
		t := strings.TrimLeft(s[:k], "+-")
		if t == "" || strings.Trim(t, "0123456789") != "" || strings.IndexByte(s[k+1:], '.') >= 0 {
			return false
		}
	}
	return true
}

func mixed(s string) string {
	b := []byte(strings.ToLower(s))
	for i := 0; i < len(b); i += 2 {
		b[i] = asciiUpper(string(b[i]))[0]
	}
	return string(b)
}

func newVocab(e *Engine) *Vocab {
	v := &Vocab{e: e, doms: map[string]*Domain{}}
	rs, ri := map[string]bool{}, map[int64]bool{}
	ss, si := map[string]bool{}, map[int64]bool{}
	for path, p := range e.pkgs {
		if strings.HasPrefix(path, harnessP+"/spec") {
			e.pkgConsts(p, ss, si)
		} else if strings.HasPrefix(path, repoMod) && !strings.HasPrefix(path, harnessP) {
			e.pkgConsts(p, rs, ri)
		}
	}
	for s := range rs {
		v.repoStr = append(v.repoStr, s)
	}
	sort.Strings(v.repoStr)
	for n := range ri {
		if n >= 4 && n <= 70000 {
			v.repoInt = append(v.repoInt, int(n))
		}
		if n > 32 && n < 0x11000 && unicode.IsPrint(rune(n)) {
			v.repoRune = append(v.repoRune, rune(n))
		}
	}
	sort.Ints(v.repoInt)
	sort.Slice(v.repoRune, func(i, j int) bool { return v.repoRune[i] < v.repoRune[j] })
	w := map[string]bool{}
	for s := range ss {
		if specIsIdent(s) && s == asciiUpper(s) && len(s) > 1 || s == "A" || s == "C" || s == "G" || s == "K" || s == "M" {
			w[s] = true
		}
	}
	for d := 0; d < 3; d++ {
		g := map[string]bool{}
		p := phrases[d]
		for _, l := range [][]string{p.types, p.clauses, p.elements, p.options, p.stmts, p.inertCol, refTails[d]} {
			for _, s := range l {
				for _, t := range toks(s) {
					if specIsIdent(t) && len(t) > 1 && t == asciiUpper(t) {
						g[t] = true
						w[t] = true
					}
				}
			}
		}
		v.gram[d] = keysOf(g)
	}
	v.words = keysOf(w)
	for _, s := range v.repoStr {
		if u := asciiUpper(s); specIsIdent(s) && !w[u] && len(s) < 60 {
			v.novel = append(v.novel, s)
		}
	}
	return v
}

func keysOf(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func (v *Vocab) dom(name string, vals func() []string) *Domain {
	if d, ok := v.doms[name]; ok {
		return d
	}
	d := &Domain{name: name}
	seen := map[string]bool{}
	for _, s := range vals() {
		if !seen[s] {
			seen[s] = true
			d.vals = append(d.vals, s)
		}
	}
	v.doms[name] = d
	return d
}

// holes: variables that stand for one token or for nothing.
func (v *Vocab) holeOf(name string, base *Domain) *Domain {
	if d, ok := v.doms[name]; ok {
		return d
	}
	d := &Domain{name: name}
	d.ph = append(d.ph, []string{})
	d.vals = append(d.vals, "")
	for _, s := range base.vals {
		d.ph = append(d.ph, []string{s})
		d.vals = append(d.vals, s)
	}
	v.doms[name] = d
	return d
}

func dn(name string, d int) string { return name + string(rune('0'+d)) }

var punct = []string{"(", ")", ",", ".", ";", "="}

var numbers = []string{"0", "1", "7", "10", "255", "65535", "00", "007", "-1", "+5", "1.5", "-0.25", "+2.50", "1e3", "1E-2", "-1.5e+2", "9007199254740993", "123456789012345678", "1.", "1e", "1e+", "0x1F", "1_0", "+", "-", "+-1", "1e400", "1-2", "12a", "--1"[2:]}

var oddWords = []string{"t", "a", "b", "c", "x", "o", "T", "_", "__a1", "a1", "A_b", "Zz9", "abc", "ABC", "aBc", "nan", "NaN", "inf", "Inf", "infinity", "-inf", "1a", "9", "a-b", "a$b", "$a", "a@b", "@", "#", "é", "名前", "aé", "ıf", "ſet", "\u212aEY", "KEY\u017f", "a\u00a0b", "*", "/", "+", "-", "%", "<", ">", "<=", "<>", "!=", "||", "&&", "::", ":", "!", "?", "[", "]", "{", "}", "[a]", "\\", "a\\b", "~", "^", "|", "&", "$1", "$$", "@@x", "<EOF>", "\x00", "a\tb"[0:1], "\v", "NULL0", "NOTNULL", "PRIMARYKEY", "IFNOTEXISTS", "CREATETABLE", "create_table", "TABLES", "KEYS", "CHECKS", "UNIQUES", "DEFAULTS", "CONSTRAINTS", "TRUEX", "XTRUE", "CURRENT_TIMESTAMPS", "CURRENT_", "VARYING", "AUTO", "INCREMENT"}

var quotedForms = []string{"''", "'x'", "'X y'", "'it''s'", "''''", "'1'", "'NULL'", "'true'", "'CURRENT_DATE'", "'a,b'", "'a(b'", "'a)b'", "'a;b'", "'--c'", "'/*c*/'", "'*/'", "'#'", "'\"'", "'`'", "'é名'", "' '", "'\\'", "'a\"b'", "'inf'", "'-1.5'",
	"\"\"", "\"x\"", "\"X y\"", "\"a\"\"b\"", "\"\"\"\"", "\"1\"", "\"NULL\"", "\"PRIMARY\"", "\"primary\"", "\"CHECK\"", "\"CONSTRAINT\"", "\"UNIQUE\"", "\"FOREIGN\"", "\"KEY\"", "\"INDEX\"", "\"NOT\"", "\"a,b\"", "\"a(b\"", "\"a)b\"", "\"a;b\"", "\"--c\"", "\"/*c*/\"", "\"'\"", "\"`\"", "\"é名\"", "\"a.b\"", "\"CREATE\"", "\"TABLE\"", "\"IF\"", "\"TEXT\"", "\"select\"", "\" \"", "\"EXCLUDE\"", "\"LIKE\"", "\"#\"",
	"``", "`x`", "`X y`", "`a``b`", "`1`", "`NULL`", "`PRIMARY`", "`primary`", "`CHECK`", "`CONSTRAINT`", "`UNIQUE`", "`FOREIGN`", "`KEY`", "`INDEX`", "`NOT`", "`a,b`", "`a(b`", "`a)b`", "`a;b`", "`--c`", "`/*c*/`", "`'`", "`\"`", "`é名`", "`a.b`", "`CREATE`", "`TABLE`", "`IF`", "`INT`", "`select`", "` `", "`FULLTEXT`", "`SPATIAL`", "`#`"}

func (v *Vocab) novelForms() []string {
	var out []string
	for _, s := range v.novel {
		out = append(out, s, strings.ToUpper(s), strings.ToLower(s), s+"x", "x"+s)
	}
	for _, s := range v.repoStr {
		if len(s) > 0 && len(s) < 40 {
			out = append(out, s)
		}
	}
	return out
}

func (v *Vocab) filter(d int, ss []string) []string {
	var out []string
	for _, s := range ss {
		if isTok(d, s) {
			out = append(out, s)
		}
	}
	return out
}

// full: every known token, the dialect's grammar words in three spellings.
func (v *Vocab) full(d int) *Domain {
	return v.dom(dn("tok", d), func() []string {
		out := append([]string{}, punct...)
		for _, g := range v.gram[d] {
			out = append(out, g, strings.ToLower(g), mixed(g))
		}
		out = append(out, v.words...)
		out = append(out, numbers...)
		out = append(out, oddWords...)
		out = append(out, quotedForms...)
		out = append(out, v.novelForms()...)
		return v.filter(d, out)
	})
}

// mid: one spelling of every grammar word and a few of everything else; for several free tokens at once.
func (v *Vocab) mid(d int) *Domain {
	return v.dom(dn("mid", d), func() []string {
		out := append([]string{}, punct...)
		out = append(out, v.gram[d]...)
		out = append(out, "t", "a", "b", "Zz9", "SELECT", "1", "-1.5", "0", "'x'", "\"x\"", "`x`", "\"PRIMARY\"", "`PRIMARY`", "'it''s'", "é", "+", "*", "nan", "12a", "null", "key", "not")
		out = append(out, v.novel...)
		return v.filter(d, out)
	})
}

// names: words that may or may not be names, in every spelling.
func (v *Vocab) names(d int) *Domain {
	return v.dom(dn("name", d), func() []string {
		var out []string
		for _, g := range v.words {
			out = append(out, g, strings.ToLower(g), mixed(g))
		}
		for _, g := range v.gram[d] {
			out = append(out, "\""+g+"\"", "`"+g+"`", "\""+strings.ToLower(g)+"\"", "`"+strings.ToLower(g)+"`", g+"1", "_"+g, g+"_")
		}
		out = append(out, oddWords...)
		out = append(out, quotedForms...)
		out = append(out, v.novelForms()...)
		out = append(out, "1", "0", "1.5", "-1", "(", ")", ",", ";", ".", "=")
		for _, n := range []int{20, 31, 32, 33, 63, 64, 65, 66, 128, 129, 255, 256, 257, 1000} {
			out = append(out, strings.Repeat("n", n), "\""+strings.Repeat("q", n)+"\"", "`"+strings.Repeat("q", n)+"`")
		}
		for _, n := range v.repoInt {
			if n <= 5000 {
				out = append(out, strings.Repeat("n", n), strings.Repeat("m", n+1), strings.Repeat("k", n-1))
			}
		}
		return v.filter(d, out)
	})
}

// chars: single characters.
func (v *Vocab) chars() *Domain {
	return v.dom("char", func() []string {
		var out []string
		for c := 32; c < 127; c++ {
			out = append(out, string(rune(c)))
		}
		out = append(out, "\n", "\t", "\r", "\v", "\f", "\x00", "\x01", "\x1b", "\x7f", "\u0085", "\u00a0", "\u00e9", "\u00df", "\u0131", "\u017f", "\u2028", "\u2003", "\u200b", "\u212a", "\u3000", "\u540d", "\ufeff", "\uff08", "\uff1b", "\uff0c", "\U0001f600", "\ufffd", "\u2019")
		for _, s := range v.repoStr {
			if oneRune(s) {
				out = append(out, s)
			}
		}
		for _, r := range v.repoRune {
			out = append(out, string(r))
		}
		return out
	})
}

// charsSmall: one character per role; for many free characters at once.
func (v *Vocab) charsSmall() *Domain {
	return v.dom("charS", func() []string {
		out := []string{"a", "E", "9", "_", " ", "\n", "\t", "\r", "(", ")", ",", ".", ";", "=", "'", "\"", "`", "-", "/", "*", "#", "+", "\\", "\u540d", "\u3000", "\u00a0", "$"}
		for _, s := range v.repoStr {
			if oneRune(s) && !specIsIdent(s) {
				out = append(out, s)
			}
		}
		return out
	})
}
