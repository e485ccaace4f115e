package spec

import "github.com/kodaimura/ddlparse/internal/zzverif/zz"

// Dialects.
const (
	SQLite = iota
	PostgreSQL
	MySQL
)

// Token is a word, symbol or quoted text and the lines it starts and ends on.
type Token struct {
	S      string
	L0, L1 int
}

// Lexed is the lexical view of a text.
type Lexed struct {
	T    []Token
	Last int // the line the text ends on
	Bad  bool
	Near string // the offending text and its line when Bad
	Line int
}

// Lex returns the tokens of a text. Comments and white space separate tokens, quoted text is one
// token, a doubled quote inside it does not end it.
func Lex(d int, text string) Lexed {
	if ts, ok := zz.Toks(text); ok {
		return fromTokens(ts)
	}
	return lexText(d, text)
}

func fromTokens(ts []string) Lexed {
	var lx Lexed
	line := 1
	for _, t := range ts {
		if t == "\n" {
			line++
			continue
		}
		n := zz.Newlines(t)
		lx.T = append(lx.T, Token{t, line, line + n})
		line += n
	}
	lx.Last = line
	return lx
}

func at(rs []rune, i int) rune {
	if i < len(rs) {
		return rs[i]
	}
	return -1
}

func isBlank(c rune) bool { return c == ' ' || c == '\t' || c == '\r' }

func isSymbol(c rune) bool {
	return c == '(' || c == ')' || c == ',' || c == '.' || c == ';' || c == '='
}

func isQuote(c rune) bool { return c == '"' || c == '\'' || c == '`' }

func isDigit(c rune) bool { return c >= '0' && c <= '9' }

func isSign(c rune) bool { return c == '+' || c == '-' }

func lexText(d int, text string) Lexed {
	rs := []rune(text)
	lx := Lexed{Last: 1}
	word := ""
	num := 0 // 0 empty, 1 only signs, 2 signs and digits, 3 anything else
	flush := func() {
		if word != "" {
			lx.T = append(lx.T, Token{word, lx.Last, lx.Last})
		}
		word = ""
		num = 0
	}
	for i := 0; i < len(rs); {
		c := rs[i]
		if (c == '-' && at(rs, i+1) == '-') || (c == '#' && d == MySQL) {
			flush()
			for i < len(rs) && rs[i] != '\n' {
				i++
			}
			continue
		}
		if c == '/' && at(rs, i+1) == '*' {
			flush()
			i += 2
			for i < len(rs) && !(rs[i] == '*' && at(rs, i+1) == '/') {
				if rs[i] == '\n' {
					lx.Last++
				}
				i++
			}
			if i >= len(rs) {
				return lx.bad("<EOF>")
			}
			i += 2
			continue
		}
		if c == '*' && at(rs, i+1) == '/' {
			return lx.bad("*")
		}
		if isQuote(c) {
			if c == '`' && d == PostgreSQL {
				return lx.bad("`")
			}
			flush()
			l0 := lx.Last
			s := string(c)
			i++
			closed := false
			for i < len(rs) {
				x := rs[i]
				s += string(x)
				i++
				if x == '\n' {
					lx.Last++
				}
				if x == c {
					if at(rs, i) != c {
						closed = true
						break
					}
					s += string(c)
					i++
				}
			}
			if !closed {
				return lx.bad("<EOF>")
			}
			lx.T = append(lx.T, Token{s, l0, lx.Last})
			continue
		}
		i++
		if isBlank(c) {
			flush()
			continue
		}
		if c == '\n' {
			flush()
			lx.Last++
			continue
		}
		if c == '\u3000' {
			return lx.bad("\u3000")
		}
		if isSymbol(c) && !(c == '.' && num == 2) {
			flush()
			lx.T = append(lx.T, Token{string(c), lx.Last, lx.Last})
			continue
		}
		word += string(c)
		if isSign(c) {
			if num != 0 && num != 1 {
				num = 3
			} else {
				num = 1
			}
		} else if isDigit(c) {
			if num != 3 {
				num = 2
			}
		} else {
			num = 3
		}
	}
	flush()
	return lx
}

func (lx Lexed) bad(near string) Lexed {
	lx.Bad = true
	lx.Near = near
	lx.Line = lx.Last
	return lx
}
