// Package zz is the interface between the property harnesses and the engine. Inside the engine the
// functions below are replaced (engine/zznat.go, engine/specnat.go); compiled natively they run the
// same harness on concrete texts, which is how every counterexample is confirmed on the real code.
package zz

import (
	"strconv"
	"strings"
)

// Failed collects the labels of failed assertions of a native run.
var Failed []string

// Skipped is set when a native run violates an assumption.
var Skipped bool

type assumption struct{}

// Run runs f natively, stopping at a violated assumption.
func Run(f func()) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(assumption); ok {
				Skipped = true
				return
			}
			panic(r)
		}
	}()
	f()
}

// Text joins the parts of an input: tokens with a space in mode 0, characters in mode 1.
func Text(mode int, parts []string) string {
	if mode != 0 {
		return strings.Join(parts, "")
	}
	var sb strings.Builder
	for i, p := range parts {
		if i > 0 {
			sb.WriteString(" ")
		}
		sb.WriteString(p)
	}
	return sb.String()
}

// Toks: the tokens of a text, when known (only in the engine).
func Toks(text string) ([]string, bool) { return nil, false }

// Symbolic: running inside the engine.
func Symbolic() bool { return false }

func Assert(ok bool, label string) {
	if !ok {
		Failed = append(Failed, label)
	}
}

func Assume(ok bool) {
	if !ok {
		panic(assumption{})
	}
}

func Reach(label string) {}

// Fresh puts the program back into its initial state (engine only; natively a new process is used).
func Fresh() {}

// FreshParse is the rendered result of a text in a process of its own (native only).
var FreshParse func(d int, text string) string

// Render writes a result out (native only).
var Render func(tables interface{}, err error) string

// Concurrent runs two functions in several goroutines and compares what they return (native only).
func Concurrent(f func() string, want1 string, g func() string, want2 string, label string) {
	const n = 8
	out := make(chan bool, 2*n)
	start := make(chan bool)
	run := func(f func() string, want string) {
		<-start
		ok := true
		for i := 0; i < 40; i++ {
			if f() != want {
				ok = false
			}
		}
		out <- ok
	}
	for i := 0; i < n; i++ {
		go run(f, want1)
		go run(g, want2)
	}
	close(start)
	for i := 0; i < 2*n; i++ {
		if !<-out {
			Failed = append(Failed, label)
		}
	}
}

// Second: the accesses that follow belong to another thread (engine only).
func Second() {}

func Mark()         {}
func Writes() int   { return 0 }
func Unsynced() int { return 0 }
func EndMark()      {}

func Upper(s string) string {
	b := []byte(s)
	for i, c := range b {
		if c >= 'a' && c <= 'z' {
			b[i] = c - 32
		}
	}
	return string(b)
}

// Fold: the capital spelling of a word with letters outside ASCII that fold to ASCII letters, "" for any other text.
func Fold(s string) string {
	t := strings.NewReplacer("\u017f", "S", "\u212a", "K", "\u0131", "I", "\u0130", "I").Replace(s)
	if t == s {
		return ""
	}
	return Upper(t)
}

func IsIdent(s string) bool {
	for i := 0; i < len(s); i++ {
		c := s[i]
		letter := c == '_' || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z')
		if !letter && (i == 0 || c < '0' || c > '9') {
			return false
		}
	}
	return s != ""
}

// specIsNum: 0 = not a number, 1 = a decimal number (sign, fraction, exponent), 2 = a form that is
// left open (hexadecimal, out of range, leading or trailing dot with nothing after it).
func IsNum(s string) int {
	t := strings.TrimPrefix(s, "+")
	if len(t) == len(s) {
		t = strings.TrimPrefix(s, "-")
	}
	i, nd := 0, 0
	digits := func() int {
		k := i
		for i < len(t) && t[i] >= '0' && t[i] <= '9' {
			i++
		}
		return i - k
	}
	nd = digits()
	open := false
	if i < len(t) && t[i] == '.' {
		i++
		f := digits()
		if nd == 0 || f == 0 {
			open = true
		}
		nd += f
	}
	if nd > 0 && i < len(t) && (t[i] == 'e' || t[i] == 'E') {
		i++
		if i < len(t) && (t[i] == '+' || t[i] == '-') {
			i++
		}
		if digits() == 0 {
			i = -1
		}
	}
	if nd > 0 && i == len(t) {
		if _, err := strconv.ParseFloat(s, 64); err != nil {
			return 2
		}
		if open {
			return 2
		}
		return 1
	}
	if len(t) > 2 && t[0] == '0' && (t[1] == 'x' || t[1] == 'X' || t[1] == 'b' || t[1] == 'B' || t[1] == 'o' || t[1] == 'O') {
		if _, err := strconv.ParseFloat(s, 64); err == nil {
			return 2
		}
	}
	if strings.Contains(t, "_") && nd > 0 {
		if _, err := strconv.ParseFloat(s, 64); err == nil {
			return 2
		}
	}
	return 0
}

func Num(s string) float64 {
	f, _ := strconv.ParseFloat(s, 64)
	return f
}

func Unquote(s string) string {
	if len(s) < 2 {
		return s
	}
	q := s[:1]
	return strings.ReplaceAll(s[1:len(s)-1], q+q, q)
}

// specSizeKind: 1 = a positive integer of plain digits, 2 = left open (signed or too large), 0 = no size.
func SizeKind(s string) int {
	t := strings.TrimPrefix(s, "+")
	if t == "" {
		return 0
	}
	nz := false
	for i := 0; i < len(t); i++ {
		if t[i] < '0' || t[i] > '9' {
			return 0
		}
		if t[i] != '0' {
			nz = true
		}
	}
	if !nz {
		return 0
	}
	if len(t) != len(s) || len(t) > 18 {
		return 2
	}
	return 1
}

func SizeVal(s string) int {
	n, _ := strconv.Atoi(s)
	return n
}

func Newlines(s string) int { return strings.Count(s, "\n") }
