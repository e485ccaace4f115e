package main

import (
	"strconv"
	"strings"
)

// Text predicates of the specification. The same functions are compiled into the replay program
// (harness/zz); here they are tabulated over the symbolic texts.

func asciiUpper(s string) string {
	b := []byte(s)
	for i, c := range b {
		if c >= 'a' && c <= 'z' {
			b[i] = c - 32
		}
	}
	return string(b)
}

// specFold: the capital spelling of a word with letters outside ASCII that fold to ASCII letters, "" for any other text.
func specFold(s string) string {
	t := strings.NewReplacer("\u017f", "S", "\u212a", "K", "\u0131", "I", "\u0130", "I").Replace(s)
	if t == s {
		return ""
	}
	return asciiUpper(t)
}

func specIsIdent(s string) bool {
	for i := 0; i < len(s); i++ {
		c := s[i]
		letter := c == '_' || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z')
		if !letter && (i == 0 || c < '0' || c > '9') {
			return false
		}
	}
	return s != ""
}

// specIsNum: 0 = not a number, 1 = a decimal number (sign, fraction, exponent), 2 = a form that is
// left open (hexadecimal, out of range, leading or trailing dot with nothing after it).
func specIsNum(s string) int {
	t := strings.TrimPrefix(s, "+")
	if len(t) == len(s) {
		t = strings.TrimPrefix(s, "-")
	}
	i, nd := 0, 0
	digits := func() int {
		k := i
		for i < len(t) && t[i] >= '0' && t[i] <= '9' {
			i++
		}
		return i - k
	}
	nd = digits()
	open := false
	if i < len(t) && t[i] == '.' {
		i++
		f := digits()
		if nd == 0 || f == 0 {
			open = true
		}
		nd += f
	}
	if nd > 0 && i < len(t) && (t[i] == 'e' || t[i] == 'E') {
		i++
		if i < len(t) && (t[i] == '+' || t[i] == '-') {
			i++
		}
		if digits() == 0 {
			i = -1
		}
	}
	if nd > 0 && i == len(t) {
		if _, err := strconv.ParseFloat(s, 64); err != nil {
			return 2
		}
		if open {
			return 2
		}
		return 1
	}
	if len(t) > 2 && t[0] == '0' && (t[1] == 'x' || t[1] == 'X' || t[1] == 'b' || t[1] == 'B' || t[1] == 'o' || t[1] == 'O') {
		if _, err := strconv.ParseFloat(s, 64); err == nil {
			return 2
		}
	}
	if strings.Contains(t, "_") && nd > 0 {
		if _, err := strconv.ParseFloat(s, 64); err == nil {
			return 2
		}
	}
	return 0
}

func specNum(s string) float64 {
	f, _ := strconv.ParseFloat(s, 64)
	return f
}

func specUnquote(s string) string {
	if len(s) < 2 {
		return s
	}
	q := s[:1]
	return strings.ReplaceAll(s[1:len(s)-1], q+q, q)
}

// specSizeKind: 1 = a positive integer of plain digits, 2 = left open (signed or too large), 0 = no size.
func specSizeKind(s string) int {
	t := strings.TrimPrefix(s, "+")
	if t == "" {
		return 0
	}
	nz := false
	for i := 0; i < len(t); i++ {
		if t[i] < '0' || t[i] > '9' {
			return 0
		}
		if t[i] != '0' {
			nz = true
		}
	}
	if !nz {
		return 0
	}
	if len(t) != len(s) || len(t) > 18 {
		return 2
	}
	return 1
}

func specSizeVal(s string) int {
	n, _ := strconv.Atoi(s)
	return n
}
