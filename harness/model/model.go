// Package model holds plain Go definitions of library string functions. The engine runs them
// symbolically where an argument is a text with several symbolic parts.
package model

import "unicode/utf8"

func Index(s, sub string) int {
	n := len(sub)
	for i := 0; i+n <= len(s); i++ {
		if s[i:i+n] == sub {
			return i
		}
	}
	return -1
}

func Contains(s, sub string) bool { return Index(s, sub) >= 0 }

func IndexRune(s string, r rune) int {
	for i, c := range s {
		if c == r {
			return i
		}
	}
	return -1
}

func ContainsRune(s string, r rune) bool { return IndexRune(s, r) >= 0 }

func IndexAny(s, chars string) int {
	for i, c := range s {
		if in(c, chars) {
			return i
		}
	}
	return -1
}

func ContainsAny(s, chars string) bool { return IndexAny(s, chars) >= 0 }

func in(c rune, chars string) bool {
	for _, k := range chars {
		if c == k {
			return true
		}
	}
	return false
}

func IndexByte(s string, b byte) int {
	for i := 0; i < len(s); i++ {
		if s[i] == b {
			return i
		}
	}
	return -1
}

func LastIndex(s, sub string) int {
	n := len(sub)
	for i := len(s) - n; i >= 0; i-- {
		if s[i:i+n] == sub {
			return i
		}
	}
	return -1
}

func LastIndexByte(s string, b byte) int {
	for i := len(s) - 1; i >= 0; i-- {
		if s[i] == b {
			return i
		}
	}
	return -1
}

func RuneCount(s string) int {
	n := 0
	for range s {
		n++
	}
	return n
}

func Count(s, sub string) int {
	if len(sub) == 0 {
		return RuneCount(s) + 1
	}
	n := 0
	for {
		i := Index(s, sub)
		if i < 0 {
			return n
		}
		n++
		s = s[i+len(sub):]
	}
}

func TrimLeft(s, cut string) string {
	for i, c := range s {
		if !in(c, cut) {
			return s[i:]
		}
	}
	return ""
}

func TrimRight(s, cut string) string {
	end := 0
	i := 0
	for _, c := range s {
		i += utf8.RuneLen(c)
		if !in(c, cut) {
			end = i
		}
	}
	return s[:end]
}

func Trim(s, cut string) string { return TrimRight(TrimLeft(s, cut), cut) }

const space = " \t\n\v\f\r\u0085\u00a0\u1680\u2000\u2001\u2002\u2003\u2004\u2005\u2006\u2007\u2008\u2009\u200a\u2028\u2029\u202f\u205f\u3000"

func TrimSpace(s string) string { return Trim(s, space) }

func HasPrefix(s, p string) bool { return len(s) >= len(p) && s[:len(p)] == p }

func HasSuffix(s, p string) bool { return len(s) >= len(p) && s[len(s)-len(p):] == p }

func TrimPrefix(s, p string) string {
	if HasPrefix(s, p) {
		return s[len(p):]
	}
	return s
}

func TrimSuffix(s, p string) string {
	if HasSuffix(s, p) {
		return s[:len(s)-len(p)]
	}
	return s
}

func Replace(s, old, new string, n int) string {
	if old == new || n == 0 {
		return s
	}
	out := ""
	if old == "" {
		k := 0
		for _, c := range s {
			if n < 0 || k < n {
				out += new
				k++
			}
			out += string(c)
		}
		if n < 0 || k < n {
			out += new
		}
		return out
	}
	for n != 0 {
		i := Index(s, old)
		if i < 0 {
			break
		}
		out += s[:i] + new
		s = s[i+len(old):]
		n--
	}
	return out + s
}

func ReplaceAll(s, old, new string) string { return Replace(s, old, new, -1) }

func Split(s, sep string) []string {
	out := []string{}
	if sep == "" {
		for _, c := range s {
			out = append(out, string(c))
		}
		return out
	}
	for {
		i := Index(s, sep)
		if i < 0 {
			return append(out, s)
		}
		out = append(out, s[:i])
		s = s[i+len(sep):]
	}
}

func Fields(s string) []string {
	out := []string{}
	cur := ""
	for _, c := range s {
		if in(c, space) {
			if cur != "" {
				out = append(out, cur)
			}
			cur = ""
		} else {
			cur += string(c)
		}
	}
	if cur != "" {
		out = append(out, cur)
	}
	return out
}

func Cut(s, sep string) (string, string, bool) {
	if i := Index(s, sep); i >= 0 {
		return s[:i], s[i+len(sep):], true
	}
	return s, "", false
}

func DecodeRune(s string) (rune, int) {
	for _, c := range s {
		return c, utf8.RuneLen(c)
	}
	return utf8.RuneError, 0
}

func Newlines(s string) int {
	n := 0
	for _, c := range s {
		if c == '\n' {
			n++
		}
	}
	return n
}
