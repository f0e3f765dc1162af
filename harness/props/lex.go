package props

import (
	"math/big"
	"strconv"
	"strings"
)

// Tok is a token of the reference lexer.
type Tok struct {
	K       string // kw ident sym num str op comment
	S       string
	Off     int // byte offset
	Line    int
	Col     int // 1 based, in characters
	EndOff  int
	EndLine int
	EndCol  int
}

func isIdentStart(c byte) bool {
	return c == '_' || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z')
}
func isDigit(c byte) bool { return c >= '0' && c <= '9' }
func isHex(c byte) bool {
	return isDigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F')
}
func isWordByte(c byte) bool { return isIdentStart(c) || isDigit(c) }

// lexNumber returns the length of the number at the start of s.
func lexNumber(s string) int {
	i := 0
	if i < len(s) && s[i] == '-' {
		i++
	}
	if strings.HasPrefix(s[i:], "0x") {
		j := i + 2
		for j < len(s) && isHex(s[j]) {
			j++
		}
		if j > i+2 {
			return j
		}
	}
	j := i
	for j < len(s) && isDigit(s[j]) {
		j++
	}
	end := 0
	if j > i {
		end = j
	}
	if j < len(s) && s[j] == '.' {
		k := j + 1
		for k < len(s) && isDigit(s[k]) {
			k++
		}
		if k > j+1 {
			end = k
		}
	}
	if end == 0 {
		return 0
	}
	if end < len(s) && (s[end] == 'e' || s[end] == 'E') {
		k := end + 1
		if k < len(s) && (s[k] == '-' || s[k] == '+') {
			k++
		}
		l := k
		for l < len(s) && isDigit(s[l]) {
			l++
		}
		if l > k {
			end = l
		}
	}
	return end
}

func isSpaceByte(c byte) bool {
	return c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\f'
}

// lexVQL is the reference lexer: written from the documented lexical rules.
func lexVQL(s string) (toks []Tok, ok bool) {
	off, line, col := 0, 1, 1
	adv := func(n int) {
		for _, c := range s[off : off+n] {
			if c == '\n' {
				line++
				col = 1
			} else {
				col++
			}
		}
		off += n
	}
	for off < len(s) {
		rest := s[off:]
		c := rest[0]
		if isSpaceByte(c) {
			adv(1)
			continue
		}
		kind, n := "", 0
		switch {
		case strings.HasPrefix(rest, "/*"):
			if i := strings.Index(rest[2:], "*/"); i >= 0 {
				kind, n = "comment", i+4
			}
		case strings.HasPrefix(rest, "--"), strings.HasPrefix(rest, "//"):
			kind, n = "comment", len(rest)
			if i := strings.IndexByte(rest, '\n'); i >= 0 {
				n = i
			}
		}
		if n == 0 && c == '|' {
			kind, n = "op", 1
			for n < len(rest) && rest[n] == '|' {
				n++
			}
		}
		if n == 0 && strings.HasPrefix(rest, "&&") {
			kind, n = "op", 2
		}
		if n == 0 && isIdentStart(c) {
			kind, n = "ident", 1
			for n < len(rest) && isWordByte(rest[n]) {
				n++
			}
			w := strings.ToLower(rest[:n])
			if w == "group" || w == "order" {
				// The two words are one keyword.
				j := n
				for j < len(rest) && isSpaceByte(rest[j]) {
					j++
				}
				if j > n && len(rest) >= j+2 && strings.EqualFold(rest[j:j+2], "by") &&
					(len(rest) == j+2 || !isWordByte(rest[j+2])) {
					kind, n = "kw", j+2
				}
			} else if keywords[w] && w != "by" {
				kind = "kw"
			}
		}
		if n == 0 {
			if m := lexNumber(rest); m > 0 {
				kind, n = "num", m
			}
		}
		if n == 0 && c == '`' {
			if i := strings.IndexByte(rest[1:], '`'); i > 0 {
				kind, n = "ident", i+2
			}
		}
		if n == 0 && c == '-' && len(rest) > 1 {
			if isIdentStart(rest[1]) {
				kind, n = "sym", 2
				for n < len(rest) && isWordByte(rest[n]) {
					n++
				}
			} else if rest[1] == '`' {
				if i := strings.IndexByte(rest[2:], '`'); i > 0 {
					kind, n = "sym", i+3
				}
			}
		}
		if n == 0 {
			for _, op := range []string{"<>", "!=", "<=", ">=", "=>", "=~"} {
				if strings.HasPrefix(rest, op) {
					kind, n = "op", 2
				}
			}
		}
		if n == 0 && strings.IndexByte("-+:*/%,.()=<>{}[]", c) >= 0 {
			kind, n = "op", 1
		}
		if n == 0 && strings.HasPrefix(rest, "'''") {
			if i := strings.Index(rest[3:], "'''"); i >= 0 {
				kind, n = "str", i+6
			}
		}
		if n == 0 && (c == '\'' || c == '"') {
			i := 1
			for i < len(rest) && rest[i] != c {
				if rest[i] == '\\' {
					i++
				}
				i++
			}
			if i < len(rest) {
				kind, n = "str", i+1
			}
		}
		if n == 0 {
			return toks, false
		}
		t := Tok{K: kind, S: rest[:n], Off: off, Line: line, Col: col}
		adv(n)
		t.EndOff, t.EndLine, t.EndCol = off, line, col
		toks = append(toks, t)
	}
	return toks, true
}

// normNum is the value of a number token. Numbers with no value stay as
// they are.
func normNum(s string) string {
	if i, err := strconv.ParseInt(s, 0, 64); err == nil {
		return "i" + strconv.FormatInt(i, 10)
	}
	if f, err := strconv.ParseFloat(s, 64); err == nil {
		return "f" + new(big.Float).SetFloat64(f).Text('g', 20)
	}
	return s
}

// norm returns what a token means.
func (t Tok) norm() string {
	switch t.K {
	case "kw":
		return strings.Join(strings.Fields(strings.ToUpper(t.S)), " ")
	case "num":
		return "num:" + normNum(t.S)
	case "comment":
		return "comment:" + strings.TrimRight(t.S, " \t\r")
	}
	return t.K + ":" + t.S
}

func normToks(toks []Tok, comments bool) []string {
	r := []string{}
	for _, t := range toks {
		if t.K == "comment" && !comments {
			continue
		}
		r = append(r, t.norm())
	}
	return r
}

// sameTokens compares two token lists and describes the first difference.
func sameTokens(a, b []string) string {
	for i := range a {
		if i >= len(b) {
			return "the token " + strconv.Itoa(i) + " is lost: " + a[i]
		}
		if a[i] != b[i] {
			return "token " + strconv.Itoa(i) + ": " + a[i] + " became " + b[i]
		}
	}
	if len(b) > len(a) {
		return "there is an additional token: " + b[len(a)]
	}
	return ""
}
