// Package grammar is an independent lexer and recogniser of the zserio language.
// The recogniser is an Earley parser for the context-free grammar of the
// language specification, so it accepts whatever any parser generator could
// make of that grammar; a text it refuses is certainly not a schema.
package grammar

import (
	"sort"
	"strings"
)

// Tok is a token.
type Tok struct {
	K    string // terminal: the text of a keyword or operator, or ID, DEC, OCT, HEX, BIN, STR, BOOL, FLOAT, DOUBLE, BAD
	Text string
}

var operators = []string{"&&", "&", "==", "=", "!=", "!", ":", ",", "/", ".", ">=", ">", "{", "[", "<<", "<=", "<", "||", "|", "(", "-", "%", "*", "+", "?", "}", "]", ")", ";", "~", "^"}

// Keywords of the language.
var Keywords = map[string]bool{}

func init() {
	for _, k := range strings.Fields(`align bit bool bitmask bytes case choice const default enum explicit extend extern float16 float32 float64
		function if implicit import instantiate int int16 int32 int64 int8 isset lengthof numbits on optional package packed pubsub publish
		return rule rule_group service sql sql_database sql_table sql_virtual sql_without_rowid string struct subscribe subtype topic uint16
		uint32 uint64 uint8 union using valueof varint varint16 varint32 varint64 varsize varuint varuint16 varuint32 varuint64
		zserio_compatibility_version`) {
		Keywords[k] = true
	}
	sort.Slice(operators, func(i, j int) bool { return len(operators[i]) > len(operators[j]) })
}

func word(c byte) bool {
	return c == '_' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
}

func digit(c byte) bool { return c >= '0' && c <= '9' }

// Lex splits a text into tokens. unsure: the text has a comment whose extent is
// a matter of the lexer's longest-match rules.
func Lex(s string) (toks []Tok, unsure bool) {
	i := 0
	emit := func(k, t string) { toks = append(toks, Tok{k, t}) }
	for i < len(s) {
		c := s[i]
		rest := s[i:]
		switch {
		case c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\f':
			i++
			continue
		case strings.HasPrefix(rest, "//"):
			for i < len(s) && s[i] != '\n' && s[i] != '\r' && s[i] != '\f' {
				i++
			}
			continue
		case strings.HasPrefix(rest, "/*"):
			if strings.HasPrefix(rest, "/**/") || strings.HasPrefix(rest, "/*!*/") {
				unsure = true
			}
			j := strings.Index(rest[2:], "*/")
			if j < 0 {
				emit("/", "/")
				i++
				continue
			}
			i += j + 4
			continue
		case c == '"':
			n, ok := str(rest)
			if !ok {
				j := strings.IndexByte(rest[1:], '"')
				n = len(rest)
				if j >= 0 {
					n = j + 2
				}
				emit("BAD", rest[:n])
				i += n
				continue
			}
			// an invalid literal, from quote to quote, may be longer
			if j := strings.IndexByte(rest[1:], '"'); j < 0 || j+2 > n {
				unsure = true
			}
			emit("STR", rest[:n])
			i += n
			continue
		case c == '@':
			for _, k := range []string{"@deprecated", "@removed", "@index"} {
				if strings.HasPrefix(rest, k) {
					emit(k, k)
					i += len(k)
					c = 0
					break
				}
			}
			if c != 0 {
				emit("BAD", "@")
				i++
			}
			continue
		case word(c) || c == '.' && len(rest) > 1 && digit(rest[1]):
			k, n := number(rest)
			w := 0
			for w < len(rest) && word(rest[w]) {
				w++
			}
			if n > w || n == w && n > 0 {
				emit(k, rest[:n])
				i += n
				continue
			}
			t := rest[:w]
			switch {
			case t == "true" || t == "false":
				emit("BOOL", t)
			case Keywords[t]:
				emit(t, t)
			case digit(c):
				emit("BAD", t)
			default:
				emit("ID", t)
			}
			i += w
			continue
		}
		hit := false
		for _, o := range operators {
			if strings.HasPrefix(rest, o) {
				emit(o, o)
				i += len(o)
				hit = true
				break
			}
		}
		if !hit {
			emit("BAD", string(c))
			i++
		}
	}
	return toks, unsure
}

// str is the length of the string literal at the start.
func str(s string) (int, bool) {
	i := 1
	hex := func(n int) bool {
		if i+n > len(s) {
			return false
		}
		for _, c := range s[i : i+n] {
			if !strings.ContainsRune("0123456789abcdefABCDEF", c) {
				return false
			}
		}
		i += n
		return true
	}
	for i < len(s) {
		switch c := s[i]; c {
		case '"':
			return i + 1, true
		case '\r', '\n', '\f':
			return 0, false
		case '\\':
			if i+1 >= len(s) {
				return 0, false
			}
			e := s[i+1]
			i += 2
			switch e {
			case '"', '\\', 'r', 'n', 'f', 't':
			case 'u':
				if !hex(4) {
					return 0, false
				}
			case 'x':
				if !hex(2) {
					return 0, false
				}
			case '0':
				if i >= len(s) || s[i] < '0' || s[i] > '7' {
					return 0, false
				}
				i++
			default:
				return 0, false
			}
		default:
			i++
		}
	}
	return 0, false
}

// number is the longest numeric literal at the start.
func number(s string) (kind string, n int) {
	try := func(k string, m int) {
		if m > n {
			kind, n = k, m
		}
	}
	digits := func(i int, set string) int {
		for i < len(s) && strings.IndexByte(set, s[i]) >= 0 {
			i++
		}
		return i
	}
	const dec, oct, hex = "0123456789", "01234567", "0123456789abcdefABCDEF"
	if i := digits(0, "01"); i > 0 && i < len(s) && (s[i] == 'b' || s[i] == 'B') {
		try("BIN", i+1)
	}
	if s[0] == '0' {
		if i := digits(1, oct); i > 1 {
			try("OCT", i)
		}
		if len(s) > 1 && (s[1] == 'x' || s[1] == 'X') {
			if i := digits(2, hex); i > 2 {
				try("HEX", i)
			}
		}
	}
	exp := func(i int) int {
		if i < len(s) && (s[i] == 'e' || s[i] == 'E') {
			j := i + 1
			if j < len(s) && (s[j] == '+' || s[j] == '-') {
				j++
			}
			if k := digits(j, dec); k > j {
				return k
			}
		}
		return i
	}
	fl := func(i int) {
		try("DOUBLE", i)
		if i < len(s) && (s[i] == 'f' || s[i] == 'F') {
			try("FLOAT", i+1)
		}
	}
	i := digits(0, dec)
	if i > 0 {
		if k := exp(i); k > i {
			fl(k)
		}
		if i < len(s) && s[i] == '.' {
			fl(exp(digits(i+1, dec)))
		}
	} else if s[0] == '.' {
		if k := digits(1, dec); k > 1 {
			fl(exp(k))
		}
	}
	if s[0] >= '1' && s[0] <= '9' {
		try("DEC", i)
	} else if s[0] == '0' {
		try("DEC", 1)
	}
	return kind, n
}
