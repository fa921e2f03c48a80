// Package ref holds independent reference readings of SQL text: PostgreSQL's lexical rules, a boolean
// expression reader and small helpers. It shares no code with loukoum.
package ref

// Tok is a lexical token. Kind is one of w (word), q (delimited identifier), s (string literal), n (number),
// p (positional placeholder), m (named placeholder), o (operator or punctuation), c (comment), e (unterminated).
type Tok struct {
	Kind byte
	Text string // decoded text for q and s, source text otherwise
}

func isWordStart(c byte) bool {
	return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_' || c >= 0x80
}
func isDigit(c byte) bool { return c >= '0' && c <= '9' }
func isOp(c byte) bool {
	switch c {
	case '+', '-', '*', '/', '<', '>', '=', '~', '!', '@', '#', '%', '^', '&', '|', '`', '?':
		return true
	}
	return false
}

// Lex splits s by PostgreSQL's lexical rules, with standard string literals.
func Lex(s string) []Tok { return lex(s, false) }

// LexDebug is Lex with backslash escapes inside string literals, as String() writes them.
func LexDebug(s string) []Tok { return lex(s, true) }

func lex(s string, backslash bool) []Tok {
	var out []Tok
	i := 0
	for i < len(s) {
		c := s[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\f' || c == '\v':
			i++
		case c == '"':
			j := i + 1
			var b []byte
			closed := false
			for j < len(s) {
				if s[j] == '"' {
					if j+1 < len(s) && s[j+1] == '"' {
						b = append(b, '"')
						j += 2
						continue
					}
					closed = true
					j++
					break
				}
				b = append(b, s[j])
				j++
			}
			k := byte('q')
			if !closed {
				k = 'e'
			}
			out = append(out, Tok{k, string(b)})
			i = j
		case c == '\'':
			j := i + 1
			var b []byte
			closed := false
			for j < len(s) {
				if backslash && s[j] == '\\' {
					if j+1 >= len(s) {
						break
					}
					switch s[j+1] {
					case 'n':
						b = append(b, '\n')
					case 'r':
						b = append(b, '\r')
					case 't':
						b = append(b, '\t')
					case 'b':
						b = append(b, '\b')
					case 'f':
						b = append(b, '\f')
					default:
						b = append(b, s[j+1])
					}
					j += 2
					continue
				}
				if s[j] == '\'' {
					if j+1 < len(s) && s[j+1] == '\'' {
						b = append(b, '\'')
						j += 2
						continue
					}
					closed = true
					j++
					break
				}
				b = append(b, s[j])
				j++
			}
			k := byte('s')
			if !closed {
				k = 'e'
			}
			out = append(out, Tok{k, string(b)})
			i = j
		case c == '-' && i+1 < len(s) && s[i+1] == '-':
			j := i
			for j < len(s) && s[j] != '\n' && s[j] != '\r' {
				j++
			}
			out = append(out, Tok{'c', s[i:j]})
			i = j
		case c == '/' && i+1 < len(s) && s[i+1] == '*':
			depth := 0
			j := i
			for j < len(s) {
				if j+1 < len(s) && s[j] == '/' && s[j+1] == '*' {
					depth++
					j += 2
					continue
				}
				if j+1 < len(s) && s[j] == '*' && s[j+1] == '/' {
					depth--
					j += 2
					if depth == 0 {
						break
					}
					continue
				}
				j++
			}
			k := byte('c')
			if depth != 0 {
				k = 'e'
			}
			out = append(out, Tok{k, s[i:j]})
			i = j
		case c == '$' && i+1 < len(s) && isDigit(s[i+1]):
			j := i + 1
			for j < len(s) && isDigit(s[j]) {
				j++
			}
			out = append(out, Tok{'p', s[i:j]})
			i = j
		case c == ':' && i+1 < len(s) && isWordStart(s[i+1]) && (i == 0 || s[i-1] != ':'):
			j := i + 1
			for j < len(s) && (isWordStart(s[j]) || isDigit(s[j])) {
				j++
			}
			out = append(out, Tok{'m', s[i:j]})
			i = j
		case isWordStart(c):
			j := i
			for j < len(s) && (isWordStart(s[j]) || isDigit(s[j]) || s[j] == '$') {
				j++
			}
			out = append(out, Tok{'w', s[i:j]})
			i = j
		case isDigit(c):
			j := i
			for j < len(s) && (isDigit(s[j]) || s[j] == '.') {
				j++
			}
			out = append(out, Tok{'n', s[i:j]})
			i = j
		case isOp(c):
			j := i
			for j < len(s) && isOp(s[j]) && !(j > i && s[j] == '-' && j+1 < len(s) && s[j+1] == '-') {
				j++
			}
			out = append(out, Tok{'o', s[i:j]})
			i = j
		default:
			out = append(out, Tok{'o', s[i : i+1]})
			i++
		}
	}
	return out
}

// Same compares two token lists.
func Same(a, b []Tok) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].Kind != b[i].Kind || a[i].Text != b[i].Text {
			return false
		}
	}
	return true
}

// SameSQL tells whether two texts are the same sequence of tokens.
func SameSQL(a, b string) bool { return a == b || Same(Lex(a), Lex(b)) }

// SameDebug is SameSQL for String() output.
func SameDebug(a, b string) bool { return a == b || Same(LexDebug(a), LexDebug(b)) }

// Itoa prints a small number.
func Itoa(n int) string {
	if n == 0 {
		return "0"
	}
	var b []byte
	for n > 0 {
		b = append([]byte{byte('0' + n%10)}, b...)
		n /= 10
	}
	return string(b)
}

// Fill replaces each '?' of a template: fill(k) is the text of the k-th one.
func Fill(tmpl string, fill func(k int) string) string {
	out := ""
	last := 0
	k := 0
	for i := 0; i < len(tmpl); i++ {
		if tmpl[i] == '?' {
			out += tmpl[last:i] + fill(k)
			k++
			last = i + 1
		}
	}
	return out + tmpl[last:]
}

// Marks counts the '?' of a template.
func Marks(tmpl string) int {
	n := 0
	for i := 0; i < len(tmpl); i++ {
		if tmpl[i] == '?' {
			n++
		}
	}
	return n
}

// Quote is a delimited identifier for a dotted name.
func Quote(name string) string {
	out := []byte{'"'}
	for i := 0; i < len(name); i++ {
		switch name[i] {
		case '.':
			out = append(out, '"', '.', '"')
		case '"':
			out = append(out, '"', '"')
		default:
			out = append(out, name[i])
		}
	}
	return string(append(out, '"'))
}
