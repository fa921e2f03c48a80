package ref

import "unicode/utf8"

// JoinTok is a token of the join language: Kind is W for a word, K for a keyword, E for a character outside the language,
// otherwise the character itself.
type JoinTok struct {
	Kind byte
	Text string // as written
	Word string // upper case form of a keyword
}

// Keywords of the language, in upper case.
var Keywords = []string{"SELECT", "UPDATE", "INSERT", "DELETE", "FROM", "WHERE", "AND", "OR", "LIMIT", "OFFSET", "SET", "AS", "INNER",
	"CROSS", "LEFT", "RIGHT", "JOIN", "ON", "GROUP", "BY", "HAVING", "ORDER", "DISTINCT", "ONLY", "USING", "RETURNING", "VALUES", "INTO",
	"CONFLICT", "DO", "NOTHING", "WITH", "NOT", "EXISTS", "COUNT", "MAX", "MIN", "SUM"}

func isJoinWord(c byte) bool {
	return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '.'
}

// IsKeyword returns the upper case keyword s spells, or "".
func IsKeyword(s string) string {
	for _, k := range Keywords {
		if len(k) != len(s) {
			continue
		}
		same := true
		for i := 0; i < len(s); i++ {
			c := s[i]
			if c >= 'a' && c <= 'z' {
				c -= 'a' - 'A'
			}
			if c != k[i] {
				same = false
			}
		}
		if same {
			return k
		}
	}
	return ""
}

// LexJoin splits s into the tokens of the join language.
func LexJoin(s string) []JoinTok {
	var out []JoinTok
	for i := 0; i < len(s); {
		c := s[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n' || c == '\r':
			i++
		case isJoinWord(c):
			j := i
			for j < len(s) && isJoinWord(s[j]) {
				j++
			}
			t := JoinTok{Kind: 'W', Text: s[i:j]}
			if k := IsKeyword(t.Text); k != "" {
				t.Kind, t.Word = 'K', k
			}
			out = append(out, t)
			i = j
		case c == '*' || c == '=' || c == ';' || c == ',' || c == ':' || c == '(' || c == ')':
			out = append(out, JoinTok{Kind: c, Text: s[i : i+1]})
			i++
		default:
			r, n := utf8.DecodeRuneInString(s[i:])
			out = append(out, JoinTok{Kind: 'E', Text: string(r)})
			i += n
		}
	}
	return out
}
