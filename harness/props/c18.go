package props

import (
	"strings"

	"verifharness/ref"
	"verifharness/sym"

	"github.com/ulule/loukoum/v3/lexer"
	"github.com/ulule/loukoum/v3/token"
)

// tokenType is the type the lexer must report for a token of the language.
func tokenType(t ref.JoinTok) token.Type {
	switch t.Kind {
	case 'W':
		return token.Literal
	case 'K':
		return token.Type(t.Word)
	case 'E':
		return token.Illegal
	}
	return token.Type(t.Text)
}

func checkLexer(in string) {
	want := ref.LexJoin(in)
	var list []token.Token
	ended := false
	ok, _ := Try(func() {
		l := lexer.New(strings.NewReader(in))
		for i := 0; i <= len(in); i++ {
			t := l.Next()
			if t.Type == token.EOF {
				ended = true
				break
			}
			list = append(list, t)
		}
		for i := 0; i < 3; i++ {
			if t := l.Next(); ended && (t.Type != token.EOF || t.Value != "") {
				ended = false
			}
		}
	})
	sym.Assert(ok, "C18 lexing never fails")
	sym.Assert(ended, "C18 the end of input is reported, and stays")
	sym.Assert(len(list) == len(want), "C18 every token, none twice")
	for i := range want {
		sym.Assert(list[i].Type == tokenType(want[i]), "C18 token type")
		sym.Assert(list[i].Value == want[i].Text, "C18 token text")
	}
	joined := ""
	ok, _ = Try(func() {
		l := lexer.New(strings.NewReader(in))
		it := l.Iterator()
		for i := range want {
			if !it.HasNext() || !it.Is(tokenType(want[i])) {
				ended = false
			}
			t := it.Next()
			if t.Type != tokenType(want[i]) || t.Value != want[i].Text {
				ended = false
			}
			joined += t.Value
		}
		for i := 0; i < 2; i++ {
			if it.HasNext() || it.Is(token.EOF) || it.Is(token.Literal) || it.Next().Type != token.EOF {
				ended = false
			}
		}
	})
	sym.Assert(ok && ended, "C18 the iterator yields the same tokens, then the end of input")
	sym.Observe("joined", joined)
}

// Any bytes.
func C18_bytes() {
	in := sym.Str("input", sym.Choose("length", sym.Bound(4, 6)))
	checkLexer(in)
	// stated again without the reference: nothing but white space is dropped
	plain := true
	want := ""
	for i := 0; i < len(in); i++ {
		if in[i] >= 0x80 {
			plain = false
		}
		if in[i] != ' ' && in[i] != '\t' && in[i] != '\n' && in[i] != '\r' {
			want += in[i : i+1]
		}
	}
	if !plain {
		return
	}
	got := ""
	l := lexer.New(strings.NewReader(in))
	for i := 0; i < len(in); i++ {
		got += l.Next().Value
	}
	sym.Assert(got == want, "C18 the text of the tokens is the input without white space")
}

// Words: letters, digits, underscores and dots in any order and number, and any byte after them.
func C18_words() {
	in := sym.Str("word", 1+sym.Choose("length", sym.Bound(12, 20)))
	for i := 0; i < len(in); i++ {
		sym.Assume(isWordByte(in[i]))
	}
	switch sym.Choose("end", 3) {
	case 1:
		in += sym.Str("after", 1)
	case 2:
		in = "a = " + in + "="
	}
	checkLexer(in)
}

func isWordByte(c byte) bool {
	return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '.'
}

// anyCase spells w with any mixture of upper and lower case letters.
func anyCase(w string) string {
	out := ""
	for i := 0; i < len(w); i++ {
		c := sym.Str("letter", 1)
		sym.Assume(c[0]&^0x20 == w[i])
		out += c
	}
	return out
}

// Every keyword in any mixture of cases, one letter possibly different, and what may stand around it.
func C18_keywords() {
	w := anyCase(ref.Keywords[sym.Choose("keyword", len(ref.Keywords))])
	switch sym.Choose("form", 6) {
	case 0:
		checkLexer(w)
	case 1:
		checkLexer(w + sym.Str("after", 1))
	case 2:
		checkLexer(sym.Str("before", 1) + w)
	case 3:
		i := sym.Choose("place", len(w))
		checkLexer(w[:i] + sym.Str("letter", 1) + w[i+1:])
	case 4:
		i := sym.Choose("place", len(w))
		checkLexer(w[:i] + w[i+1:])
	case 5:
		checkLexer("DISTINCT" + sym.Str("gap", 1) + w)
	}
}

// Words and gaps of any length, also across the reader's buffer.
func C18_long() {
	n := []int{17, 4095, 4096, 64, 200, 4094, 4097}[sym.Choose("length", sym.Bound(3, 7))]
	c := "x"
	switch sym.Choose("filling", sym.Bound(2, 4)) {
	case 1:
		c = " "
	case 2:
		c = "="
	case 3:
		c = "é"
		n /= 2
	}
	checkLexer(strings.Repeat(c, n) + sym.Str("end", 1) + "y")
}
