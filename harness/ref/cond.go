package ref

// Tree reads a boolean expression with SQL's precedence (NOT, then AND, then OR, operators of one level
// associating to the left) and returns its shape: (l AND r), (l OR r), or the name of a leaf, which is its
// first delimited identifier starting with 'c'. ok is false when the text is not one expression.
func Tree(ts []Tok) (shape string, ok bool) {
	p := &cparser{ts: ts, ok: true}
	s := p.or()
	return s, p.ok && p.i == len(ts)
}

type cparser struct {
	ts []Tok
	i  int
	ok bool
}

func (p *cparser) word(w string) bool {
	return p.i < len(p.ts) && p.ts[p.i].Kind == 'w' && p.ts[p.i].Text == w
}

func (p *cparser) op(o string) bool {
	return p.i < len(p.ts) && p.ts[p.i].Kind == 'o' && p.ts[p.i].Text == o
}

func (p *cparser) or() string {
	l := p.and()
	for p.word("OR") {
		p.i++
		l = "(" + l + " OR " + p.and() + ")"
	}
	return l
}

func (p *cparser) and() string {
	l := p.primary()
	for p.word("AND") {
		p.i++
		l = "(" + l + " AND " + p.primary() + ")"
	}
	return l
}

// group tells whether the parenthesis at p.i encloses a whole operand (and not, say, a row or a function's arguments).
func (p *cparser) group() bool {
	depth := 0
	for j := p.i; j < len(p.ts); j++ {
		t := p.ts[j]
		if t.Kind != 'o' {
			continue
		}
		if t.Text == "(" {
			depth++
		}
		if t.Text == ")" {
			depth--
			if depth == 0 {
				if p.i+1 < len(p.ts) && p.ts[p.i+1].Kind == 'w' && p.ts[p.i+1].Text == "SELECT" {
					return false
				}
				if j+1 == len(p.ts) {
					return true
				}
				n := p.ts[j+1]
				return n.Kind == 'w' && (n.Text == "AND" || n.Text == "OR") || n.Kind == 'o' && n.Text == ")"
			}
		}
	}
	return false
}

func (p *cparser) primary() string {
	if p.op("(") && p.group() {
		p.i++
		s := p.or()
		if !p.op(")") {
			p.ok = false
			return s
		}
		p.i++
		return s
	}
	depth, between := 0, false
	name := ""
	start := p.i
	for p.i < len(p.ts) {
		t := p.ts[p.i]
		if t.Kind == 'o' && t.Text == "(" {
			depth++
		}
		if t.Kind == 'o' && t.Text == ")" {
			if depth == 0 {
				break
			}
			depth--
		}
		if t.Kind == 'w' && depth == 0 {
			if t.Text == "BETWEEN" {
				between = true
			} else if t.Text == "AND" && between {
				between = false
			} else if t.Text == "AND" || t.Text == "OR" {
				break
			}
		}
		if t.Kind == 'e' {
			p.ok = false
		}
		if name == "" && t.Kind == 'q' && len(t.Text) > 0 && t.Text[0] == 'c' {
			name = t.Text
		}
		p.i++
	}
	if p.i == start || depth != 0 || between {
		p.ok = false
	}
	return name
}

// After returns the tokens after the given word, up to one of the words in stop at the same depth.
func After(ts []Tok, w string, stop ...string) []Tok {
	depth := 0
	for i, t := range ts {
		if t.Kind == 'o' && t.Text == "(" {
			depth++
		}
		if t.Kind == 'o' && t.Text == ")" {
			depth--
		}
		if depth == 0 && t.Kind == 'w' && t.Text == w {
			rest := ts[i+1:]
			for j, u := range rest {
				if u.Kind == 'o' && u.Text == "(" {
					depth++
				}
				if u.Kind == 'o' && u.Text == ")" {
					depth--
				}
				if depth == 0 && u.Kind == 'w' {
					for _, s := range stop {
						if u.Text == s {
							return rest[:j]
						}
					}
				}
				if depth == 0 && u.Kind == 'o' && u.Text == ";" {
					return rest[:j]
				}
			}
			return rest
		}
	}
	return nil
}
