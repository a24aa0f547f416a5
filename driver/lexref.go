package main

import (
	"fmt"
	"unicode"
	"unicode/utf8"
)

// Automaton is the lexical automaton of LexTable.tla as dumped by TLC.
type Automaton struct {
	Delta map[string]map[string]string
	Kind  map[string]string
	// Operand: token kinds and tokens after which a sign is an operator
	Operand map[string]bool
}

func newAutomaton() *Automaton {
	return &Automaton{Delta: map[string]map[string]string{}, Kind: map[string]string{}, Operand: map[string]bool{}}
}

func (a *Automaton) add(f []string) {
	if f[0] == "LEX" && len(f) == 4 {
		if a.Delta[f[1]] == nil {
			a.Delta[f[1]] = map[string]string{}
		}
		a.Delta[f[1]][f[2]] = f[3]
	}
	if f[0] == "LEXS" && len(f) == 2 {
		a.Operand[f[1]] = true
	}
	if f[0] == "LEXK" && len(f) == 3 {
		a.Kind[f[1]] = f[2]
	}
}

// classOf abstracts the character at the start of s; n is its width.
func classOf(s string) (class string, n int) {
	c := s[0]
	switch {
	case c == '\n' || c == '\r':
		return "nl", 1
	case c == '0':
		return "zero", 1
	case c >= '1' && c <= '9':
		return "dig", 1
	case c == 'e' || c == 'E':
		return "e", 1
	case c >= 'a' && c <= 'd' || c == 'f' || c >= 'A' && c <= 'D' || c == 'F':
		return "hex", 1
	case c == 'x':
		return "x", 1
	case c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_':
		return "al", 1
	}
	if c < utf8.RuneSelf && unicode.IsSpace(rune(c)) {
		return "sp", 1
	}
	if c >= utf8.RuneSelf {
		r, w := utf8.DecodeRuneInString(s)
		if unicode.IsSpace(r) {
			return "sp", w
		}
		return "hi", w
	}
	switch c {
	case '$':
		return "dol", 1
	case '\'':
		return "sq", 1
	case '`':
		return "bt", 1
	case '"':
		return "dq", 1
	case '\\':
		return "bs", 1
	case '.':
		return "dot", 1
	case '+':
		return "plus", 1
	case '-':
		return "minus", 1
	case '/':
		return "slash", 1
	case '*':
		return "star", 1
	case '>':
		return "gt", 1
	case '<':
		return "lt", 1
	case '=':
		return "eq", 1
	case '!':
		return "bang", 1
	case '|':
		return "pipe", 1
	case ':':
		return "colon", 1
	}
	return "oth", 1
}

// Lexeme is a token found by the automaton.
type Lexeme struct {
	Kind     string
	Pos, End int // byte range including quotes
	Text     string
}

// scan reads one lexeme at offset i.
func (a *Automaton) scan(s string, i int) (lx Lexeme, err error) {
	st := "Start"
	j := i
	for j < len(s) {
		c, n := classOf(s[j:])
		nx := a.Delta[st][c]
		if nx == "ERR" {
			return lx, fmt.Errorf("lexical error at %d", j)
		}
		if nx == "" {
			break
		}
		st = nx
		j += n
	}
	k := a.Kind[st]
	if k == "" {
		return lx, fmt.Errorf("unfinished %s at %d", st, i)
	}
	return Lexeme{Kind: k, Pos: i, End: j, Text: s[i:j]}, nil
}

// lex splits s into tokens; comments and blanks are dropped.  A sign that
// cannot be an operator (no operand before it) belongs to the number that
// follows it.
func (a *Automaton) lex(s string) ([]Lexeme, error) {
	var out []Lexeme
	i := 0
	for i < len(s) {
		if (s[i] == '+' || s[i] == '-') && i+1 < len(s) && s[i+1] >= '0' && s[i+1] <= '9' && !a.operandBefore(out) {
			lx, err := a.scan(s, i+1)
			if err != nil {
				return out, err
			}
			lx.Pos, lx.Text = i, s[i:lx.End]
			out = append(out, lx)
			i = lx.End
			continue
		}
		lx, err := a.scan(s, i)
		if err != nil {
			return out, err
		}
		if lx.Kind != "skip" {
			out = append(out, lx)
		}
		i = lx.End
	}
	return out, nil
}

func (a *Automaton) operandBefore(ts []Lexeme) bool {
	if len(ts) == 0 {
		return false
	}
	l := ts[len(ts)-1]
	if l.Kind == "op" {
		return a.Operand[l.Text]
	}
	return a.Operand[l.Kind]
}

func texts(ts []Lexeme) []string {
	var out []string
	for _, t := range ts {
		out = append(out, t.Text)
	}
	return out
}
