package main

import (
	"fmt"
	"hash/fnv"
	"math/rand"
	"sort"
	"strings"

	"github.com/AfterShip/clickhouse-sql-parser/parser"
)

// Tok is a token of the source text.
type Tok struct {
	Text string
	Kind byte // k keyword, p punctuation, i identifier, q quoted identifier, n number, s string, w word used as name
	Drop bool // the token is noise: absent from the canonical text
	Word bool // a keyword recorded as a name: its case does not matter
	Name byte // what kind of name an i is: c an operand, a any word (reserved too), f of a function called, t a bare alias of a table, 0 any other
}

// Sentence is one finished behaviour of the statement machine with concrete
// lexemes put in.
type Sentence struct {
	Trace   []string
	Toks    []Tok
	Canon   []string // tokens of the canonical text
	CanonAt []int    // number of canonical tokens after each source token (valid if !Moved)
	Moved   bool     // canonical order differs from source order
	Root    *Node
	Notes   []string
	Opens   []string // node types in opening order
	Bad     bool     // a lookahead restriction is broken: not a statement
}

func hash64(parts ...string) int64 {
	h := fnv.New64a()
	for _, p := range parts {
		h.Write([]byte(p))
		h.Write([]byte{0})
	}
	return int64(h.Sum64() & 0x7fffffffffffffff)
}

// Lexicon chooses lexemes.
type Lexicon struct {
	rng  *rand.Rand
	n    int
	Wild bool   // unusual spellings (escapes, non-ASCII, line breaks in literals)
	IDK  string // force this keyword for @idk / @idr
}

func (l *Lexicon) id() string {
	l.n++
	switch l.rng.Intn(7) {
	case 0:
		return fmt.Sprintf("Col%dX", l.n)
	case 1:
		return fmt.Sprintf("_u%d", l.n)
	case 2:
		return fmt.Sprintf("k$%d", l.n)
	case 3:
		return fmt.Sprintf("SELECTED_%d", l.n)
	default:
		return fmt.Sprintf("a%d", l.n)
	}
}

func (l *Lexicon) quoted(q byte) string {
	l.n++
	switch l.rng.Intn(5) {
	case 0:
		return fmt.Sprintf("a b%d", l.n)
	case 1:
		return fmt.Sprintf("from%d;--", l.n)
	case 2:
		return fmt.Sprintf("é%d'", l.n)
	case 3:
		return fmt.Sprintf("q%d/*", l.n)
	default:
		return fmt.Sprintf("q%d", l.n)
	}
}

func (l *Lexicon) str() string {
	l.n++
	k := 6
	if l.Wild {
		k = 10
	}
	switch l.rng.Intn(k) {
	case 0:
		return fmt.Sprintf(`it\'s %d`, l.n)
	case 1:
		return fmt.Sprintf(`x''%d`, l.n)
	case 2:
		return fmt.Sprintf(`%d -- /* %%`, l.n)
	case 3:
		return fmt.Sprintf("é%d;\\\\", l.n)
	case 6:
		return fmt.Sprintf("l%d\nm  \n\tn", l.n)
	case 7:
		return fmt.Sprintf("SELECT  %d", l.n)
	case 8: // escapes and doubled quotes in any order
		b := fmt.Sprint(l.n)
		for i := l.rng.Intn(4); i >= 0; i-- {
			b += []string{`\\`, `\'`, `''`, `a`, `\n`, `"`, "`"}[l.rng.Intn(7)]
		}
		return b
	default:
		return fmt.Sprintf("s%d", l.n)
	}
}

func (l *Lexicon) num() (string, int) {
	l.n++
	k := 8
	if l.Wild {
		k = 5
	}
	switch l.rng.Intn(k) {
	case 0:
		return fmt.Sprintf("%d.5", l.n), 10
	case 1:
		return fmt.Sprintf("0x%dFa", l.n), 16
	case 2:
		return fmt.Sprintf("%de%d", l.n, 1+l.rng.Intn(9)), 10
	case 3:
		return fmt.Sprintf("%d.25E-3", l.n), 10
	default:
		return fmt.Sprintf("%d", l.n+100), 10
	}
}

// words that can stand for any name without changing how the surrounding
// clause reads; the full list is exercised by the P16 check.
var neutralWords = []string{"VOLUME", "TIES", "REALM", "type", "Queues", "watch", "VIEW", "user", "Year", "TREE"}
var reservedWords = []string{"FROM", "Select", "WHERE", "order", "GROUP", "LIMIT", "in", "AND", "UNION", "case", "FORMAT", "SETTINGS"}
var callableWords = []string{"and", "or", "in", "LIKE", "if", "left", "RIGHT", "any", "Max"}
var units = []string{"SECOND", "minute", "HOUR", "Day", "WEEK", "month", "QUARTER", "YEAR", "MILLISECOND"}
var typeNames = []string{"UInt64", "String", "DateTime64", "Float32", "Map", "Array", "LowCardinality", "FixedString"}

type canonItem struct {
	text string
	keys []int
	seq  int
}

// leaf makes the node and the token(s) of a lexeme class.
func (l *Lexicon) leaf(class string, prev *Tok) (n *Node, tok Tok, canon string) {
	ident := func(name string, q int) *Node {
		n := newNode("Ident")
		n.add("Name", Val{S: name})
		if q != 0 {
			n.add("QuoteType", Val{S: fmt.Sprint(q)})
		}
		return n
	}
	switch class {
	case "id", "idc", "ida", "idf", "idt":
		s, k := l.id(), byte(0)
		if class != "id" {
			k = class[2]
		}
		return ident(s, parser.Unquoted), Tok{Text: s, Kind: 'i', Name: k}, s
	case "idb":
		s := l.quoted('`')
		return ident(s, parser.BackTicks), Tok{Text: "`" + s + "`", Kind: 'q'}, "`" + s + "`"
	case "idd":
		s := l.quoted('"')
		return ident(s, parser.DoubleQuote), Tok{Text: `"` + s + `"`, Kind: 'q'}, `"` + s + `"`
	case "ids":
		s := l.str()
		return ident(s, parser.SingleQuote), Tok{Text: "'" + s + "'", Kind: 's'}, "'" + s + "'"
	case "idk", "idr", "tyk":
		s := neutralWords[l.rng.Intn(len(neutralWords))]
		if class == "idr" {
			s = reservedWords[l.rng.Intn(len(reservedWords))]
		}
		if l.IDK != "" {
			s = l.IDK
		}
		return ident(s, parser.Unquoted), Tok{Text: s, Kind: 'w'}, s
	case "fnkw":
		s := callableWords[l.rng.Intn(len(callableWords))]
		return ident(s, parser.Unquoted), Tok{Text: s, Kind: 'w'}, s
	case "nid": // name recorded without its quoting
		s := l.id()
		return ident(s, 0), Tok{Text: s, Kind: 'i', Name: 'a'}, s
	case "star":
		return ident("*", 0), Tok{Text: "*", Kind: 'p'}, "*"
	case "unit":
		s := units[l.rng.Intn(len(units))]
		return ident(s, parser.Unquoted), Tok{Text: s, Kind: 'w', Word: true}, s
	case "ty":
		s := typeNames[l.rng.Intn(len(typeNames))]
		return ident(s, parser.Unquoted), Tok{Text: s, Kind: 'i'}, s
	case "tuple":
		return ident("Tuple", parser.Unquoted), Tok{Text: "Tuple", Kind: 'i'}, "Tuple"
	case "codec":
		s := []string{"LZ4", "NONE", "FPC"}[l.rng.Intn(3)]
		return ident(s, parser.Unquoted), Tok{Text: s, Kind: 'i'}, s
	case "null":
		return newNode("NullLiteral"), Tok{Text: "NULL", Kind: 'k'}, "NULL"
	case "str":
		s := l.str()
		if l.Wild && l.rng.Intn(16) == 0 {
			s = ""
		}
		n := newNode("StringLiteral")
		if s != "" {
			n.add("Literal", Val{S: s})
		}
		return n, Tok{Text: "'" + s + "'", Kind: 's'}, "'" + s + "'"
	case "num", "int":
		s, base := l.num()
		if class == "int" {
			l.n++
			s, base = fmt.Sprint(l.n+100), 10
		} else if prev != nil && l.rng.Intn(6) == 0 && strings.Contains("( [ , = < > + * ||", prev.Text) && prev.Kind == 'p' {
			s = "-" + s
		}
		n := newNode("NumberLiteral")
		n.add("Literal", Val{S: s})
		n.add("Base", Val{S: fmt.Sprint(base)})
		return n, Tok{Text: s, Kind: 'n'}, s
	}
	if strings.HasPrefix(class, "fn") || strings.HasPrefix(class, "kw") {
		s := class[2:]
		return ident(s, parser.Unquoted), Tok{Text: s, Kind: 'w', Word: true}, s
	}
	// any other class is a fixed name
	return ident(class, parser.Unquoted), Tok{Text: class, Kind: 'w', Word: class != "dictGet"}, class
}

// banned decides the lookahead classes of the specification.
func banned(class string, t Tok) bool {
	switch class {
	case "comma": // it would continue the list
		return t.Text == ","
	case "sign": // anything that could continue an expression before it
		switch strings.ToUpper(t.Text) {
		case "NOT", "AND", "OR", "IN", "LIKE":
			return true
		}
		return strings.HasPrefix(t.Text, "-") || strings.HasPrefix(t.Text, "+")
	}
	return false
}

func isWord(s string) bool {
	return s != "" && (s[0] >= 'A' && s[0] <= 'Z' || s[0] >= 'a' && s[0] <= 'z' || s[0] == '_')
}

// instantiate turns a trace of the machine into a sentence.
func instantiate(trace []string, lex *Lexicon) *Sentence {
	s := &Sentence{Trace: trace}
	type frame struct {
		n     *Node
		field string // field of the parent
	}
	var stack []frame
	var field string
	var texts []string // pending $fields
	var items []canonItem
	var keys []int
	var prev *Tok
	ban := "" // lookahead restriction on the next source token

	attach := func(n *Node) {
		if len(stack) == 0 {
			if s.Root != nil {
				panic("two roots")
			}
			s.Root = n
			return
		}
		if field == "" {
			panic(fmt.Sprintf("node %s has no field in %s: %v", n.Type, stack[len(stack)-1].n.Type, trace))
		}
		stack[len(stack)-1].n.add(field, Val{Node: n})
		field = ""
	}
	cover := func() {
		i := len(s.Toks) - 1
		for k := range stack {
			if stack[k].n.First < 0 {
				stack[k].n.First = i
			}
			stack[k].n.Last = i
		}
	}
	emit := func(t Tok, canon string, src, can bool) {
		for _, f := range texts {
			stack[len(stack)-1].n.add(f, Val{S: t.Text})
		}
		texts = nil
		if src {
			if ban != "" && banned(ban, t) {
				s.Bad = true
			}
			ban = ""
			t.Drop = !can
			s.Toks = append(s.Toks, t)
			prev = &s.Toks[len(s.Toks)-1]
			cover()
		}
		if can {
			items = append(items, canonItem{canon, append([]int(nil), keys...), len(items)})
		}
		if src {
			s.CanonAt = append(s.CanonAt, len(items))
		}
	}

	for _, sym := range trace {
		if sym == "#" {
			stack = stack[:len(stack)-1]
			continue
		}
		if len(sym) > 1 {
			switch sym[0] {
			case '#':
				n := newNode(sym[1:])
				s.Opens = append(s.Opens, sym[1:])
				attach(n)
				stack = append(stack, frame{n: n})
				continue
			case '&':
				field = sym[1:]
				continue
			case '$':
				texts = append(texts, sym[1:])
				continue
			case '%':
				if sym[1] >= 'A' && sym[1] <= 'Z' {
					kv := strings.SplitN(sym[1:], "=", 2)
					stack[len(stack)-1].n.add(kv[0], Val{S: kv[1]})
					continue
				}
			case '!':
				if sym != "!=" {
					if strings.HasPrefix(sym, "!seg=") {
						k := 0
						fmt.Sscan(sym[5:], &k)
						keys = append(keys, k)
						s.Moved = true
					} else if sym == "!end" {
						keys = keys[:len(keys)-1]
					} else if strings.HasPrefix(sym, "!notnext=") {
						ban = sym[9:]
					} else {
						s.Notes = append(s.Notes, sym[1:])
					}
					continue
				}
			case '@':
				if sym == "@" {
					break
				}
				p := prev
				if len(keys) > 0 { // a sign binds by what is before it, which canonical order may change
					p = nil
				}
				n, t, canon := lex.leaf(sym[1:], p)
				n.Leaf = sym[1:]
				if len(texts) > 0 { // recorded as text, not as a node
					txt := n.Vals["Name"]
					if len(txt) == 0 {
						txt = n.Vals["Literal"]
					}
					for _, f := range texts {
						stack[len(stack)-1].n.add(f, Val{S: txt[0].S})
					}
					texts = nil
					emit(t, canon, true, true)
					continue
				}
				attach(n)
				s.Opens = append(s.Opens, n.Type)
				stack = append(stack, frame{n: n})
				emit(t, canon, true, true)
				stack = stack[:len(stack)-1]
				continue
			case '~', '^':
				w := sym[1:]
				k := byte('p')
				if isWord(w) {
					k = 'k'
				}
				emit(Tok{Text: w, Kind: k}, w, sym[0] == '^', sym[0] == '~')
				continue
			}
		}
		k := byte('p')
		if isWord(sym) {
			k = 'k'
			if sym[0] >= 'a' { // lower-case fixed words are names, not keywords
				k = 'w'
			}
		}
		emit(Tok{Text: sym, Kind: k}, sym, true, true)
	}
	if s.Moved {
		items = sortSegments(items, 0)
	}
	for _, it := range items {
		s.Canon = append(s.Canon, it.text)
	}
	return s
}

// Render writes the tokens separated by single spaces and returns the byte
// range of each token.
func (s *Sentence) Render() (string, [][2]int) {
	var b strings.Builder
	var at [][2]int
	for i, t := range s.Toks {
		if i > 0 {
			b.WriteByte(' ')
		}
		a := b.Len()
		b.WriteString(t.Text)
		at = append(at, [2]int{a, b.Len()})
	}
	return b.String(), at
}

// sortSegments puts runs of adjacent segments into canonical order.
func sortSegments(items []canonItem, d int) []canonItem {
	var out []canonItem
	for i := 0; i < len(items); {
		if len(items[i].keys) <= d {
			out = append(out, items[i])
			i++
			continue
		}
		j := i
		for j < len(items) && len(items[j].keys) > d {
			j++
		}
		run := append([]canonItem(nil), items[i:j]...)
		sort.SliceStable(run, func(a, b int) bool { return run[a].keys[d] < run[b].keys[d] })
		out = append(out, sortSegments(run, d+1)...)
		i = j
	}
	return out
}
