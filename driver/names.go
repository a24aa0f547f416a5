package main

import (
	"fmt"
	"sort"
	"strings"
	"sync"

	"github.com/AfterShip/clickhouse-sql-parser/parser"
)

func init() { checks["P16"] = checkP16 }

// adjacency is what Adjacent.tla finds: which source tokens can stand next to
// each other in a statement, and the keywords.
type adjacency struct {
	next           map[string]map[string]bool
	free, reserved []string
	isReserved     map[string]bool
	taken, rtaken  map[string]map[string]bool // Words.tla: one neighbour decides
	sets           map[string]map[string]bool // Words.tla: USERWORDS, FOLLOW, PREFIX
}

func (a *adjacency) put(l, r string) {
	l, r = strings.ToUpper(l), strings.ToUpper(r)
	if a.next[l] == nil {
		a.next[l] = map[string]bool{}
	}
	a.next[l][r] = true
}

func (c *Ctx) adjacency(roots []string) *adjacency {
	a := &adjacency{next: map[string]map[string]bool{}, isReserved: map[string]bool{}, taken: map[string]map[string]bool{}, rtaken: map[string]map[string]bool{}, sets: map[string]map[string]bool{}}
	set := func(l string) map[string]bool {
		m := map[string]bool{}
		for _, x := range tlaStrings(l) {
			m[x] = true
		}
		return m
	}
	cfg := fmt.Sprintf("CONSTANT Roots = {%s}\nINIT Init\nNEXT Next\nINVARIANT Emit\n", `"`+strings.Join(roots, `","`)+`"`)
	st, err := runTLC(TLCRun{Module: "Adjacent", Cfg: cfg, Workers: 1, Line: func(l string) {
		f := tlaStrings(l)
		switch f[0] {
		case "ADJ2":
			for _, x := range tlaStrings(f[1]) {
				for _, y := range tlaStrings(f[2]) {
					a.put(x, y)
				}
			}
		case "ADJ":
			for _, y := range tlaStrings(f[2]) {
				a.put("^", y)
			}
		case "ADJ$":
			for _, x := range tlaStrings(f[1]) {
				a.put(x, "$")
			}
		case "WORD":
			if f[2] == "reserved" {
				a.reserved = append(a.reserved, f[1])
				a.isReserved[f[1]] = true
			} else {
				a.free = append(a.free, f[1])
			}
		case "TAKEN":
			a.taken[f[1]] = set(f[2])
		case "RTAKEN":
			a.rtaken[f[1]] = set(f[2])
		case "USERWORDS", "FOLLOW", "PREFIX":
			a.sets[f[0]] = set(f[1])
		default:
			lexer.add(f)
		}
	}})
	if err != nil {
		fatal("model checker: %v", err)
	}
	c.tlc = append(c.tlc, st)
	sort.Strings(a.free)
	sort.Strings(a.reserved)
	return a
}

// classes of a token for adjacency.
func (a *adjacency) classes(t Tok) []string {
	up := strings.ToUpper(t.Text)
	switch {
	case t.Kind == 'k' || t.Kind == 'p':
		return []string{up}
	case t.Kind == 'n' && (t.Text[0] == '-' || t.Text[0] == '+'):
		return []string{"@", t.Text[:1]}
	case a.next[up] != nil:
		return []string{"@", up}
	}
	return []string{"@"}
}

// keywordReading reports whether w between tokens i-1 and i+1 of the sentence
// could be the keyword.
func (a *adjacency) keywordReading(ts []Tok, i int, w string) bool {
	ls, rs := []string{"^"}, []string{"$"}
	if i > 0 {
		ls = a.classes(ts[i-1])
	}
	if i+1 < len(ts) {
		rs = a.classes(ts[i+1])
	}
	left, right := false, false
	for _, l := range ls {
		left = left || a.next[l][w]
	}
	for _, r := range rs {
		right = right || a.next[w][r]
	}
	return left && right
}

// nameAt is where a name stands: the node and field that hold it.
func nameAt(n *Node, name string) string {
	var rec func(n *Node, up string) string
	rec = func(n *Node, up string) string {
		for _, f := range n.Names {
			for _, v := range n.Vals[f] {
				if v.Node == nil {
					if v.S == name {
						if n.Type == "Ident" {
							return up
						}
						return n.Type + "." + f
					}
				} else if r := rec(v.Node, n.Type+"."+f); r != "" {
					return r
				}
			}
		}
		return ""
	}
	return rec(n, "root")
}

// renamed is a copy of the tree with another name.
func renamed(n *Node, old, name string, quote int) *Node {
	m := newNode(n.Type)
	m.Leaf = n.Leaf
	for _, f := range n.Names {
		for _, v := range n.Vals[f] {
			if v.Node != nil {
				v.Node = renamed(v.Node, old, name, quote)
			} else if v.S == old {
				v.S = name
			} else if f == "QuoteType" && n.Vals["Name"][0].S == old && quote != 0 {
				v.S = fmt.Sprint(quote)
			}
			m.add(f, v)
		}
	}
	if n.Type == "Ident" && n.Vals["QuoteType"] == nil && n.Vals["Name"][0].S == old && quote != 0 {
		m.add("QuoteType", Val{S: fmt.Sprint(quote)})
	}
	return m
}

// What Words.tla and Adjacent.tla say about a word at a place.
const (
	asName   = "name"   // it is read as the name
	rejected = "reject" // the statement is not accepted
	open     = "open"   // it can be the keyword
)

// Vocabularies of their own, and lists of words with a meaning.
func vocabulary(at string) bool {
	switch at {
	case "ScalarType.Name", "NestedType.Name", "ComplexType.Name", "AuthenticationClause.AuthType", "TypeWithParams.Name":
		return true
	}
	return false
}

func (a *adjacency) reading(ts []Tok, i int, at, w string) string {
	left, right := "^", "$"
	if i > 0 {
		left = strings.ToUpper(ts[i-1].Text)
	}
	if i+1 < len(ts) {
		right = a.classes(ts[i+1])[0]
	}
	if vocabulary(at) || a.keywordReading(ts, i, w) || a.taken[left][w] || a.taken[a.leftClasses(ts, i)[0]][w] || a.taken[left+" "+right][w] || a.rtaken[right][w] || left == "INTERVAL" {
		return open
	}
	follows := false // the word could stand behind what is before it
	for _, l := range a.leftClasses(ts, i) {
		follows = follows || a.next[l][w]
	}
	if follows && (a.taken["*"][w] || ts[i].Name == 't') {
		return open
	}
	if at == "SettingPair.Name" && a.sets["USERWORDS"][w] {
		return open
	}
	switch ts[i].Name {
	case 't': // a bare alias of a table is not a keyword
		return rejected
	case 'a':
		return asName
	}
	if !a.isReserved[w] {
		return asName
	}
	if left == "AS" { // an alias takes any word, except where the list may end with AS SELECT
		return open
	}
	switch ts[i].Name {
	case 'c':
		if a.sets["PREFIX"][w] {
			return open
		}
		if a.sets["FOLLOW"][right] {
			return asName
		}
	case 'f':
		return asName
	}
	return rejected
}

func (a *adjacency) leftClasses(ts []Tok, i int) []string {
	if i == 0 {
		return []string{"^"}
	}
	return a.classes(ts[i-1])
}

func checkP16(c *Ctx) {
	roots := allRoots()
	a := c.adjacency(roots)
	c.count("free words", int64(len(a.free)))
	c.count("reserved words", int64(len(a.reserved)))
	words := append(append([]string(nil), a.free...), a.reserved...)
	var mu sync.Mutex
	seen := map[string]bool{}
	places := map[string]bool{}
	srcs := []Src{{Roots: roots, Budget: 1, Cover: true}}
	if !c.Quick {
		srcs = append(srcs, Src{Roots: roots, Budget: 2, Cover: true, Frozen: skeleton}, Src{Roots: roots, Budget: 10, Sim: 100000, Wild: true}, Src{Roots: roots, Budget: 2})
	}
	for _, src := range srcs {
		c.sentences(src, func(w *W, s *Sentence) {
			for i, t := range s.Toks {
				if t.Kind != 'i' {
					continue
				}
				n := 0
				for _, u := range s.Toks {
					if u.Text == t.Text {
						n++
					}
				}
				if n > 1 {
					continue
				}
				at := nameAt(s.Root, t.Text)
				l, r := a.leftClasses(s.Toks, i)[0], "$"
				if i+1 < len(s.Toks) {
					r = a.classes(s.Toks[i+1])[0]
				}
				key := l + " " + at + string(rune(t.Name)) + " " + r
				mu.Lock()
				dup := seen[key]
				seen[key] = true
				places[at] = true
				mu.Unlock()
				if dup {
					continue
				}
				try := func(word, text string, quote int, want string) {
					ts := append([]Tok(nil), s.Toks...)
					ts[i].Text = text
					sql, _ := (&Sentence{Toks: ts}).Render()
					c.count("words tried", 1)
					o := w.parse(sql)
					id := word + "@" + at
					switch {
					case o.Panic != "":
						c.report(&Finding{"panic", sql, o.Panic})
					case o.Err != nil && want == asName:
						c.deviates(id, &Finding{"name", sql, fmt.Sprintf("%s is not accepted as the name in %s: %v", text, at, oneLine(o.Err.Error()))})
					case o.Err != nil:
					case want == rejected:
						c.deviates(id, &Finding{"name", sql, fmt.Sprintf("%s is accepted as the name in %s", text, at)})
					case len(o.Stmts) != 1:
						c.report(&Finding{"name", sql, fmt.Sprintf("%d statements", len(o.Stmts))})
					default:
						if d := diff(renamed(s.Root, t.Text, word, quote), dump(o.Stmts[0]), ""); d != "" {
							c.deviates(id, &Finding{"name", sql, fmt.Sprintf("%s as the name in %s changes the tree: %s", text, at, d)})
						}
					}
				}
				for _, word := range words {
					want := a.reading(s.Toks, i, at, word)
					c.count("reading "+want, 1)
					if want == open {
						continue
					}
					text := recase(w.rng, []string{"upper", "lower", "mixed"}[w.rng.Intn(3)], word)
					try(text, text, 0, want)
				}
				if vocabulary(at) {
					continue
				}
				for k := 0; k < 6; k++ {
					word := words[w.rng.Intn(len(words))]
					try(word, "`"+word+"`", int(parser.BackTicks), asName)
					try(word, `"`+word+`"`, int(parser.DoubleQuote), asName)
				}
			}
		})
	}
	c.count("places", int64(len(places)))
	c.count("contexts", int64(len(seen)))
}
