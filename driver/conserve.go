package main

import (
	"sort"
	"strings"
	"sync"

	"github.com/AfterShip/clickhouse-sql-parser/parser"
)

func init() { checks["P03"] = checkP03 }

// exchange is one way in which the tokens of the canonical text may differ
// from those of the source (Conserve.tla).
type exchange struct {
	gone, come []string
	anchors    []string // it happens no more often than these words
}

func (c *Ctx) exchanges() []exchange {
	var out []exchange
	st, err := runTLC(TLCRun{Module: "Conserve", Cfg: "INIT Init\nNEXT Next\n", Workers: 1, Line: func(l string) {
		f := tlaStrings(l)
		switch {
		case f[0] == "EXCHANGE":
			up := func(xs []string) []string {
				for i := range xs {
					xs[i] = strings.ToUpper(xs[i])
				}
				return xs
			}
			x := exchange{up(tlaStrings(f[1])), up(tlaStrings(f[2])), tlaStrings(f[3])}
			for _, l := range listed {
				if strings.Join(x.gone, " ") == strings.Join(l.gone, " ") {
					return
				}
			}
			out = append(out, x)
		case f[0] == "WORD":
			keyword[f[1]] = true
			reserved[f[1]] = f[2] == "reserved"
		default:
			lexer.add(f)
		}
	}})
	if err != nil {
		fatal("model checker: %v", err)
	}
	c.tlc = append(c.tlc, st)
	return out
}

var keyword, reserved = map[string]bool{}, map[string]bool{} // Words.tla

// bag counts the tokens of a text, as far as they matter: not the separators
// between statements; a sign apart from its number.
func bag(ls []Lexeme, by int, m map[string]int) {
	first := ""
	for i, l := range ls {
		t := l.Text
		if first == "" || t == ";" {
			first = strings.Trim(t, ";")
		}
		if i > 0 && strings.EqualFold(ls[i-1].Text, "FORMAT") && strings.EqualFold(first, "SHOW") {
			t = strings.Trim(t, "'`\"") // it has the name as a string
		}
		if t == ";" {
			continue
		}
		if len(t) > 1 && (t[0] == '-' || t[0] == '+') && t[1] >= '0' && t[1] <= '9' {
			m[t[:1]] += by
			t = t[1:]
		}
		if u := strings.ToUpper(t); keyword[u] {
			t = u
		}
		m[t] += by
		if m[t] == 0 {
			delete(m, t)
		}
	}
	for k, n := range m {
		if n == 0 {
			delete(m, k)
		}
	}
}

// explained reports whether the difference (source minus canonical text) is a
// sum of exchanges; words counts the words of the source.
func explained(m map[string]int, xs []exchange, words map[string]int) bool {
	return explain(m, xs, words, 0)
}

func explain(m map[string]int, xs []exchange, words map[string]int, uses int) bool {
	if len(m) == 0 {
		return true
	}
	fits := func(x exchange, uses int) bool {
		for _, g := range x.gone {
			if m[g] <= 0 {
				return false
			}
		}
		for _, g := range x.come {
			if m[g] >= 0 {
				return false
			}
		}
		n := 0
		for _, a := range x.anchors {
			n += words[a]
		}
		return len(x.anchors) == 0 || n > uses
	}
	shift := func(x exchange, by int) {
		for _, g := range x.gone {
			m[g] -= by
			if m[g] == 0 {
				delete(m, g)
			}
		}
		for _, g := range x.come {
			m[g] += by
			if m[g] == 0 {
				delete(m, g)
			}
		}
	}
	for i, x := range xs {
		if i > 0 {
			uses = 0
		}
		if fits(x, uses) {
			shift(x, 1)
			ok := explain(m, xs[i:], words, uses+1)
			shift(x, -1)
			if ok {
				return true
			}
		}
	}
	return false
}

func bagText(m map[string]int) string {
	var gone, come []string
	for k, n := range m {
		for ; n > 0; n-- {
			gone = append(gone, k)
		}
		for ; n < 0; n++ {
			come = append(come, k)
		}
	}
	sort.Strings(gone)
	sort.Strings(come)
	return "gone: " + strings.Join(gone, " ") + "; come: " + strings.Join(come, " ")
}

// listed are the exchanges of the specification that lose something: known
// findings.
var listed = map[string]exchange{
	"partition-id": {gone: []string{"ID"}},
	"attach":       {gone: []string{"ATTACH"}, come: []string{"CREATE"}},
}

func copyBag(m map[string]int) map[string]int {
	d := map[string]int{}
	for k, n := range m {
		d[k] = n
	}
	return d
}

func take(m map[string]int, k string, n int) {
	m[k] -= n
	if m[k] == 0 {
		delete(m, k)
	}
}

// excused: up to spare commas may be gone as well.
func excused(m map[string]int, xs []exchange, words map[string]int, spare int) bool {
	d := copyBag(m)
	for {
		if explained(d, xs, words) {
			return true
		}
		if spare == 0 || d[","] <= 0 {
			return false
		}
		spare--
		take(d, ",", 1)
	}
}

// clauseWords may follow a comma that ends a list.
var clauseWords = map[string]bool{"FROM": true, "WHERE": true, "PREWHERE": true, "GROUP": true, "HAVING": true, "WINDOW": true,
	"ORDER": true, "LIMIT": true, "OFFSET": true, "SETTINGS": true, "FORMAT": true, "UNION": true, "EXCEPT": true, "INTERSECT": true}

// isName: a list behind it is one of arguments or columns, not a tuple.
func isName(l Lexeme) bool {
	c := l.Text[0]
	return (c == '\'' || c >= '0' && c <= '9' || c == '_' || c == '$' || c == '`' || c == '"' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= 0x80) && !reserved[strings.ToUpper(l.Text)]
}

// trailingCommas counts the commas behind the last item of a list, which
// mean nothing; but the one of (x,) makes a tuple.
func trailingCommas(ls []Lexeme) int {
	n := 0
	for i, l := range ls {
		if l.Text != "," {
			continue
		}
		if i+1 == len(ls) || ls[i+1].Text == ";" {
			for j := i - 1; j >= 0; j-- { // the last item selected
				w := strings.ToUpper(ls[j].Text)
				if w == "SELECT" {
					n++
				}
				if w == "SELECT" || clauseWords[w] || w == "(" || w == ";" {
					break
				}
			}
			continue
		}
		switch next := strings.ToUpper(ls[i+1].Text); {
		case next == ")":
			depth, single, argumentList := 0, true, false
			for j := i - 1; j >= 0 && depth >= 0; j-- {
				switch ls[j].Text {
				case ")", "]", "}":
					depth++
				case "(", "[", "{":
					depth--
					argumentList = depth < 0 && j > 0 && (isName(ls[j-1]) || ls[j-1].Text == ")" || j > 1 && ls[j-2].Text == ".")
				case ",":
					single = single && depth != 0
				}
			}
			if !single || argumentList {
				n++
			}
		case next == "]", next == "}", clauseWords[next]:
			n++
		}
	}
	return n
}

// conserved checks that an accepted text comes back complete.
func (w *W) conserved(sql string, xs []exchange) {
	o := w.parse(sql)
	if o.Panic != "" || o.Err != nil {
		return
	}
	w.c.count("accepted", 1)
	w.c.sample(sql)
	src, err := lexer.lex(sql)
	if err != nil {
		w.c.report(&Finding{"lexical", sql, "accepted although " + err.Error()})
		return
	}
	m := map[string]int{}
	bag(src, 1, m)
	words := copyBag(m)
	spare := trailingCommas(src)
	var all []string
	for _, e := range o.Stmts {
		out, p := safely(func() string { return parser.Format(e) })
		if p != "" {
			w.c.report(&Finding{"panic", sql, p})
			return
		}
		all = append(all, out)
		ls, err := lexer.lex(out)
		if err != nil {
			w.c.report(&Finding{"lexical", sql, "canonical text " + out + ": " + err.Error()})
			return
		}
		bag(ls, -1, m)
	}
	if excused(m, xs, words, spare) {
		return
	}
	// listed deviations
	if m["FORMAT"] > 0 {
		for k := range m {
			d := copyBag(m)
			take(d, "FORMAT", 1)
			take(d, k, 1)
			if k != "FORMAT" && m[k] > 0 && excused(d, xs, words, spare) {
				w.c.deviates("stmt-format", &Finding{"lost", sql, bagText(m) + "; canonical text: " + strings.Join(all, "; ")})
				return
			}
		}
	}
	for id, x := range listed {
		d := copyBag(m)
		n := 0
		for d[x.gone[0]] > 0 && (len(x.come) == 0 || d[x.come[0]] < 0) {
			take(d, x.gone[0], 1)
			for _, y := range x.come {
				take(d, y, -1)
			}
			n++
		}
		if n > 0 && excused(d, xs, words, spare) {
			w.c.deviates(id, &Finding{"lost", sql, bagText(m) + "; canonical text: " + strings.Join(all, "; ")})
			return
		}
	}
	w.c.report(&Finding{"lost", sql, bagText(m) + "; canonical text: " + strings.Join(all, "; ")})
}

func checkP03(c *Ctx) {
	c.newRenderer()
	xs := c.exchanges()
	c.count("exchanges", int64(len(xs)))
	roots := allRoots()
	srcs := []Src{{Roots: roots, Budget: 1, Cover: true}}
	one := 3
	if !c.Quick {
		one = 1
		srcs = append(srcs, Src{Roots: roots, Budget: 2, Cover: true, Frozen: skeleton}, Src{Roots: roots, Budget: 10, Sim: 50000, Wild: true}, Src{Roots: roots, Budget: 2})
	}
	words := make([]string, 0, len(keyword))
	for k := range keyword {
		words = append(words, k)
	}
	sort.Strings(words)
	var mu sync.Mutex
	pool := []string{"FINAL"}
	for _, src := range srcs {
		c.sentences(src, func(w *W, s *Sentence) {
			sql, at := s.Render()
			w.conserved(sql, xs)
			s.mutants(func(sql string) {
				if one == 1 || w.rng.Intn(one) == 0 {
					w.conserved(sql, xs)
				}
			})
			for i := range s.Toks { // any word, any part of another statement
				mu.Lock()
				part := pool[w.rng.Intn(len(pool))]
				mu.Unlock()
				for _, x := range []string{words[w.rng.Intn(len(words))], part} {
					w.conserved(sql[:at[i][1]]+" "+x+sql[at[i][1]:], xs)
					w.conserved(sql[:at[i][0]]+x+sql[at[i][1]:], xs)
				}
			}
			seen := map[[2]int]bool{}
			for _, n := range s.Root.descend() {
				a, b := n.First, n.Last
				if a < 0 || b < a || seen[[2]int{a, b}] {
					continue
				}
				seen[[2]int{a, b}] = true
				span := sql[at[a][0]:at[b][1]]
				w.conserved(sql[:at[b][1]]+" "+span+sql[at[b][1]:], xs)
				w.conserved(sql[:at[a][0]]+sql[at[b][1]:], xs)
				if w.rng.Intn(20) == 0 {
					mu.Lock()
					if len(pool) < 4000 {
						pool = append(pool, span)
					} else {
						pool[w.rng.Intn(len(pool))] = span
					}
					mu.Unlock()
				}
			}
		})
	}
}

// descend lists a node and everything below it.
func (n *Node) descend() []*Node {
	out := []*Node{n}
	for _, k := range n.children() {
		out = append(out, k.descend()...)
	}
	return out
}
