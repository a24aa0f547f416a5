package main

import (
	"fmt"
	"math/rand"
	"strings"

	"github.com/AfterShip/clickhouse-sql-parser/parser"
)

func init() {
	checks["P15"] = checkP15
	checks["P04"] = checkP04
}

// Style is a rendering style of Render.tla.
type Style struct{ A, B, Lead, Trail, Case string }

// renderer draws renderings from the styles of Render.tla.
type renderer struct {
	seps   map[string][]string // separator name to classes
	styles []Style
}

// charsOf gives characters of a class; the first are tried first.
var charsOf = map[string][]string{
	"sp": {" ", "\t", "\v", "\f", "\u00a0", "\u2003", "\u0085", "\u3000"}, "nl": {"\n", "\r"},
	"zero": {"0"}, "dig": {"1", "7", "9"}, "e": {"e", "E"}, "hex": {"a", "F", "b"}, "x": {"x"}, "al": {"z", "_", "Q", "g", "X"},
	"dol": {"$"}, "sq": {"'"}, "bt": {"`"}, "dq": {`"`}, "bs": {`\`}, "dot": {"."}, "plus": {"+"}, "minus": {"-"}, "slash": {"/"}, "star": {"*"},
	"gt": {">"}, "lt": {"<"}, "eq": {"="}, "bang": {"!"}, "pipe": {"|"}, "colon": {":"},
	"oth": {",", "(", ")", "[", "]", "{", "}", "?", "%", "@", "#", "^", "~", "&", "\x01"}, "hi": {"é", "日", "😀", "\u200b", "\xff", "\xc3"},
}

func charOf(rng *rand.Rand, class string) string {
	cs := charsOf[class]
	return cs[rng.Intn(len(cs))]
}

func (c *Ctx) newRenderer() *renderer {
	r := &renderer{seps: map[string][]string{}}
	st, err := runTLC(TLCRun{Module: "Render", Cfg: "INIT Init\nNEXT Next\nINVARIANT Emit\n", Workers: 2, Line: func(l string) {
		f := tlaStrings(l)
		switch f[0] {
		case "SEP":
			r.seps[f[1]] = tlaStrings(f[2])
		case "S":
			r.styles = append(r.styles, Style{f[1], f[2], f[3], f[4], f[5]})
		default:
			lexer.add(f)
		}
	}})
	if err != nil {
		fatal("model checker: %v", err)
	}
	c.tlc = append(c.tlc, st)
	sortStyles(r.styles)
	return r
}

func (r *renderer) sep(rng *rand.Rand, name string) string {
	var b strings.Builder
	for _, cl := range r.seps[name] {
		s := charOf(rng, cl)
		if cl == "oth" {
			s = []string{";", ",", "(", "?"}[rng.Intn(4)]
		}
		b.WriteString(s)
	}
	return b.String()
}

func recase(rng *rand.Rand, mode, s string) string {
	switch mode {
	case "lower":
		return strings.ToLower(s)
	case "title":
		return s[:1] + strings.ToLower(s[1:])
	case "mixed":
		b := []byte(s)
		for i, c := range b {
			if rng.Intn(2) == 0 && (c >= 'A' && c <= 'Z') {
				b[i] = c + 32
			}
		}
		return string(b)
	}
	return s
}

func (s *Sentence) recased(rng *rand.Rand, mode string) []Tok {
	out := append([]Tok(nil), s.Toks...)
	for i := range out {
		if out[i].Kind == 'k' || out[i].Word {
			out[i].Text = recase(rng, mode, out[i].Text)
		}
	}
	return out
}

// render writes the sentence in the given style; gaps that the lexical
// automaton would not see are widened.
func (r *renderer) render(rng *rand.Rand, s *Sentence, st Style) (sql string, at [][2]int, ok bool) {
	toks := s.recased(rng, st.Case)
	for widen := 0; widen < 2; widen++ {
		var b strings.Builder
		at = at[:0]
		switch st.Lead {
		case "semi":
			b.WriteString("; ;")
		default:
			b.WriteString(r.sep(rng, st.Lead))
		}
		for i, t := range toks {
			if i > 0 {
				name := st.A
				if i%2 == 0 {
					name = st.B
				}
				g := r.sep(rng, name)
				if !lexer.apart(toks, i, g) || widen > 0 && g == "" {
					g = " " + g
				}
				b.WriteString(g)
			}
			a := b.Len()
			b.WriteString(t.Text)
			at = append(at, [2]int{a, b.Len()})
		}
		switch st.Trail {
		case "semi":
			b.WriteString(" ;")
		case "semis":
			b.WriteString(";; /* ; */ ;\n")
		case "dashend":
			b.WriteString(" -- end ; '")
		default:
			t := r.sep(rng, st.Trail)
			if t != "" && !strings.HasPrefix(t, " ") && strings.HasPrefix(t, "/") {
				t = " " + t
			}
			b.WriteString(t)
		}
		sql = b.String()
		ls, err := lexer.lex(sql)
		if err != nil {
			continue
		}
		k := 0
		good := true
		for _, l := range ls {
			if l.Text == ";" && (k == 0 || k == len(toks)) {
				continue
			}
			if k >= len(toks) || l.Text != toks[k].Text {
				good = false
				break
			}
			k++
		}
		if good && k == len(toks) {
			return sql, at, true
		}
	}
	return sql, at, false
}

// apart reports whether token i is still separate from token i-1 when gap
// stands between them.
func (a *Automaton) apart(toks []Tok, i int, gap string) bool {
	l, r := toks[i-1].Text, toks[i].Text
	if gap != "" {
		lx, err := a.scan(l+gap, 0)
		if (l[0] == '-' || l[0] == '+') && len(l) > 1 && l[1] >= '0' && l[1] <= '9' {
			lx, err = a.scan(l[1:]+gap, 0)
			return err == nil && lx.End == len(l)-1
		}
		return err == nil && lx.End == len(l)
	}
	if (r[0] == '-' || r[0] == '+') && len(r) > 1 && toks[i].Kind == 'n' && toks[i-1].Kind != 'p' {
		return false
	}
	body := l
	if (l[0] == '-' || l[0] == '+') && len(l) > 1 && l[1] >= '0' && l[1] <= '9' {
		body = l[1:]
	}
	lx, err := a.scan(body+r, 0)
	if err != nil || lx.End != len(body) {
		return false
	}
	// a sign must not slip into the number after it
	if (l == "-" || l == "+") && r[0] >= '0' && r[0] <= '9' {
		return i >= 2 && (toks[i-2].Kind != 'p' || toks[i-2].Text == ")" || toks[i-2].Text == "]" || toks[i-2].Text == "}")
	}
	return true
}

func checkP15(c *Ctx) {
	r := c.newRenderer()
	c.count("styles", int64(len(r.styles)))
	n := 3
	if !c.Quick {
		n = 8
	}
	for _, src := range c.general(true) {
		c.sentences(src, func(w *W, s *Sentence) {
			plain, _ := s.Render()
			o := w.parse(plain)
			if o.Err != nil || o.Panic != "" || len(o.Stmts) != 1 {
				c.count("rejected", 1)
				for _, mode := range []string{"upper", "lower"} {
					sql, _, ok := r.render(w.rng, s, Style{"blank", "blank", "none", "none", mode})
					if ok && w.parse(sql).Err == nil {
						c.report(&Finding{"reject", plain, fmt.Sprintf("%s is accepted, this is not: %v", oneLine(sql), o.Err)})
					}
				}
				return
			}
			text, _ := safely(func() string { return parser.Format(o.Stmts[0]) })
			words := map[string]bool{}
			for _, t := range s.Toks {
				if t.Kind == 'k' || t.Word {
					words[strings.ToUpper(t.Text)] = true
				}
			}
			want := dump(o.Stmts[0]).Fold(words)
			for i := 0; i < n; i++ {
				st := r.styles[w.rng.Intn(len(r.styles))]
				sql, _, ok := r.render(w.rng, s, st)
				if !ok {
					c.count("unrenderable", 1)
					continue
				}
				c.report(w.sameOracle(sql, want, text, words))
			}
			w.some(plain)
		})
	}
}

// sameOracle: sql parses to the one statement want, formatted as text up to
// the case of keywords.
func (w *W) sameOracle(sql, want, text string, words map[string]bool) *Finding {
	o := w.parse(sql)
	if o.Panic != "" {
		return &Finding{"panic", sql, o.Panic}
	}
	if o.Err != nil {
		return &Finding{"reject", sql, fmt.Sprintf("%s is accepted, this rendering is not: %v", oneLine(text), o.Err)}
	}
	if len(o.Stmts) != 1 {
		return &Finding{"count", sql, fmt.Sprintf("%d statements", len(o.Stmts))}
	}
	if got := dump(o.Stmts[0]).Fold(words); got != want {
		return &Finding{"tree", sql, fmt.Sprintf("another tree: %s", firstDiff(want, got))}
	}
	got, p := safely(func() string { return parser.Format(o.Stmts[0]) })
	if p != "" {
		return &Finding{"panic", sql, "Format: " + p}
	}
	if got != text && !sameWords(text, got, words) {
		return &Finding{"canon", sql, fmt.Sprintf("formatted differently: %s", firstDiff(text, got))}
	}
	return nil
}

func firstDiff(want, got string) string {
	i := 0
	for i < len(want) && i < len(got) && want[i] == got[i] {
		i++
	}
	lo := max(0, i-60)
	return fmt.Sprintf("at byte %d want ...%s, got ...%s", i, clip(want[min(lo, len(want)):], 120), clip(got[min(lo, len(got)):], 120))
}

func checkP04(c *Ctx) {
	n := 4
	if !c.Quick {
		n = 5
	}
	classes := []string{}
	for k := range charsOf {
		classes = append(classes, `"`+k+`"`)
	}
	strs := func(n int, firsts, inner string, draws int) {
		cfg := fmt.Sprintf("CONSTANTS MaxLen = %d\n Firsts = {%s}\n Inner = {%s}\nINIT Init\nNEXT Next\nINVARIANTS Progress LongestMatch NoTrap Emit\n", n, firsts, inner)
		c.stream(TLCRun{Module: "Lexer", Cfg: cfg, Workers: 4}, func(w *W, line string) {
			f := tlaStrings(line)
			if len(f) != 5 || f[0] != "L" {
				return
			}
			for i := 0; i < draws; i++ {
				w.lexBehaviour(f[1], atoiS(f[2]), atoiS(f[3]), tlaStrings(f[4]))
			}
		})
	}
	every := strings.Join(classes, ",")
	strs(n, every, every, 1)
	strs(n+2, `"zero","dig"`, every, 2) // numbers have the longest prefixes
	// long quoted lexemes, comments and numbers, over the characters that steer them
	strs(n+4, `"sq"`, `"sq","bs","al"`, 1)
	strs(n+4, `"bt","dq"`, `"bt","dq","bs","al"`, 1)
	strs(n+5, `"slash","minus"`, `"slash","star","minus","nl"`, 1)
	strs(n+5, `"zero","dig"`, `"dig","e","dot","minus"`, 1)
	strs(n+4, `"al","dol"`, `"al","dol","dig","dot"`, 1)
	// the lexemes of whole statements, set close together
	r := c.newRenderer()
	var tight []Style
	for _, s := range r.styles {
		if (s.A == "none" || s.B == "none") && s.Case == "upper" {
			tight = append(tight, s)
		}
	}
	all := allRoots()
	for _, src := range c.pick(
		[]Src{{Roots: []string{"ExprStmt"}, Budget: 3, Focus: "E1,E12,E13,E14", Wild: true, Draws: 12}, {Roots: []string{"ExprStmt", "TypeStmt", "Set"}, Budget: 2, Wild: true, Draws: 3}, {Roots: all, Budget: 1, Wild: true}, {Roots: all, Budget: 10, Sim: 4000, Wild: true}},
		[]Src{{Roots: []string{"ExprStmt"}, Budget: 4, Focus: "E1,E12,E13,E14", Wild: true, Draws: 12}, {Roots: []string{"ExprStmt"}, Budget: 3, Wild: true, Draws: 2}, {Roots: all, Budget: 2, Wild: true}, {Roots: all, Budget: 14, Sim: 200000, Wild: true}}) {
		c.sentences(src, func(w *W, s *Sentence) {
			sql, _, ok := r.render(w.rng, s, tight[w.rng.Intn(len(tight))])
			if !ok {
				c.count("unrenderable", 1)
				return
			}
			w.c.enter(w.id, sql)
			_, f := judgeTree(s, sql)
			w.c.leave(w.id)
			w.c.eval(1)
			c.report(f)
			w.some(sql)
		})
	}
}

// sameWords: the texts differ only in the case of words.
func sameWords(a, b string, words map[string]bool) bool {
	if len(a) != len(b) {
		return false
	}
	la, err := lexer.lex(a)
	if err != nil {
		return false
	}
	at := 0
	for _, l := range la {
		if a[at:l.Pos] != b[at:l.Pos] {
			return false
		}
		if x, y := a[l.Pos:l.End], b[l.Pos:l.End]; x != y && !(l.Kind == "ident" && strings.EqualFold(x, y) && words[strings.ToUpper(x)]) {
			return false
		}
		at = l.End
	}
	return a[at:] == b[at:]
}
