package main

import (
	"fmt"
	"github.com/AfterShip/clickhouse-sql-parser/parser"
	"math/rand"
	"os"
	"regexp"
	"sort"
	"strings"
	"sync"
)

// devModule: COVER=1 aims at every use of every production.
func devModule() string {
	if os.Getenv("COVER") != "" {
		return "SqlCover"
	}
	return "SqlMachine"
}

// dev: exploratory run used while growing the grammar.
func dev(args []string) {
	roots, budget, focus := args[0], args[1], args[2]
	cfg := machineCfg(strings.Split(roots, ","), budget, focus, os.Getenv("FROZEN"))
	var mu sync.Mutex
	bucket := map[string]int{}
	sample := map[string]string{}
	n := 0
	ch := make(chan []string, 1024)
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for tr := range ch {
				lex := &Lexicon{rng: rand.New(rand.NewSource(hash64(strings.Join(tr, " "), "1")))}
				s := instantiate(tr, lex)
				if s.Bad {
					continue
				}
				sql, _ := s.Render()
				var f *Finding
				e, f := judgeTree(s, sql)
				if f == nil {
					var txt string
					txt, f = judgeCanon(s, sql, e)
					if f == nil {
						f = judgeRound(s.Root, sql, txt, "formatted")
					}
				}
				mu.Lock()
				n++
				if f != nil {
					w := bucketOf(f)
					bucket[w]++
					if sample[w] == "" || len(sample[w]) > len(sql)+len(f.What)+12 {
						sample[w] = sql + "\n      " + f.What
					}
				}
				mu.Unlock()
			}
		}()
	}
	st, err := runTLC(TLCRun{Module: devModule(), Cfg: cfg, Line: func(l string) {
		if tr := traceOf(l); tr != nil {
			ch <- tr
		} else if strings.HasPrefix(l, `<<"LEX`) {
			lexer.add(tlaStrings(l))
		} else {
			fmt.Println(l)
		}
	}})
	close(ch)
	wg.Wait()
	_ = parser.Format
	fmt.Println(st, err, "sentences", n)
	var ks []string
	for k := range bucket {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return bucket[ks[i]] > bucket[ks[j]] })
	max := 25
	for i, k := range ks {
		if i >= max {
			fmt.Println("...", len(ks)-max, "more buckets")
			break
		}
		fmt.Printf("%5d %s\n", bucket[k], sample[k])
	}
	_ = os.Stdout
}

var reTyped = regexp.MustCompile("[a-zA-Z_$\"'`\\\\]*[0-9][^ ]*")
var reQuoted = regexp.MustCompile(`\\\\"[^"]*\\\\"`)

var reHex = regexp.MustCompile(`0x[0-9a-f]+\??|\[[0-9:]*\]`)
var reIdx = regexp.MustCompile(`\[\d+\]`)

// bucketOf names the class of a finding: parts that depend on lexemes and
// positions are dropped.
func bucketOf(f *Finding) string {
	w := f.What
	if i := strings.Index(w, "\n"); i >= 0 {
		w = w[:i]
	}
	switch f.Kind {
	case "start", "end", "range", "inverted", "cover", "siblings":
		return f.Kind + " " + strings.Fields(w)[0]
	case "panic":
		if i := strings.Index(w, " at "); i >= 0 {
			if j := strings.Index(w[i:], "("); j >= 0 {
				k := strings.Index(w[i+j+1:], "(")
				if k < 0 {
					k = 0
				}
				w = w[:i+j+1+k]
			}
		}
		w = reHex.ReplaceAllString(w, "")
	case "early", "got", "expected", "linecol", "caret":
		if i := strings.Index(w, ": \"line "); i >= 0 {
			m := strings.SplitN(w[i+8:], " ", 2)
			if len(m) == 2 {
				w = f.Kind + reQuoted.ReplaceAllString(strings.SplitN(m[1], `\n`, 2)[0], "_")
			}
		}
	case "tree", "round":
		if i := strings.Index(w, "parses to another tree: "); i >= 0 {
			w = w[i:]
		}
		if i := strings.Index(w, ": want"); i >= 0 {
			p := strings.Split(reIdx.ReplaceAllString(w[:i], ""), "/")
			if len(p) > 2 {
				p = p[len(p)-2:]
			}
			w = strings.Join(p, "/")
		} else if i := strings.Index(w, "does not parse: "); i >= 0 {
			w = reTyped.ReplaceAllString(w[i:], "_")
		}
	case "canon":
		if i := strings.Index(w, ": token "); i >= 0 {
			w = w[i+8:]
		}
		var fs []string
		for _, x := range strings.Fields(w) {
			if !strings.ContainsAny(x, "0123456789'\"`") {
				fs = append(fs, x)
			}
		}
		w = strings.Join(fs, " ")
	case "reject":
		w = reTyped.ReplaceAllString(w, "_")
	}
	return f.Kind + " " + w
}
