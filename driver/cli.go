package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"strings"
	"sync/atomic"
	"time"

	"github.com/AfterShip/clickhouse-sql-parser/parser"
)

func init() { checks["P18"] = checkP18 }

// The command line machine (Cli.tla) says for every argument list which text
// is processed, in which form it is printed, where, and with which status.
// What the form looks like for a text is computed with the library.

type cliRun struct {
	out, err string
	code     int
}

func (c *Ctx) runCli(args []string) (cliRun, error) {
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, os.Getenv("VDRV_CLI"), args...)
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	err := cmd.Run()
	if ctx.Err() != nil {
		return cliRun{}, fmt.Errorf("no end after 60 s")
	}
	if _, isExit := err.(*exec.ExitError); err != nil && !isExit {
		return cliRun{}, err
	}
	return cliRun{out.String(), errb.String(), cmd.ProcessState.ExitCode()}, nil
}

func sameJSON(a, b string) bool {
	if a == b {
		return true
	}
	dec := func(s string) (v interface{}, ok bool) {
		d := json.NewDecoder(strings.NewReader(s))
		d.UseNumber()
		if d.Decode(&v) != nil {
			return nil, false
		}
		return v, !d.More()
	}
	x, ok1 := dec(a)
	y, ok2 := dec(b)
	return ok1 && ok2 && reflect.DeepEqual(x, y)
}

// libraryText is what the tool must print for a text.
func libraryText(sql, form string) (string, error) {
	stmts, err := parser.NewParser(sql).ParseStmts()
	if err != nil {
		return "", err
	}
	if form == "json" {
		b, err := json.MarshalIndent(stmts, "", "  ")
		return string(b) + "\n", err
	}
	var b strings.Builder
	for _, s := range stmts {
		if form == "beautify" {
			f := parser.NewFormatter().WithBeautify()
			f.WriteExpr(s)
			b.WriteString(f.String())
		} else {
			b.WriteString(parser.Format(s))
		}
		b.WriteString("\n")
	}
	return b.String(), nil
}

func checkP18(c *Ctx) {
	if os.Getenv("VDRV_CLI") == "" {
		fatal("VDRV_CLI is not set")
	}
	maxArgs, sim, draws := 3, 6000, 5
	if !c.Quick {
		maxArgs, sim, draws = 4, 60000, 3
	}
	good, bad := c.pool(Src{Roots: allRoots(), Budget: 6, Sim: sim, Wild: true})
	more, _ := c.pool(Src{Roots: allRoots(), Budget: 1, Wild: true})
	good = append(good, more...)
	c.count("statements", int64(len(good)))
	dir, err := os.MkdirTemp("", "vcli")
	if err != nil {
		fatal("%v", err)
	}
	defer os.RemoveAll(dir)
	var fileNo int64

	pick := func(rng *rand.Rand, kind string, file bool) string {
		for {
			var s string
			switch kind {
			case "good":
				s = good[rng.Intn(len(good))].sql + []string{"", ";", "\n", " ;\n"}[rng.Intn(4)]
			case "many":
				n := 2 + rng.Intn(5)
				if rng.Intn(40) == 0 {
					n = 1500 // well beyond any buffer
				}
				if !file {
					n = min(n, 20)
				}
				var b strings.Builder
				for i := 0; i < n; i++ {
					b.WriteString(good[rng.Intn(len(good))].sql)
					b.WriteString([]string{";", " ; ", ";\n", ";;\r\n", "\n;-- x;\n"}[rng.Intn(5)])
				}
				s = b.String()
			case "empty":
				s = []string{"", " ", ";", "\n;; ", "/* x */", " -- c\n"}[rng.Intn(6)]
			case "bad":
				s = bad[rng.Intn(len(bad))].sql
				if rng.Intn(3) == 0 {
					s = good[rng.Intn(len(good))].sql + ";\n" + s
				}
			}
			if file && rng.Intn(8) == 0 && kind != "bad" {
				s = "-- first line\n" + s
			}
			if file || (!strings.HasPrefix(s, "-") && !strings.Contains(s, "\x00")) {
				return s
			}
		}
	}

	c.stream(TLCRun{Module: "Cli", Cfg: fmt.Sprintf("SPECIFICATION Spec\nCONSTANT MaxArgs = %d\nINVARIANTS OneStream FailsLoudly Emit\nCHECK_DEADLOCK FALSE\n", maxArgs)}, func(w *W, line string) {
		f := tlaStrings(line)
		if len(f) != 6 || f[0] != "C" {
			return
		}
		w.rng = rand.New(rand.NewSource(hash64(f[1], fmt.Sprint(c.Seed))))
		n := 1
		if f[3] == "json" || f[3] == "format" || f[3] == "beautify" || f[4] == "parse error" {
			n = draws
		}
		for i := 0; i < n; i++ {
			w.cliOracle(tlaStrings(f[1]), f[3], f[4], int(atoi(f[5])), dir, &fileNo, pick)
		}
	})
}

func (w *W) cliOracle(seq []string, stdout, stderr string, code int, dir string, fileNo *int64, pick func(*rand.Rand, string, bool) string) {
	atomic.AddInt64(&w.c.traces, 1)
	var args, made []string
	var fileText, lastText string
	scanning := true
	for _, a := range seq {
		switch {
		case strings.HasPrefix(a, "f:"):
			kind := a[2:]
			path := ""
			switch kind {
			case "":
			case "missing":
				path = filepath.Join(dir, "no-such-file")
				if w.rng.Intn(2) == 0 {
					path = dir // not a file
				}
			default:
				path = filepath.Join(dir, fmt.Sprintf("in-%d.sql", atomic.AddInt64(fileNo, 1)))
				text := pick(w.rng, kind, true)
				if err := os.WriteFile(path, []byte(text), 0o600); err != nil {
					fatal("%v", err)
				}
				made = append(made, path)
				if scanning {
					fileText = text
				}
			}
			if scanning && path != "" && w.rng.Intn(3) == 0 {
				args = append(args, "-f="+path)
			} else {
				args = append(args, "-f", path)
			}
			lastText = path
		case a == "good" || a == "many" || a == "empty" || a == "bad":
			lastText = pick(w.rng, a, false)
			args = append(args, lastText)
			scanning = false
		default:
			args = append(args, a)
			if a == "--" || a == "-" {
				scanning = false
			}
		}
	}
	text := lastText
	if useFile(seq) {
		text = fileText
	}
	for _, p := range made {
		defer os.Remove(p)
	}
	show := fmt.Sprintf("%q", args)
	if useFile(seq) {
		show += " file: " + text
	}
	w.some(show)
	got, err := w.c.runCli(args)
	w.c.eval(1)
	report := func(kind, what string) {
		w.c.report(&Finding{kind, show, what})
	}
	if err != nil {
		report("run", err.Error())
		return
	}
	if got.code != code {
		report("status", fmt.Sprintf("exit status %d, want %d; stderr %s", got.code, code, oneLine(got.err)))
		return
	}
	switch stdout {
	case "none":
		if got.out != "" {
			report("stdout", "prints although it fails: "+oneLine(got.out))
		}
	case "help":
		if !strings.Contains(got.out, "Usage") {
			report("help", "no help: "+oneLine(got.out))
		}
	case "version":
		if strings.TrimSpace(got.out) == "" || strings.Contains(got.out, "Usage") {
			report("version", "no version: "+oneLine(got.out))
		}
	default:
		want, err := libraryText(text, stdout)
		if err != nil {
			report("accept", "the library rejects the text: "+err.Error())
		} else if got.out != want && !(stdout == "json" && sameJSON(got.out, want)) {
			report(stdout, "prints "+apart(got.out, want)+", the library gives "+apart(want, got.out))
		}
	}
	switch stderr {
	case "none":
		if got.err != "" {
			report("stderr", "complains: "+oneLine(got.err))
		}
	case "parse error":
		_, err := libraryText(text, "json")
		if err == nil {
			report("reject", "the library accepts the text; stderr "+oneLine(got.err))
		} else if !strings.Contains(got.err, err.Error()) {
			report("message", "stderr "+oneLine(got.err)+" does not hold "+oneLine(err.Error()))
		}
	default:
		if strings.TrimSpace(got.err) == "" {
			report("silent", "fails without a message")
		}
	}
}

// useFile: a file was named by an option.
func useFile(seq []string) bool {
	file := false
	for _, a := range seq {
		switch {
		case strings.HasPrefix(a, "f:"):
			file = a != "f:"
		case a == "good" || a == "many" || a == "empty" || a == "bad" || a == "-" || a == "--" || a == "-unknown" || a == "-f":
			return file
		}
	}
	return file
}

// apart shows where a differs from b.
func apart(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	lo, hi := max(0, i-30), min(len(a), i+60)
	return fmt.Sprintf("%q", a[lo:hi])
}
