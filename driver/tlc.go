package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"time"
)

// TLCRun describes one run of the model checker.
type TLCRun struct {
	Module   string
	Cfg      string // configuration text
	Simulate int    // number of behaviours; 0 = exhaustive
	Depth    int
	Seed     int64
	Workers  int
	MaxTime  time.Duration
	Line     func(string) // receives every line starting with <<
}

// TLCStats is what a run covered.
type TLCStats struct {
	Module     string  `json:"module"`
	Generated  int64   `json:"states_generated"`
	Distinct   int64   `json:"distinct_states"`
	Depth      int64   `json:"depth"`
	Behaviours int64   `json:"behaviours"`
	Mode       string  `json:"mode"`
	Wall       float64 `json:"wall_s"`
	TimedOut   bool    `json:"time_limit_reached,omitempty"`
}

var reStates = regexp.MustCompile(`([\d,]+) states generated(?: \([^)]*\))?,? ?([\d,]+)? ?distinct states found`)
var reDepth = regexp.MustCompile(`depth of the complete state graph search is (\d+)`)
var reSim = regexp.MustCompile(`Progress: ([\d,]+) states checked, ([\d,]+) traces generated`)
var reSimEnd = regexp.MustCompile(`The number of states generated: ([\d,]+)`)

func atoi(s string) int64 {
	n, _ := strconv.ParseInt(strings.ReplaceAll(s, ",", ""), 10, 64)
	return n
}

func runTLC(r TLCRun) (TLCStats, error) {
	t0 := time.Now()
	st := TLCStats{Module: r.Module, Mode: "exhaustive"}
	dir, err := os.MkdirTemp("", "vtlc")
	if err != nil {
		return st, err
	}
	defer os.RemoveAll(dir)
	specs, _ := filepath.Glob(filepath.Join(specDir, "*.tla"))
	for _, s := range specs {
		b, err := os.ReadFile(s)
		if err != nil {
			return st, err
		}
		if err := os.WriteFile(filepath.Join(dir, filepath.Base(s)), b, 0o644); err != nil {
			return st, err
		}
	}
	if err := os.WriteFile(filepath.Join(dir, "M.cfg"), []byte(r.Cfg), 0o644); err != nil {
		return st, err
	}
	w := r.Workers
	if w == 0 {
		w = 6
	}
	jars, _ := filepath.Glob("/opt/veriftools/tla/*.jar")
	args := []string{"-Djava.io.tmpdir=" + dir, "-Xss64m", "-Xmx8g", "-XX:+UseParallelGC", "-cp", strings.Join(jars, ":"), "tlc2.TLC",
		"-workers", fmt.Sprint(w), "-nowarning", "-noGenerateSpecTE", "-deadlock", "-metadir", filepath.Join(dir, "meta"), "-config", "M.cfg"}
	if r.Simulate > 0 {
		st.Mode = "simulation"
		args = append(args, "-simulate", fmt.Sprintf("num=%d", r.Simulate), "-depth", fmt.Sprint(r.Depth), "-seed", fmt.Sprint(r.Seed))
	}
	args = append(args, r.Module+".tla")
	cmd := exec.Command("java", args...)
	cmd.Dir = dir
	pr, pw := io.Pipe()
	cmd.Stdout, cmd.Stderr = pw, pw
	if err := cmd.Start(); err != nil {
		return st, err
	}
	done := make(chan error, 1)
	go func() { e := cmd.Wait(); pw.Close(); done <- e }()
	var timer *time.Timer
	timed := false
	if r.MaxTime > 0 {
		timer = time.AfterFunc(r.MaxTime, func() { timed = true; cmd.Process.Kill() })
	}
	sc := bufio.NewReaderSize(pr, 1<<20)
	var tail []string
	ok, failed := false, false
	for {
		line, err := sc.ReadString('\n')
		line = strings.TrimRight(line, "\r\n")
		if err != nil && strings.HasPrefix(line, "<<") {
			// cut off
		} else if strings.HasPrefix(line, "<<") {
			if r.Line != nil {
				r.Line(line)
			}
		} else if line != "" {
			tail = append(tail, line)
			if len(tail) > 60 {
				tail = tail[len(tail)-60:]
			}
			if m := reStates.FindStringSubmatch(line); m != nil {
				st.Generated, st.Distinct = atoi(m[1]), atoi(m[2])
			}
			if m := reDepth.FindStringSubmatch(line); m != nil {
				st.Depth = atoi(m[1])
			}
			if m := reSim.FindStringSubmatch(line); m != nil {
				st.Generated, st.Behaviours = atoi(m[1]), atoi(m[2])
			}
			if m := reSimEnd.FindStringSubmatch(line); m != nil {
				st.Generated = atoi(m[1])
			}
			if strings.Contains(line, "No error has been found") || strings.HasPrefix(line, "Finished in") {
				ok = true
			}
			if strings.HasPrefix(line, "Error:") {
				failed = true
			}
		}
		if err != nil {
			break
		}
	}
	werr := <-done
	if timer != nil {
		timer.Stop()
	}
	st.Wall = time.Since(t0).Seconds()
	st.TimedOut = timed
	if timed {
		return st, nil
	}
	if failed || !ok {
		return st, fmt.Errorf("TLC failed on %s (%v):\n%s", r.Module, werr, strings.Join(tail, "\n"))
	}
	return st, nil
}

// tlaStrings extracts the string elements of a printed TLA+ value.
func tlaStrings(line string) []string {
	var out []string
	for i := 0; i < len(line); i++ {
		if line[i] != '"' {
			continue
		}
		var b strings.Builder
		i++
		for i < len(line) && line[i] != '"' {
			if line[i] == '\\' && i+1 < len(line) {
				i++
			}
			b.WriteByte(line[i])
			i++
		}
		out = append(out, b.String())
	}
	return out
}

// traceOf decodes <<"T", "<<\"a\", \"b\">>">>.
func traceOf(line string) []string {
	s := tlaStrings(line)
	if len(s) < 2 || s[0] != "T" {
		return nil
	}
	return tlaStrings(s[1])
}
