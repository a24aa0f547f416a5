import os,subprocess,json,shutil,sys
WT='/tmp/seed/wt'
HEAD='''package main

import (
	"errors"
	"fmt"
	"os"
	"strings"
	"time"

	"github.com/AfterShip/clickhouse-sql-parser/parser"
)

var _ = errors.As
var _ = strings.Repeat
var _ = time.Now

func fail(f string, a ...any) { fmt.Printf(f+"\\n", a...); os.Exit(1) }

func parse(sql string) []parser.Expr {
	s, err := parser.NewParser(sql).ParseStmts()
	if err != nil {
		fail("%q: %v", sql, err)
	}
	return s
}

func rejected(sql string) *parser.ParseError {
	_, err := parser.NewParser(sql).ParseStmts()
	if err == nil {
		fail("%q is accepted", sql)
	}
	var pe *parser.ParseError
	if !errors.As(err, &pe) {
		fail("%q: error without structure: %v", sql, err)
	}
	return pe
}

func format(sql string) string {
	var out []string
	for _, e := range parse(sql) {
		out = append(out, parser.Format(e))
	}
	return strings.Join(out, "; ")
}

func pretty(sql string) string {
	var out []string
	for _, e := range parse(sql) {
		f := parser.NewFormatter().WithBeautify()
		f.WriteExpr(e)
		out = append(out, f.String())
	}
	return strings.Join(out, "; ")
}

func eq(want, got any) {
	if fmt.Sprint(want) != fmt.Sprint(got) {
		fail("want %v\\ngot  %v", want, got)
	}
}

func main() {
%s
}
'''
DEMO='''#!/bin/bash
# exit 0 if the behaviour is right
set -u
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
d=$(mktemp -d) || exit 99
trap 'rm -rf "$d"' EXIT
cp "$(dirname "$0")/main.go" "$d/main.go"
printf 'module demo\\n\\ngo 1.21\\n\\nrequire github.com/AfterShip/clickhouse-sql-parser v0.0.0\\n\\nreplace github.com/AfterShip/clickhouse-sql-parser => %s\\n' "$PWD" > "$d/go.mod"
cd "$d" || exit 99
GOFLAGS=-mod=mod go build %s -o demo . || exit 99
timeout 120 ./demo
'''
def sh(c,cwd=None,t=900):
    r=subprocess.run(['bash','-c','. /opt/vp/env.sh; '+c],cwd=cwd,capture_output=True,text=True,timeout=t)
    return r.returncode,r.stdout+r.stderr
def bug(id,prop,needs,what,edits,body,checks=None,race=False,raw=None,demo=None):
    d='/verif/seeded/'+id
    if os.path.exists(d) and '-f' not in sys.argv: print(id,'exists'); return
    only=[a for a in sys.argv[1:] if not a.startswith('-')]
    if only and id not in only: return
    if os.path.exists(WT): shutil.rmtree(WT)
    sh(f'cp -a /repo {WT}')
    for f,old,new in edits:
        p=f'{WT}/{f}'; s=open(p).read()
        if s.count(old)!=1: print(id,'EDIT FAIL',f,s.count(old),old[:80]); return
        open(p,'w').write(s.replace(old,new))
    rc,o=sh('go build ./... && go test -vet=off ./... 2>&1 | tail -30 && go test -vet=off ./parser -compatible 2>&1 | tail -30',WT)
    if rc or 'FAIL' in o: print(id,'TESTS',o[-1500:]); return
    rc,diff=sh('git diff',WT)
    os.makedirs(d,exist_ok=True)
    open(d+'/patch.diff','w').write(diff)
    if body is None: body='	fail("unused")'
    open(d+'/main.go','w').write(raw if raw else HEAD.replace('%s\n}','@@BODY@@\n}') .replace('@@BODY@@',body))
    sh('gofmt -w '+d+'/main.go')
    open(d+'/demo.sh','w').write(DEMO.replace('%s','%%s',1).replace('%%s','%s',1) % ('%s','-race' if race else '') if False else DEMO.replace('-o demo','-race -o demo') .replace('build %s','build') if race else DEMO.replace('build %s -o','build -o'))
    if demo: open(d+'/demo.sh','w').write(demo); os.remove(d+'/main.go')
    json.dump({"property":prop,"needs":needs,"what_it_breaks":what},open(d+'/meta.json','w'),indent=1)
    a,oa=sh(f'bash {d}/demo.sh','/repo'); b,ob=sh(f'bash {d}/demo.sh',WT)
    if a!=0 or b==0 or b==99: print(id,'DEMO',a,b,oa[-500:],ob[-500:]); shutil.rmtree(d); return
    print(id,'planted;',ob.strip()[:200].replace('\n',' | '))
    run(id,checks or [prop],WT)
def run(id,checks,wt,tier='quick'):
    sh(f'rm -rf /tmp/seed/drv; mkdir -p /tmp/seed/drv /tmp/seed/vd; ln -sfn /verif/spec /tmp/seed/vd/spec; cp /verif/known_findings.jsonl /tmp/seed/vd/; cp /verif/driver/*.go /verif/driver/go.* /tmp/seed/drv/; sed -i "s#=> /repo#=> {wt}#" /tmp/seed/drv/go.mod; cd {wt} && go build -o /tmp/seed/cli .')
    for c in checks:
        rc,o=sh(f'cd /tmp/seed/drv && go build {"-race" if c=="P14" else ""} -o /tmp/seed/vdrv . && VERIF_SEED=1 VERIF_DIR=/tmp/seed/vd VDRV_CLI=/tmp/seed/cli timeout 890 /tmp/seed/vdrv check {c} {tier}')
        vs=[l for l in o.splitlines() if 'input:' in l][:1]
        print('   ',c,'CAUGHT' if rc==1 else f'MISSED rc={rc}',' '.join(vs)[:300], o.strip().splitlines()[-1][:150] if o.strip() else '',flush=True)
