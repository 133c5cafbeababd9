#!/usr/bin/env python3
"""Planted bugs. seed.py make SPEC.py... : writes /verif/seeded/<id>/ from a spec
(variables id, prop, file, edits [(old,new)], pkg, demo, needs, breaks) and
validates it; seed.py eval [ID...]: runs the property's check on each."""
import sys, os, subprocess, json, tempfile, shutil, glob, re, time
R='/repo'; S='/verif/seeded'
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
HEAD='''package vfilter

import (
	"context"
	"encoding/json"
	"fmt"
	"strings"
	"testing"
	"time"

	"github.com/Velocidex/ordereddict"
	"www.velocidex.com/golang/vfilter/arg_parser"
	"www.velocidex.com/golang/vfilter/types"
	"www.velocidex.com/golang/vfilter/utils"
)

var _ = strings.Join
var _ = time.Second
var _ = utils.ToInt64
var _ = ordereddict.NewDict
var _ types.Any
var _ = arg_parser.GetParser

func newScope() types.Scope { return NewScope() }

// ev evaluates one expression and renders its value.
func ev(expr string) string {
	scope := NewScope()
	vql, err := Parse("SELECT " + expr + " AS X FROM scope()")
	if err != nil { return "ERR " + err.Error() }
	for row := range vql.Eval(context.Background(), scope) {
		v, _ := scope.Associative(row, "X")
		if l, ok := v.(types.LazyExpr); ok { v = l.Reduce(context.Background()) }
		b, err := json.Marshal(v)
		if err != nil { return fmt.Sprintf("%v", v) }
		return string(b)
	}
	return "NO ROWS"
}

// rows evaluates statements and renders all rows.
func rows(q string) string {
	scope := NewScope()
	out := ""
	vqls, err := MultiParse(q)
	if err != nil { return "ERR " + err.Error() }
	for _, vql := range vqls {
		for row := range vql.Eval(context.Background(), scope) {
			b, _ := json.Marshal(MaterializedLazyRow(context.Background(), row, scope))
			out += string(b)
		}
	}
	return out
}

func want(t *testing.T, got, exp string) {
	t.Helper()
	if got != exp { t.Fatalf("got %s, expected %s", got, exp) }
}

func TestSeedDemo(t *testing.T) {
'''
DEMO='''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d); trap 'rm -rf "$tmp"' EXIT
. /opt/vp/env.sh
printf '{"Replace":{"/repo/%s":"%s/demo_test.go"}}' "@VIRT@" "$here" > "$tmp/ov.json"
cd /repo && timeout 200 go test -overlay "$tmp/ov.json" -vet=off -count=1 -timeout 60s -run '^TestSeedDemo$' ./@PKG@
'''
def clean(): sh('git -C /repo checkout -- . && git -C /repo clean -fdq')
def stable():
    o=tempfile.mktemp(); sh('bash /opt/vp/test.sh '+o)
    d=open(o).read() if os.path.exists(o) else '{}'
    b=json.load(open('/opt/vp/BASELINE.json'));
    try: j=json.loads(d)
    except Exception: return False,'unreadable'
    os.remove(o)
    need=b['stable']
    got=set(j.get('pass') or j.get('passed') or [])
    miss=[t for t in need if t not in got]
    return not miss, miss
def make(spec):
    g={}; exec(open(spec).read(), g)
    items=g.get('seeds') or [g]
    for s in items:
        d=f"{S}/{s['id']}"
        clean()
        for ed in s['edits']:
            f=ed[0] if len(ed)==3 else s['file']; old,new=ed[-2],ed[-1]
            p=f'{R}/{f}'; t=open(p).read()
            if t.count(old)!=1: print('BAD ', s['id'], f, 'has', t.count(old), 'of', old); break
            open(p,'w').write(t.replace(old,new))
        if t.count(old)!=1: clean(); continue
        patch=sh('git -C /repo diff').stdout
        os.makedirs(d,exist_ok=True)
        open(d+'/patch.diff','w').write(patch)
        pkg=s.get('pkg','')
        code=s['demo']
        if not code.lstrip().startswith('package'): code=HEAD+code+'\n}\n'
        open(d+'/demo_test.go','w').write(code)
        sh(f'/opt/veriftools/go1.25.14/bin/gofmt -w {d}/demo_test.go')
        virt=(pkg+'/' if pkg else '')+'zz_seed_demo_test.go'
        open(d+'/demo.sh','w').write(DEMO.replace('@VIRT@',virt).replace('@PKG@',pkg)); os.chmod(d+'/demo.sh',0o755)
        json.dump({'property':s['prop'],'needs':s['needs'],'what_it_breaks':s['breaks']},open(d+'/meta.json','w'),indent=1)
        b=sh('bash /opt/vp/build.sh'); ok,miss=stable() if b.returncode==0 else (False,b.stderr[-800:])
        r=sh(f'cd /repo && bash {d}/demo.sh'); clean()
        r0=sh(f'cd /repo && bash {d}/demo.sh')
        good = ok and r.returncode!=0 and r0.returncode==0
        print(('OK  ' if good else 'BAD '), s['id'], 'build',b.returncode,'stable',ok,miss if not ok else '', 'demo patched',r.returncode,'clean',r0.returncode)
        if not good: print((r0.stdout+r0.stderr)[-1500:], '\n--patched:\n', (r.stdout+r.stderr)[-700:])
        else: print('     ', [l for l in r.stdout.split('\n') if 'got' in l or 'panic' in l][:1])
def evaluate(ids):
    ids=ids or sorted(os.listdir(S))
    for i in ids:
        m=json.load(open(f'{S}/{i}/meta.json'))
        clean(); a=sh(f'git -C /repo apply {S}/{i}/patch.diff')
        if a.returncode: print(i,'DOES NOT APPLY',a.stderr); continue
        t=time.time(); r=sh(f"cd /verif && VERIF_SEED=1 ./check.sh {m['property']} quick"); clean()
        v=[l for l in r.stdout.split('\n') if l.startswith('VIOLATION') or l.startswith('failed:')]
        print(f"{i} {m['property']} exit {r.returncode} {time.time()-t:.0f}s", ' / '.join(v) if r.returncode==1 else 'MISSED '+r.stdout[-600:], flush=True)
if sys.argv[1]=='make':
    for s in sys.argv[2:]: make(s)
else: evaluate(sys.argv[2:])
