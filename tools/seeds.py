#!/usr/bin/env python3
"""Generates /verif/seeded/<id>/ from the definitions in seeds_def.py and confirms each.

  seeds.py gen [id...]      write patch.diff, demo.sh, main.go, meta.json (against /repo's HEAD)
  seeds.py confirm [id...]  build, stable tests and demo both ways, in a scratch copy
  seeds.py catch [id...]    apply to /repo, run the property's quick check, restore
"""
import json, os, subprocess, sys, tempfile, shutil, concurrent.futures as cf
HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.join(os.path.dirname(HERE), 'seeded')
sys.path.insert(0, HERE)
from seeds_def import SEEDS

DEMO = r'''#!/bin/bash
# exit 0: behaviour as specified; exit 1: broken
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
W=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'rm -rf "$W"' EXIT
cp "$here/main.go" "$W/main.go"
{ sed -e 's#^module .*#module demo#' /repo/go.mod
  printf 'require github.com/octarinesec/MAPL v0.0.0\nreplace github.com/octarinesec/MAPL => /repo\n'; } > "$W/go.mod"
cp /repo/go.sum "$W/go.sum"
cd "$W" && go build RACE -o "$W/demo" . || exit 3
"$W/demo"
'''
MAIN = r'''package main

import (
	"encoding/json"
	"fmt"
	"io"
	"log"
	"net"
	"os"
	"reflect"
	"strings"
	"sync"

	E "github.com/octarinesec/MAPL/MAPL_engine"
	"go.mongodb.org/mongo-driver/bson"
)

var _ = json.Marshal
var _ = reflect.DeepEqual
var _ = strings.Join
var _ sync.Mutex
var _ = bson.Marshal

const anyParts = `"sender": {"senderName": "*", "senderType": "*"}, "receiver": {"receiverName": "*", "receiverType": "*"}, "protocol": "*", "resource": {"resourceType": "*", "resourceName": "*"}, "operation": "*"`

// ruleC is a rule for every message with the given conditions (JSON)
func ruleC(cond, decision string) string {
	return `{"ruleID": "r", ` + anyParts + `, "conditions": ` + cond + `, "decision": "` + decision + `"}`
}
func rules(rs ...string) *E.Rules {
	r, err := E.YamlReadRulesFromString(`{"rules": [` + strings.Join(rs, ",\n") + `]}`)
	if err != nil {
		bad("load: %v", err)
	}
	return &r
}
func msg() *E.MessageAttributes {
	return &E.MessageAttributes{SourceService: "a", DestinationService: "b", SourceIp: "10.1.2.3", DestinationIp: "10.9.8.7", SourceNetIp: net.ParseIP("10.1.2.3"), DestinationNetIp: net.ParseIP("10.9.8.7"),
		RequestMethod: "GET", RequestPath: "/p", RequestHost: "h", DestinationPort: "8080", ContextProtocol: "HTTP", ContextType: "path"}
}
func docB(s string) *E.MessageAttributes {
	m := msg()
	b := []byte(s)
	m.RequestJsonRaw = &b
	return m
}
func docI(s string) *E.MessageAttributes {
	m := msg()
	var v interface{}
	if err := json.Unmarshal([]byte(s), &v); err != nil {
		panic(err)
	}
	m.RequestRawInterface = &v
	return m
}
func dec(m *E.MessageAttributes, r *E.Rules) int { d, _, _, _, _, _, _ := E.Check(m, r); return d }
func bad(f string, a ...interface{}) {
	fmt.Printf(f+"\n", a...)
	os.Exit(1)
}
func want(what string, got, exp interface{}) {
	if !reflect.DeepEqual(got, exp) {
		bad("%s: got %v, expected %v", what, got, exp)
	}
}
func main() {
	log.SetOutput(io.Discard)
BODY
	fmt.Println("ok")
}
'''

def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)

def scratch():
    d = tempfile.mkdtemp(prefix='seed', dir='/tmp')
    sh(f'git -C /repo archive HEAD | tar x -C {d}')
    return d

def apply_edits(d, s):
    for f, a, b in s['edits']:
        p = os.path.join(d, f)
        t = open(p).read()
        n = t.count(a)
        if n != s.get('count', 1):
            raise SystemExit(f"{s['id']}: {n} occurrences in {f}: {a!r}")
        open(p, 'w').write(t.replace(a, b))

def gen(s):
    d = scratch()
    try:
        sh('git init -q . && git add -A && git -c user.email=a@b -c user.name=a commit -qm x', cwd=d)
        apply_edits(d, s)
        p = sh('git diff', cwd=d).stdout
        o = os.path.join(OUT, s['id'])
        os.makedirs(o, exist_ok=True)
        open(o+'/patch.diff', 'w').write(p)
        open(o+'/demo.sh', 'w').write(DEMO.replace('RACE', '-race' if s.get('race') else ''))
        os.chmod(o+'/demo.sh', 0o755)
        open(o+'/main.go', 'w').write(MAIN.replace('BODY', s['demo'].strip('\n')))
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(o+'/meta.json', 'w'), indent=1)
        open(o+'/meta.json', 'a').write('\n')
    finally:
        shutil.rmtree(d)

def demo_in(d, s):
    o = os.path.join(OUT, s['id'])
    w = tempfile.mkdtemp(prefix='sd', dir='/tmp')
    try:
        for f in ('main.go',):
            shutil.copy(os.path.join(o, f), w)
        t = open(o+'/demo.sh').read().replace('/repo/', d+'/').replace('=> /repo', '=> '+d)
        open(w+'/demo.sh', 'w').write(t)
        r = sh(f'bash {w}/demo.sh', timeout=280)
        return r.returncode, (r.stdout+r.stderr)[-400:]
    finally:
        shutil.rmtree(w)

def confirm(s):
    d = scratch()
    msgs = []
    try:
        rc, o = demo_in(d, s)
        if rc != 0: msgs.append(f'demo on clean tree: {rc} {o}')
        p = os.path.join(OUT, s['id'], 'patch.diff')
        r = sh(f'git init -q . ; git apply --check {p} && git apply {p}', cwd=d)
        if r.returncode: msgs.append('patch does not apply '+r.stderr)
        rc, o = demo_in(d, s)
        if rc == 0 or rc == 3: msgs.append(f'demo with patch: {rc} {o}')
        r = sh(f'. /opt/vp/env.sh; cd {d} && go build ./MAPL_engine && go test -json -vet=off -count=1 ./MAPL_engine', timeout=900)
        ok = set()
        for l in r.stdout.splitlines():
            try: e = json.loads(l)
            except Exception: continue
            if e.get('Action') == 'pass' and e.get('Test'): ok.add('github.com/octarinesec/MAPL/MAPL_engine/'+e['Test'])
        miss = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])-ok
        if miss: msgs.append('tests fail: %s' % [m.split('/')[-1] for m in sorted(miss)][:4] + r.stderr[-300:])
    finally:
        shutil.rmtree(d)
    return s['id'], msgs

def catch(s):
    p = os.path.join(OUT, s['id'], 'patch.diff')
    r = sh(f'git -C /repo apply {p}')
    if r.returncode: return s['id'], 'no apply'
    try:
        r = sh(f'VERIF_SEED=1 VERIF_TIER=quick bash {os.path.dirname(HERE)}/check.sh {s["property"]} quick')
        hit = r.returncode == 1 and f'VIOLATION property={s["property"]}' in r.stdout
        return s['id'], ('caught' if hit else f'MISSED rc={r.returncode}') + ' | ' + ' / '.join(r.stdout.strip().splitlines()[-8:])[:500] + r.stderr[-200:]
    finally:
        sh('git -C /repo checkout -- .')

def main():
    cmd, ids = sys.argv[1], sys.argv[2:]
    ss = [s for s in SEEDS if not ids or s['id'] in ids or s['property'] in ids]
    if cmd == 'gen':
        for s in ss: gen(s)
    elif cmd == 'confirm':
        with cf.ThreadPoolExecutor(3) as ex:
            for i, m in ex.map(confirm, ss): print(i, 'OK' if not m else m, flush=True)
    elif cmd == 'catch':
        for s in ss: print(*catch(s), flush=True)
main()
