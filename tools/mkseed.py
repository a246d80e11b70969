#!/usr/bin/env python3
# usage: mkseed.py id property file 'expr on s' needs breaks < demo.go   -> /verif/seeded/id
import sys, os, subprocess, json
id, prop, f, ex, needs, breaks = sys.argv[1:7]
d = '/verif/seeded/' + id; os.makedirs(d, exist_ok=True)
s = o = open('/repo/' + f).read(); s = eval(ex); assert s != o
open('/repo/' + f, 'w').write(s)
try:
    p = subprocess.run(['git', '-C', '/repo', 'diff'], capture_output=True, text=True).stdout
finally:
    subprocess.run(['git', '-C', '/repo', 'checkout', '--', '.'])
open(d + '/patch.diff', 'w').write(p)
json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + '/meta.json', 'w'), indent=1)
open(d + '/demo.go', 'w').write(sys.stdin.read())
open(d + '/demo.sh', 'w').write('''#!/bin/bash
# Run with the library's tree as the working directory.
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GO111MODULE=off GOFLAGS= GOWORK=off GOTOOLCHAIN=local GOPROXY=off
d=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d /tmp/demo.XXXXXX) || exit 99
trap 'rm -rf "$w"' EXIT
mkdir -p "$w/src/github.com/vipally" "$w/src/demo"
ln -s "$PWD" "$w/src/github.com/vipally/gx"
cp "$d/demo.go" "$w/src/demo/main.go"
export GOPATH=$w
cd "$w" || exit 99
go build -o "$w/demo" demo || exit 98
timeout 120 "$w/demo"
''')
