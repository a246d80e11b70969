#!/bin/bash
# usage: newseed.sh <id>   (in a scratch tree made by newseed: see below)
# Confirms a planted bug: /verif/seeded/<id>/{patch.diff,demo.sh,...}. The patch is
# applied in a scratch copy of /repo: it must build, pass the stable tests, and
# the demo must exit 0 without it and nonzero with it (3 times each).
id=$1; d=/verif/seeded/$id; w=$(mktemp -d /tmp/seed.XXXXXX)
trap 'rm -rf "$w"' EXIT
git -C /repo archive HEAD | tar -x -C "$w" || exit 1
cd "$w" || exit 1; git init -q . ; git add -A; git -c user.email=a@b -c user.name=x commit -qm x
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GO111MODULE=off GOFLAGS= GOWORK=off GOTOOLCHAIN=local
dd=$(mktemp -d /tmp/seedd.XXXXXX); cp -a $d/. $dd/; rm -f $dd/patch.diff $dd/meta.json
for k in 1 2 3; do bash $dd/demo.sh >/tmp/seed.out 2>&1 || { echo "$id: demo fails without the patch"; tail -5 /tmp/seed.out; exit 1; }; done
git apply $d/patch.diff || { echo "$id: patch does not apply"; exit 1; }
g=$(mktemp -d /tmp/seedg.XXXXXX); mkdir -p $g/src/github.com/vipally; ln -s "$w" $g/src/github.com/vipally/gx
cd $g/src/github.com/vipally/gx
ex="crypto/ecb crypto/rsa errors fs math/number/gp math/rand math/seq proto regable stl/gp strings sync/filelock tasks time"
pk=$(GOPATH=$g go list -e ./... | grep -vxF "$(for p in $ex; do echo github.com/vipally/gx/$p; done)")
GOPATH=$g go build $pk || { echo "$id: does not build"; exit 1; }
for f in $(git -C $w diff --name-only | xargs -n1 dirname | sort -u); do case $f in sync/filelock|stl/gp) continue;; esac;  GOPATH=$g go build ./$f || echo "$id: $f does not build"; done
GOPATH=$g go test -vet=off -count=1 ./convert ./debug ./factory ./reflect ./stl ./unsafe >/tmp/seed.t 2>&1 || { echo "$id: tests fail"; cat /tmp/seed.t; exit 1; }
cd $w
for k in 1 2 3; do if bash $dd/demo.sh >/tmp/seed.out 2>&1; then echo "$id: demo passes with the patch"; exit 1; fi; done
tail -2 /tmp/seed.out
rm -rf $dd $g
echo "$id: ok"
