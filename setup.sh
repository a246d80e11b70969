#!/bin/bash
# Builds the framework once, from the committed files, offline; warms the build cache.
. "$(dirname "$0")/env.sh"
work=$(mktemp -d /tmp/gxsetup.XXXXXX) || exit 3
trap 'rm -rf "$work"' EXIT
cd "$VERIF_DIR" && go build -trimpath -o "$work/gxcheck" gxsim/cmd/gxcheck || exit 3
go build -race -trimpath gxsim/core gxsim/simrt gxsim/simsync gxsim/simatomic gxsim/simtime gxsim/simos gxsim/simrand || exit 3
python3 -c "import json; json.load(open('MANIFEST.json')); [json.loads(l) for l in open('properties.jsonl')]" || exit 3
