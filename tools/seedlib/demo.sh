#!/bin/bash
# Builds demo.go against the tree in the working directory and runs it in a
# scratch directory: exit 0 if the property holds for what it does.
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d /tmp/demo-XXXXXXXX)
trap 'rm -rf "$t"' EXIT
cat > "$t/overlay.json" <<J
{"Replace": {"$PWD/demo_of_a_bug/main.go": "$here/demo.go", "$PWD/demo_of_a_bug/lib.go": "$here/lib.go"}}
J
export BOOKLIT_ROOT=$PWD
go build -overlay "$t/overlay.json" -o "$t/demo" ./demo_of_a_bug || exit 3
mkdir "$t/work"
cd "$t/work" && TMPDIR=$t timeout 120 "$t/demo"
