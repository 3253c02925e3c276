#!/bin/bash
# seed.sh NAME PROPERTY PKG: the working tree of ${SEEDWT:-/tmp/seedwt} holds the change, /tmp/seed_demo_test.go the demonstration,
# $NEEDS and $BREAKS the texts.  Confirms everything and files it under /verif/seeded/NAME.
set -e
name=$1; prop=$2; pkg=$3
d=/verif/seeded/$name; mkdir -p $d
git -C ${SEEDWT:-/tmp/seedwt} diff > $d/patch.diff
cp /tmp/seed_demo_test.go $d/demo_test.go.txt
cat > $d/demo.sh <<EOF
#!/bin/bash
# runs the demonstration as an in-package test of ./$pkg through an overlay
d=\$(cd "\$(dirname "\$0")" && pwd)
t=\$(mktemp -d); trap 'rm -rf "\$t"' EXIT
cp "\$d/demo_test.go.txt" "\$t/zz_demo_test.go"
echo "{\"Replace\":{\"\$PWD/$pkg/zz_demo_test.go\":\"\$t/zz_demo_test.go\"}}" > "\$t/o.json"
GOPROXY=off GOFLAGS=-mod=mod timeout 200 go test -vet=off -count=1 -timeout 100s -overlay "\$t/o.json" -run '^TestZZDemo' ./$pkg
EOF
python3 - <<EOF
import json
json.dump(dict(property="$prop",needs="""$NEEDS""",what_it_breaks="""$BREAKS"""),open("$d/meta.json","w"),indent=1)
EOF
cd ${SEEDWT:-/tmp/seedwt} && go build ./... && GOFLAGS=-mod=mod go test -vet=off -count=1 ./... > /tmp/seedtest.log 2>&1 || { echo "EXISTING TESTS FAIL"; grep -E "FAIL|---" /tmp/seedtest.log | head; exit 1; }
cd /repo && bash $d/demo.sh > /tmp/seed_ok.log 2>&1 || { echo "DEMO FAILS ON CLEAN TREE"; tail -20 /tmp/seed_ok.log; exit 1; }
cd ${SEEDWT:-/tmp/seedwt} && if bash $d/demo.sh > /tmp/seed_bad.log 2>&1; then echo "DEMO PASSES WITH PATCH"; exit 1; fi
git -C ${SEEDWT:-/tmp/seedwt} checkout -q -- .
echo "$name ok: $(grep -m1 -E 'demo_test.go|panic' /tmp/seed_bad.log)"
