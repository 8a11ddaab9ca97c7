#!/bin/bash
# Runs demo_test.go (and peer_test.go) inside the package under test. Exit 0: the property holds.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf -- "$T"' EXIT
R=$(pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
cat > "$T/overlay.json" <<J
{"Replace": {"$R/zz_demo_test.go": "$D/demo_test.go", "$R/zz_peer_test.go": "$D/peer_test.go"}}
J
timeout 280 go test -overlay "$T/overlay.json" -vet=off -count=1 -timeout 270s -run 'TestSeedDemo$' . > "$T/out" 2>&1
rc=$?
tail -40 "$T/out"
exit $rc
