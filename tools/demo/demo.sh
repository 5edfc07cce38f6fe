#!/bin/bash
# run with cwd = the repository; exit 0 if the property's behaviour is there
D=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
T=$(mktemp -d)
{
  echo '{"Replace":{'
  echo "\"$R/zzdemo/lib_test.go\":\"$D/lib_test.go\","
  echo "\"$R/zzdemo/demo_test.go\":\"$D/demo_test.go\"}}"
} > "$T/ov.json"
GOWORK=off go test -c -vet=off -overlay "$T/ov.json" -o "$T/demo.test" ./zzdemo && cd "$T" && ./demo.test -test.timeout 120s
rc=$?
rm -rf "$T"
exit $rc
