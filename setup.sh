#!/bin/bash
# warms the build of the verifier; the checks build it again themselves
cd "$(dirname "$0")" || exit 1
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
cd engine && GOWORK=off go build -mod=vendor -o /dev/null .
