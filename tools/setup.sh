#!/bin/bash
# Verifies that the tools are there and warms the build cache; the checks build what they need themselves.
cd "$(dirname "$0")/../harness" && . /opt/vp/env.sh && go vet ./... >/dev/null 2>&1
java -cp /opt/veriftools/tla/tla2tools.jar tlc2.TLC -h >/dev/null 2>&1
exit 0
