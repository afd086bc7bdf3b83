#!/bin/bash
# Nothing to prebuild: each check compiles what it needs from /repo's working tree. Only confirm the tools are there.
set -e
export PATH=/opt/veriftools/go1.25.14/bin:$PATH GOTOOLCHAIN=local
go version
python3 --version
mkdir -p "$(dirname "$0")/evidence" "$(dirname "$0")/replays"
