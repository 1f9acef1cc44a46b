#!/bin/bash
# checks that the framework builds offline; every check builds what it needs itself
set -e
cd "$(dirname "$0")/gomc/instr"
GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off go build -o /dev/null .
python3 -c 'import sys; sys.dont_write_bytecode=True; sys.path.insert(0,"../../harness"); import checks; print(len(checks.CHECKS), "checks")'
