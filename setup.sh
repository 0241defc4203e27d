#!/bin/bash
# Warms the build cache for every workload (checks rebuild from /repo by themselves).
export PATH=/opt/veriftools/go1.24.13/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOSUMDB=off CGO_ENABLED=1
cd /verif/harness || exit 1
mkdir -p /verif/evidence
go build ./mon || exit 1
exit 0
