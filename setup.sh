#!/bin/bash
# Warms the build cache; every check builds for itself all the same.
cd "$(dirname "$0")/harness" || exit 1
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOSUMDB=off GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
t=$(mktemp -d) || exit 1
for p in */; do
	p=${p%/}
	ls "$p"/*_test.go >/dev/null 2>&1 || continue
	go test -c -vet=off -o "$t/$p.test" "./$p" || { rm -rf "$t"; exit 1; }
done
rm -rf "$t"
