#!/bin/bash
# builds the analyzer from /verif/analyzer (offline, vendored dependencies) and prints the path of the binary
here="$(cd "$(dirname "$0")" && pwd)"
for g in /opt/veriftools/go1.27.3 /opt/veriftools/go1.26.10 "$(go env GOROOT 2>/dev/null)"; do
  [ -x "$g/bin/go" ] && { export PATH="$g/bin:$PATH"; break; }
done
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=vendor GONOSUMDB='*' GOWORK=off CGO_ENABLED=0
out="$here/.build/psdverif"
if [ -x "$out" ] && [ -z "$(find "$here/analyzer" -newer "$out" -print -quit)" ]; then echo "$out"; exit 0; fi
mkdir -p "$here/.build" 2>/dev/null
tmp=""
if ! [ -w "$here/.build" ]; then tmp="$(mktemp -d)"; out="$tmp/psdverif"; fi
cache="$(go env GOCACHE 2>/dev/null)"
if ! mkdir -p "$cache" 2>/dev/null || ! [ -w "$cache" ]; then export GOCACHE="$(mktemp -d)"; fi
(cd "$here/analyzer" && go build -trimpath -o "$out.$$" . && mv "$out.$$" "$out") >&2 || exit 1
echo "$out"
