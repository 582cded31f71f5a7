#!/bin/bash
# Builds the simulator from /repo's current working tree. Output: $OUT/simcheck
# Everything third-party comes from the module cache and the installed toolchain.
set -e
HERE=$(cd "$(dirname "$0")" && pwd)
SIM=$(dirname "$HERE")
VERIF=$(dirname "$SIM")
OUT=${SIM_OUT:-$VERIF/.build}
REPO=${SIM_REPO:-/repo}
export HOME=/root
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GONOSUMDB=* GONOSUMCHECK=1 CGO_ENABLED=1
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${SIM_GOCACHE:-$VERIF/.build/gocache}
export CGO_CFLAGS="-O0 -w"
mkdir -p "$OUT"
exec 9>"$OUT/lock"
flock 9
STAMP=$( (cat "$HERE/mkoverlay.py" "$SIM"/vfs/*; go version) | sha256sum | cut -d' ' -f1)
if [ "$(cat "$OUT/overlay.stamp" 2>/dev/null)" != "$STAMP" ]; then
  rm -f "$OUT/overlay.stamp"
  python3 "$HERE/mkoverlay.py" "$(go env GOROOT)" "$GOMODCACHE" "$OUT" "$HERE"
  echo "$STAMP" > "$OUT/overlay.stamp"
fi
# time zone of the simulated machine: fixed offset of 5:30 h
python3 - "$OUT/tz" <<'PY'
import struct,sys
b=b'TZif'+b'\0'*16+struct.pack('>6l',0,0,0,0,1,4)+struct.pack('>lBB',19800,0,0)+b'SIM\0'
open(sys.argv[1],'wb').write(b)
PY
# module file of the simulator: gopf's requirements, gopf itself from the working tree
{
  echo "module verifsim"
  echo "go 1.27"
  echo "require github.com/davidkleiven/gopf v0.0.0"
  sed -n '/^require (/,/^)/p' "$REPO/go.mod"
  echo "replace github.com/davidkleiven/gopf => $REPO"
  echo "replace github.com/mattn/go-sqlite3 => $OUT/mod/sqlite3"
  echo "replace github.com/spf13/cobra => $OUT/mod/cobra"
  echo "replace github.com/barnex/fftw => $OUT/mod/fftw"
} > "$OUT/go.mod"
cp "$REPO/go.sum" "$OUT/go.sum"
cd "$SIM"
# gopf's own code: a copy with scheduling points between statements and simulated
# threads. Should that copy not compile, the code is built as it is.
(cd instr && go build -o "$OUT/instrument" main.go)
if "$OUT/instrument" "$REPO" "$OUT/instr" "$OUT/overlay.json" "$OUT/overlay2.json" 2> "$OUT/instr.log" &&
   go build -modfile="$OUT/go.mod" -overlay="$OUT/overlay2.json" -ldflags=-checklinkname=0 -o "$OUT/simcheck" . 2>> "$OUT/instr.log"; then
  exit 0
fi
echo "build: without instrumentation (see $OUT/instr.log)" >&2
go build -modfile="$OUT/go.mod" -overlay="$OUT/overlay.json" -ldflags=-checklinkname=0 -o "$OUT/simcheck" .
