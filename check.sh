#!/bin/bash
# check.sh <property> [--replay file]: build the check against /repo's working
# tree and run it. VERIF_TIER (quick|thorough) and VERIF_SEED from the environment.
id=$1; shift
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
export VERIF_DIR=$here VERIF_TIER=${VERIF_TIER:-quick} VERIF_SEED=${VERIF_SEED:-1}
if [ "$1" = --replay ]; then
  eval "$(python3 - "$2" <<'PY'
import json,shlex,sys
r=json.load(open(sys.argv[1]))
print("export VERIF_CASE=%s VERIF_SEED=%s VERIF_TIER=%s" % (shlex.quote(r["case"]), int(r["seed"]), shlex.quote(r["tier"])))
PY
)" || exit 2
fi
cmd=$(echo "$id" | tr A-Z a-z)
scratch=$(mktemp -d /tmp/verif-build-XXXXXX) || exit 2
trap 'rm -rf "$scratch"' EXIT
cd "$here/harness" || exit 2
build() {
  if [ "$cmd" = c08 ]; then
    # race detector; the field library's assembly is replaced by its own pure Go
    # fallback, because the detector cannot see memory accesses of assembly
    src=$(go list -m -f '{{.Dir}}' github.com/consensys/gurvy) || return 1
    cp -r "$src" "$scratch/gurvy" && chmod -R u+w "$scratch/gurvy" || return 1
    for d in fr fp; do
      rm -f "$scratch/gurvy/bn256/$d/element_ops_amd64.go" "$scratch/gurvy/bn256/$d/element_ops_amd64.s"
      sed -i '/^\/\/ +build !amd64/d; /^\/\/go:build !amd64/d' "$scratch/gurvy/bn256/$d/element_ops_noasm.go"
    done
    cp go.mod go.sum "$scratch/" && echo "replace github.com/consensys/gurvy => $scratch/gurvy" >> "$scratch/go.mod"
    CGO_ENABLED=1 go build -race -modfile="$scratch/go.mod" -o "$scratch/$cmd" ./cmd/$cmd
  else
    CGO_ENABLED=0 go build -o "$scratch/$cmd" ./cmd/$cmd
  fi
}
if ! build; then
  echo "ERROR: the check $id does not build"
  exit 3
fi
TMPDIR=$scratch "$scratch/$cmd"
