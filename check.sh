#!/usr/bin/env bash
# bash check.sh <PROPERTY>        run the monitors of one property (VERIF_SEED, VERIF_TIER from the environment)
# bash check.sh replay <file>     re-run one recorded case
# bash check.sh build             build only
set -u
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export HOME="${HOME:-/root}" PATH="/usr/local/bin:/usr/bin:/bin:${PATH:-}"
export GOTOOLCHAIN=local GOSUMDB=off GOPROXY=off GOFLAGS=-mod=readonly GOWORK=off GO111MODULE=on
export GOPATH="${GOPATH:-/root/go}" GOCACHE="${GOCACHE:-/root/.cache/go-build}"
unset GODEBUG GORACE 2>/dev/null || true
mkdir -p "$here/bin" "$here/evidence"

build() { # $1: output, rest: flags
  local out="$1"; shift
  (cd "$here/harness" && go build "$@" -o "$out" ./cmd/qv) || { echo "build failed"; exit 2; }
}

case "${1:-}" in
  build)
    build "$here/bin/qv"
    CGO_ENABLED=1 build "$here/bin/qv-race" -race
    exit 0 ;;
  replay)
    if grep -q '"property": "C20"' "$2"; then
      CGO_ENABLED=1 build "$here/bin/qv-race" -race
      GORACE="halt_on_error=1 exitcode=66 atexit_sleep_ms=0" "$here/bin/qv-race" -root "$here" -replay "$2"
      rc=$?
      [ $rc = 66 ] && { echo "replay: VIOLATION data race (see the report above)"; rc=1; }
      exit $rc
    fi
    build "$here/bin/qv"
    exec "$here/bin/qv" -root "$here" -replay "$2" ;;
  C[0-9][0-9])
    prop="$1"; shift
    tier="${VERIF_TIER:-quick}"; seed="${VERIF_SEED:-1}"
    if [ "$prop" = C20 ]; then
      CGO_ENABLED=1 build "$here/bin/qv-race" -race
      export GORACE="halt_on_error=1 exitcode=66 history_size=3 atexit_sleep_ms=0"
      build "$here/bin/qv"
      exec "$here/bin/qv" -self "$here/bin/qv-race" -root "$here" -prop "$prop" -tier "$tier" -seed "$seed" "$@"
    fi
    build "$here/bin/qv"
    exec "$here/bin/qv" -root "$here" -prop "$prop" -tier "$tier" -seed "$seed" "$@" ;;
  *)
    echo "usage: check.sh C01..C20 | replay FILE | build"; exit 2 ;;
esac
