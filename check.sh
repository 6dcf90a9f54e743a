#!/bin/bash
# check.sh PROP quick|thorough   run one check
# check.sh replay FILE           replay a violation
# check.sh selftest [N]          determinism self-test
# check.sh setup                 warm the build
set -u
root="$(cd "$(dirname "$0")" && pwd)"
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOSUMDB=off
export VERIF_ROOT="$root"
mkdir -p "$root/.work" || exit 2
bin="$root/.work/orch.$$"
trap 'rm -f "$bin"' EXIT
(cd "$root/sim" && go build -mod=readonly -o "$bin" ./orch) || { echo "check error: cannot build the orchestrator" >&2; exit 2; }
case "${1:-}" in
  replay|selftest|build|buildrace) "$bin" "$@" ;;
  setup) "$bin" build >/dev/null && "$bin" buildrace >/dev/null; rc=$?; rm -rf "$root"/.work/dev-*; exit $rc ;;
  *) "$bin" check "$1" "${2:-${VERIF_TIER:-quick}}" ;;
esac
exit $?
