#!/bin/bash
# check.sh PROP              decide a property (VERIF_SEED, VERIF_TIER)
# check.sh setup             build the driver, decide nothing
# check.sh replay FILE       reproduce a reported violation
# check.sh selftest [N]      determinism of the simulation itself
cd "$(dirname "$0")" || exit 2
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off CGO_ENABLED=0
export HOME=${HOME:-/root}
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
go build -o "$d/vrun" ./cmd/vrun || exit 2
case $1 in
setup) exit 0;;
replay|selftest|hunt|survey|show) "$d/vrun" "$@";;
*) "$d/vrun" check "$@";;
esac
