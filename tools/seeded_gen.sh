here=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/veriftools/go1.27.3/bin:/opt/vp/gobin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=readonly
repo=$PWD
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
[ -s xdr.go ] || { echo "no xdr.go"; exit 2; }
go build -o "$d/gen" . || exit 2
fail() { echo "DEMO FAILED: $*"; exit 1; }
# gorun DIR: builds and runs the main package in DIR as a package of the repository.
gorun() {
  { printf '{"Replace":{'; s=; for f in "$1"/*.go; do printf '%s"%s":"%s"' "$s" "$repo/zz_demo/$(basename "$f")" "$f"; s=,; done; printf '}}'; } > "$d/o.json"
  (cd "$repo" && go build -overlay "$d/o.json" -o "$d/demo" ./zz_demo) > "$d/log" 2>&1 || { cat "$d/log"; return 3; }
  timeout 100 "$d/demo"
}
mkdir "$d/p"
