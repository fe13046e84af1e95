#!/bin/sh
# Runs the demonstration test beside this file in the repository at the working directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
sep=
{
  printf '{"Replace":{'
  for f in "$here"/*__demo_test.go.txt; do
    b=$(basename "$f" .go.txt)
    d=$(printf '%s' "${b%__demo_test}" | sed 's#__#/#g')
    cp "$f" "$tmp/$b.go"
    printf '%s"%s":"%s"' "$sep" "$repo/$d/zz_demo_test.go" "$tmp/$b.go"
    sep=,
    echo "$d" >>"$tmp/pkgs"
  done
  printf '}}'
} >"$tmp/overlay.json"
[ -f "$here/tags" ] && tags="-tags $(cat "$here/tags")"
[ -f "$here/flags" ] && flags=$(cat "$here/flags")
for d in $(cat "$tmp/pkgs"); do
  GOFLAGS=-mod=mod GOPROXY=off go test -overlay "$tmp/overlay.json" -count=1 -vet=off -timeout 250s $tags $flags -run '^TestDemo' "./$d" || exit 1
done
