#!/bin/bash
# builds the verifier, offline
here="$(cd "$(dirname "$0")" && pwd)"
. "$here/tools/env.sh"
mkdir -p "$here/bin" "$here/evidence"
cd "$here/gocv" && go build -o "$here/bin/gocv" .
