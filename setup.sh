#!/bin/bash
# Builds the analyser from the committed sources, offline.
cd "$(dirname "$0")" || exit 2
. ./env.sh
mkdir -p bin evidence
stamp=$(cat analyzer/*.go analyzer/go.mod | sha256sum | cut -c1-32)
if [ -x bin/ddlv ] && [ "$(cat bin/stamp 2>/dev/null)" = "$stamp" ]; then exit 0; fi
(cd analyzer && GOFLAGS=-mod=vendor go build -o ../bin/ddlv.new .) || exit 2
mv bin/ddlv.new bin/ddlv
echo "$stamp" > bin/stamp
