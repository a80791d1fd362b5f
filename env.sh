# offline Go environment
if [ -r /opt/vp/env.sh ]; then . /opt/vp/env.sh; fi
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=mod
if ! mkdir -p "${GOCACHE:=/root/.cache/go-build}" 2>/dev/null || ! [ -w "$GOCACHE" ]; then
  export GOCACHE=/tmp/ddlv-gocache
fi
export GOCACHE
