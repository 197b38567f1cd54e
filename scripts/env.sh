# Go environment, offline
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off CGO_ENABLED=1
export XV_REPO=${XV_REPO:-/repo}
XV="$here/build/xv"
build_tool() {
  mkdir -p "$here/build"
  (cd "$here/tool" && GOFLAGS=-mod=mod go build -o "$here/build/xv.$$" . && mv "$here/build/xv.$$" "$XV")
}
