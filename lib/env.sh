# Sourced by every script: toolchain environment, build directory, generated code, overlay.
# REPO: the tree under test (default /repo).  B: scratch build directory, removed on exit by the caller.
export HOME=${HOME:-/root} LANG="${LANG:-C.UTF-8}"
export GOROOT=/opt/veriftools/go1.24.13
export PATH=$GOROOT/bin:/usr/local/bin:/usr/bin:/bin:/usr/sbin:/sbin
export GOTOOLCHAIN=local GOSUMDB=off GOPROXY=off GOWORK=off GOENV=off
export GOPATH=/root/go GOCACHE=${GOCACHE:-/root/.cache/go-build}
export GOEXPERIMENT=synctest CGO_ENABLED=0
VERIF=${VERIF:-/verif}
REPO=${REPO:-/repo}

# prepare_build: fills $B with go.mod, generated protobuf code and overlay.json.
prepare_build() {
  local rel d p rc=0
  mkdir -p "$B/gen" || return 1
  cp "$REPO/go.mod" "$B/go.mod" && cp "$REPO/go.sum" "$B/go.sum" || return 1
  GOFLAGS= go mod edit -droprequire=reduction.dev/reduction-go \
    -require=reduction.dev/reduction-protocol@v0.0.0 \
    -replace=reduction.dev/reduction-protocol="$VERIF/stubs/reduction-protocol" "$B/go.mod" || return 1
  (cd "$REPO" && find proto connectors -name '*.proto' | sort) > "$B/protos"
  while read -r p; do
    (cd "$REPO" && protoc -I . -I "$VERIF/stubs/reduction-protocol" \
      --plugin=protoc-gen-go=/opt/vp/tools/protoc-gen-go \
      --go_opt=paths=source_relative --go_out="$B/gen" \
      --plugin=protoc-gen-connect-go=/opt/vp/tools/protoc-gen-connect-go \
      --connect-go_opt=paths=source_relative --connect-go_out="$B/gen" "$p") || return 1
  done < "$B/protos"
  python3 - "$B" "$REPO" "$VERIF" <<'P' || return 1
import json, os, sys
B, repo, verif = sys.argv[1:]
rep = {}
# generated code replaces whatever stale generated code lies in the tree
for top in ("proto", "connectors"):
    for d, _, fs in os.walk(os.path.join(repo, top)):
        for f in fs:
            if f.endswith((".pb.go", ".connect.go")):
                rep[os.path.join(d, f)] = ""
for d, _, fs in os.walk(os.path.join(B, "gen")):
    for f in fs:
        rep[os.path.join(repo, os.path.relpath(os.path.join(d, f), os.path.join(B, "gen")))] = os.path.join(d, f)
# the harness lives (virtually) inside the module under test
H = os.path.join(verif, "harness")
for d, _, fs in os.walk(H):
    for f in fs:
        if f.endswith(".go"):
            rel = os.path.relpath(d, H)
            if rel.startswith("inpkg/"):      # in-package files: inpkg/<pkg path>/x.go
                rep[os.path.join(repo, rel[len("inpkg/"):], f)] = os.path.join(d, f)
            else:
                rep[os.path.join(repo, "zzverif", rel, f)] = os.path.join(d, f)
json.dump({"Replace": rep}, open(os.path.join(B, "overlay.json"), "w"))
P
  export GOFLAGS="-modfile=$B/go.mod -mod=mod -overlay=$B/overlay.json"
}
