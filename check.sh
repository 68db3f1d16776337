#!/bin/bash
# check.sh Cxx [quick|thorough]   decide one property on /repo's current tree
# check.sh replay FILE            run a replay file again
# check.sh setup                  check that everything builds
# Builds what it needs in a scratch directory, from $URN_REPO (default /repo).
set -u
verif=$(cd "$(dirname "$0")" && pwd)
export URN_VERIF=$verif URN_REPO=${URN_REPO:-/repo}
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off GOWORK=off CGO_ENABLED=1
unset GOOS GOARCH GODEBUG GOEXPERIMENT GOGC GOMEMLIMIT GOMAXPROCS GORACE
what=${1:?usage: check.sh Cxx [quick|thorough] | replay FILE | setup}
case ${2:-} in quick|thorough) export VERIF_TIER=$2;; esac
: "${VERIF_TIER:=quick}" "${VERIF_SEED:=1}"; export VERIF_TIER VERIF_SEED

work=$(mktemp -d /tmp/urnwork.XXXXXX) || exit 2
chmod 755 "$work"
# PIDs of the run; the scratch directory goes away whatever happens
child=
finish() { [ -n "$child" ] && kill "$child" 2>/dev/null; rm -rf -- "$work"; }
trap finish EXIT
trap 'exit 2' INT TERM HUP
export TMPDIR=$work/tmp; mkdir -m 755 "$TMPDIR" || exit 2

build() { # DIR OUT FLAGS... PACKAGE
  local dir=$1 out=$2; shift 2
  ( cd "$dir" && go build -trimpath -o "$out" "$@" ) >"$work/build.log" 2>&1 && return 0
  echo "check.sh: $dir does not build:" >&2; cat "$work/build.log" >&2; return 1
}

# The harness is built from a copy, so that its go.mod can name URN_REPO and
# no build writes below /verif.
cp -r "$verif/harness" "$work/src" || exit 2
if [ "$URN_REPO" != /repo ]; then
  ( cd "$work/src" && go mod edit -replace "github.com/leodido/go-urn=$URN_REPO" ) || exit 2
fi
mkdir -m 755 "$work/bin" || exit 2
id=$what
if [ "$what" = replay ]; then
  file=$(realpath -- "${2:?usage: check.sh replay FILE}") || exit 2
  id=$(sed -n 's/.*"property": *"\(C[0-9]*\)".*/\1/p' "$file" | head -1)
fi
tools() {
  for t in removecomments snake2camel; do
    # the tools are modules of their own; build a copy, as go may touch go.sum
    cp -r "$URN_REPO/tools/$t" "$work/tool-$t" || return 1
    build "$work/tool-$t" "$work/bin/$t" . || return 1
  done
}
race=
[ "$id" = C11 ] && race=-race
build "$work/src" "$work/bin/urncheck" $race . || exit 2
case $id in
  C11|C19|C20|C21|C22|C26|setup) ;;
  *) # once more with the library instrumented as for Go's own fuzzing
    export URN_GUIDED=$work/bin/guided
    build "$work/src" "$URN_GUIDED" -tags guided -ldflags=-checklinkname=0 \
      "-gcflags=github.com/leodido/go-urn/...=-d=libfuzzer" . ||
      echo "check.sh: no coverage-guided layer" >&2;;
esac
case $id in C19|C20|C21|C26|setup) tools || exit 2;; esac
# the probes: the library built in other ways, in a module that old toolchains take
probe() { # NAME GO FLAGS...
  local name=$1 go=$2; shift 2
  ( cd "$work/probe" && CGO_ENABLED=${CGO:-0} "$go" ${HOW:-build} -trimpath -o "$work/bin/probe-$name" "$@" ./probe ) >"$work/build.log" 2>&1 ||
    echo "check.sh: no probe $name" >&2
}
overlay() { # NAME FILE SCRIPT...: the standard library with its files edited
  local name=$1 root sep=; shift; root=$(go env GOROOT)/src
  mkdir "$work/$name"
  printf '{"Replace": {' >"$work/$name.json"
  while [ $# -gt 0 ]; do
    sed "$2" "$root/$1" >"$work/$name/$(basename "$1")"
    printf '%s"%s": "%s"' "$sep" "$root/$1" "$work/$name/$(basename "$1")" >>"$work/$name.json"
    sep=,; shift 2
  done
  echo '}}' >>"$work/$name.json"
}
probes() {
  mkdir "$work/probe" && cp -r "$verif/harness/obs" "$verif/harness/probe" "$work/probe" || return 1
  printf 'module verif/harness\n\ngo 1.18\n\nrequire github.com/leodido/go-urn v0.0.0\n\nreplace github.com/leodido/go-urn => %s\n' "$URN_REPO" >"$work/probe/go.mod"
  probe 64 go
  [ -x "$work/bin/probe-64" ] || { cat "$work/build.log" >&2; return 1; }
  GOARCH=386 probe 32 go
  probe noopt go '-gcflags=all=-N -l'
  HOW='test -c' probe test go # a test program
  # one that tells which variables and files it asks for
  overlay asked syscall/env_unix.go '/^func Getenv(/a Ask("env " + key)
$a var askLock sync.Mutex\nvar asks = map[string]bool{}\nfunc Ask(s string) { askLock.Lock(); asks[s] = true; askLock.Unlock() }\nfunc Asked() (out []string) { askLock.Lock(); for s := range asks { out = append(out, s) }; askLock.Unlock(); return }' \
    os/file.go '/^func OpenFile(/a syscall.Ask("file " + name)' os/stat.go '/^func Stat(/a syscall.Ask("file " + name)
/^package os/a import "syscall"'
  probe asked go -tags asked -overlay "$work/asked.json"
  # some whose clock the case sets
  probe clock go -tags faketime,clock -ldflags=-checklinkname=0
  overlay late runtime/time_fake.go 's/1257894000000000000/2214000000000000000/'
  probe late go -tags faketime,clock -ldflags=-checklinkname=0 -overlay "$work/late.json"
  # another system and instruction set
  local node root
  if node=$(command -v node) && root=$(go env GOROOT)/lib/wasm && [ -f "$root/wasm_exec_node.js" ]; then
    GOOS=js GOARCH=wasm probe js go
    if mv "$work/bin/probe-js" "$work/bin/js.wasm" 2>/dev/null; then
      cp "$root/wasm_exec.js" "$root/wasm_exec_node.js" "$work/bin"
      printf '#!/bin/sh\nexec %s "%s" "%s" "$@"\n' "$node" "$work/bin/wasm_exec_node.js" "$work/bin/js.wasm" >"$work/bin/probe-js"
      chmod 755 "$work/bin/probe-js"
    fi
  fi
  # with the build tags that the sources name
  local tag
  for tag in $(cd "$URN_REPO" && cat ./*.go scim/schema/*.go 2>/dev/null | sed -n 's,^//go:build,,p' | grep -oE '[A-Za-z_][A-Za-z0-9_.]*' | sort -u | head -12); do
    case $tag in ignore|unix|linux|amd64|cgo|go1*) ;; *) probe "tag-$tag" go -tags "$tag";; esac
  done
  CGO=1 probe race go -race
  if [ "$VERIF_TIER" = thorough ] || cat "$URN_REPO"/*.go "$URN_REPO"/scim/schema/*.go 2>/dev/null | grep -qE '^//( \+build|go:build).*go1'; then
    for v in 1.23 1.24 1.25 1.26; do probe "$v" "go$v"; done
  fi
  if [ "$VERIF_TIER" = thorough ]; then
    GOARCH=386 GO386=softfloat probe 32soft go
    GOAMD64=v3 probe v3 go
  fi
}
case $id in C26|setup) probes || exit 2;; esac
chmod -R a+rX "$work/bin"
case $what in
  setup)
    build "$work/src" "$work/bin/urncheck" -race . || exit 2
    echo "setup: everything builds"; exit 0;;
  replay) set -- replay "$file";;
  *) set -- run "$what";;
esac
"$work/bin/urncheck" "$@" &
child=$!
wait "$child"; rc=$?
child=
exit $rc
