#!/bin/bash
# check.sh ID [quick|thorough] [--replay FILE] [--harness NAME]
# Builds the explorer against /repo's working tree in a scratch directory and
# decides property ID. Exit 0: held on everything explored; exit 1 with a
# VIOLATION line: broken; anything else: the check itself failed.
here=$(cd "$(dirname "$0")" && pwd)
id=$1; shift
tier=${VERIF_TIER:-quick}
extra=()
while [ $# -gt 0 ]; do
  case $1 in
    quick|thorough) tier=$1; shift;;
    --replay) extra+=(-replay "$2"); shift 2;;
    --harness) extra+=(-harness "$2"); shift 2;;
    *) echo "bad argument $1" >&2; exit 3;;
  esac
done
. "$here/env.sh"
work=$(mktemp -d /tmp/verif-"$id"-XXXXXX) || exit 3
trap 'rm -rf -- "$work"' EXIT
chmod 711 "$work"
export TMPDIR=$work

# The order of map iteration is a choice of the explorer: the runtime's source
# of random iteration offsets is replaced, for this build only, by a hook.
src=$(go env GOROOT)/src/internal/runtime/maps/table.go
sed -e 's/^\tit\.entryOffset = rand()$/\tit.entryOffset = iterOffset(m)/' -e 's/^\tit\.dirOffset = rand()$/\tit.dirOffset = 0/' "$src" > "$work/table.go" || exit 3
cat >> "$work/table.go" <<'GO'

// IterHook decides where an iteration over a map with that many entries starts.
var IterHook func(used uint64) uint64

func iterOffset(m *Map) uint64 {
	if IterHook == nil {
		return 0
	}
	return IterHook(m.used)
}
GO
if [ "$(grep -c 'iterOffset(m)' "$work/table.go")" != 1 ] || [ "$(grep -c 'it.dirOffset = 0$' "$work/table.go")" != 1 ]; then
  echo "cannot take over map iteration order in $src" >&2; exit 3
fi
printf '{"Replace":{"%s":"%s"}}\n' "$src" "$work/table.go" > "$work/overlay.json"

build() { # build OUT ARGS...
  local out=$1; shift
  (cd "$here/harness" && go build -overlay "$work/overlay.json" -ldflags=-checklinkname=0 -o "$out" "$@" .) || { echo "build failed" >&2; exit 3; }
}

# C18 runs on copies of the library's files with a call before each statement,
# which lets the explorer's scheduler switch goroutines there.
build_sched() {
  mkdir -p "$work/ins"
  (cd "$here/harness" && go run ./instr /repo "$work/ins" "$work/ins/overlay.json" "$src" "$work/table.go") || { echo "build failed" >&2; exit 3; }
  (cd "$here/harness" && go build -overlay "$work/ins/overlay.json" -ldflags=-checklinkname=0 -tags zz -o "$work/x" . &&
    go build -race -overlay "$work/ins/overlay.json" -ldflags=-checklinkname=0 -tags zz -o "$work/xr" .) || { echo "build failed" >&2; exit 3; }
  export GORACE="halt_on_error=1 exitcode=66 atexit_sleep_ms=0"
}

ev=$here/evidence/$id.json
run() { # run BIN ARGS...
  local bin=$1; shift
  "$bin" -prop "$id" -tier "$tier" -evidence "$ev" -known "$here/known-findings.txt" "$@" "${extra[@]}"
}

mkdir -p "$here/evidence"
case " ${extra[*]} " in *" -replay "*)
  variant=$(sed -n 's/^ *"variant": *"\(.*\)",*$/\1/p' "${extra[1]}")
  if [ "$id" = C18 ]; then
    build_sched
    [ "$variant" = race ] && { run "$work/xr"; exit $?; }
  elif [ "$variant" = purego ]; then build "$work/x" -tags purego; else build "$work/x"; fi
  run "$work/x"; exit $?;;
esac

if [ "$id" = C18 ]; then
  build_sched
  run "$work/x" -variant sched || exit $?
  run "$work/xr" -variant race -merge
  exit $?
fi

build "$work/x"
run "$work/x"
rc=$?
[ $rc -eq 0 ] || exit $rc
if [ "$id" = C10 ]; then
  build "$work/xp" -tags purego
  run "$work/xp" -variant purego -merge
  rc=$?
fi
exit $rc
