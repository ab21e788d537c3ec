#!/bin/bash
# Builds the simulator against the current working tree of /repo.
# usage: build.sh [race]   prints the path of the binary on success.
set -u
VERIF="$(cd "$(dirname "$0")" && pwd)"
REPO="${ZZSIM_REPO:-/repo}"
. "$VERIF/env.sh"
KIND="${1:-plain}"

key=$( { cd "$REPO" && find . -name '*.go' -not -path './.git/*' -not -path './tests/*' -print0 | sort -z | xargs -0 sha256sum; sha256sum go.mod go.sum;
         cd "$VERIF" && find simrt sim tools build.sh env.sh -type f -print0 | sort -z | xargs -0 sha256sum; } | sha256sum | cut -c1-16)
CACHE="$VERIF/.build/$key"
BIN="$CACHE/sim-$KIND"
if [ -x "$BIN" ]; then echo "$BIN"; exit 0; fi
mkdir -p "$CACHE" || exit 2
exec 9>"$CACHE/lock"
flock 9
if [ -x "$BIN" ]; then echo "$BIN"; exit 0; fi

WORK=$(mktemp -d "${TMPDIR:-/tmp}/zzsim.XXXXXXXX") || exit 2
trap '/bin/rm -rf "$WORK"' EXIT
LOG="$CACHE/build-$KIND.log"
: > "$LOG"

MODULE=$(awk '$1=="module"{print $2; exit}' "$REPO/go.mod")

copy() {
  /bin/rm -rf "$WORK/src"; mkdir -p "$WORK/src"
  (cd "$REPO" && find . -name '*.go' -not -name '*_test.go' -not -path './.git/*' -not -path './tests/*' -print0 \
     | xargs -0 tar cf - --) | tar xf - -C "$WORK/src" || return 1
  cp "$REPO/go.mod" "$REPO/go.sum" "$WORK/src/" || return 1
  mkdir -p "$WORK/src/zzsimrt"
  cp "$VERIF"/simrt/*.go "$WORK/src/zzsimrt/" || return 1
  # range over functions needs language version 1.23 in the copy.
  awk '$1=="go" && $2 ~ /^1\.([0-9]|1[0-9]|2[0-2])(\.|$)/ {print "go 1.23"; next} {print}' "$WORK/src/go.mod" > "$WORK/gm" && mv "$WORK/gm" "$WORK/src/go.mod"
}

if [ ! -x "$CACHE/instrument" ]; then
  (cd "$VERIF/tools/instrument" && GO111MODULE=off GOFLAGS= go build -o "$CACHE/instrument" main.go) >>"$LOG" 2>&1 || { cat "$LOG" >&2; exit 2; }
fi

RACE=""; [ "$KIND" = race ] && RACE="-race"
for level in tasks yields noyields none; do
  copy >>"$LOG" 2>&1 || { cat "$LOG" >&2; exit 2; }
  if [ "$level" != none ]; then
    if ! (cd "$WORK/src" && "$CACHE/instrument" "$WORK/src" "$MODULE" "$level") >"$CACHE/instrument-$KIND.json" 2>>"$LOG"; then
      echo "instrumentation level $level failed" >>"$LOG"; continue
    fi
  else
    echo '{}' >"$CACHE/instrument-$KIND.json"
  fi
  mkdir -p "$WORK/src/zzsim"
  cp "$VERIF"/sim/*.go "$WORK/src/zzsim/" || exit 2
  sed -i "s#github.com/xconnio/wampproto-go#$MODULE#g" "$WORK"/src/zzsim/*.go
  if (cd "$WORK/src" && go build $RACE -trimpath -ldflags "-X main.instrumentLevel=$level" -o "$BIN.tmp" ./zzsim) >>"$LOG" 2>&1; then
    mv "$BIN.tmp" "$BIN"
    [ "$level" = tasks ] || { echo "warning: built with instrumentation level $level" >&2; tail -20 "$LOG" >&2; }
    echo "$BIN"; exit 0
  fi
  echo "build at instrumentation level $level failed" >>"$LOG"
done
cat "$LOG" >&2
exit 2
