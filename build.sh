# builds the engine into a cache outside the repository; sets GOSYM
V=${V:-$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)}
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off
export GOCACHE=${GOCACHE:-$HOME/.cache/go-build}
h=$(cat "$V"/engine/*.go "$V"/engine/go.mod | sha256sum | cut -c1-16)
GOSYM="$V/.bin/gosym-$h"
if [ ! -x "$GOSYM" ]; then
  mkdir -p "$V/.bin"
  (cd "$V/engine" && go build -o "$GOSYM.$$" . && mv "$GOSYM.$$" "$GOSYM") || { echo "engine build failed" >&2; return 2 2>/dev/null || exit 2; }
fi
