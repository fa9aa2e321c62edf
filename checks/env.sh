# common environment of all commands; sourced
ROOT="$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)"
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local CGO_ENABLED=0 GOWORK=off
export GOCACHE="${SA_GOCACHE:-$ROOT/build/gocache}"
build_sa() {
  mkdir -p "$ROOT/build"
  local stamp
  stamp="$(cat "$ROOT"/sa/*.go "$ROOT"/sa/spec/* "$ROOT"/sa/go.mod | sha256sum)"
  if [ ! -x "$ROOT/build/sa" ] || [ "$(cat "$ROOT/build/sa.stamp" 2>/dev/null)" != "$stamp" ]; then
    (cd "$ROOT/sa" && go build -o "$ROOT/build/sa.new.$$" .) || { echo "the analyser does not build"; return 1; }
    mv "$ROOT/build/sa.new.$$" "$ROOT/build/sa"
    echo "$stamp" > "$ROOT/build/sa.stamp"
  fi
}
