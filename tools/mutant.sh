#!/bin/bash
# mutant.sh PATCH|-R COMMIT -- ID...   runs checks against a scratch copy of /repo with a patch
# applied (or a commit reverted). Scratch copies live in /tmp and are removed. Nothing is registered
# with this; it is how the sensitivity tables in DESIGN.md were made.
set -u
W=$(mktemp -d /tmp/mutant.XXXXXX)
trap 'rm -rf "$W"' EXIT
git clone -q /repo "$W/repo" || exit 3
if [ "$1" = -R ]; then
  git -C "$W/repo" -c user.name=x -c user.email=x@x revert --no-commit "$2" >/dev/null 2>&1 || { echo "revert failed: $2"; exit 3; }
  NAME="revert-$2"; shift 2
else
  git -C "$W/repo" apply "$(realpath "$1")" || { echo "apply failed: $1"; exit 3; }
  NAME="$1"; shift
fi
[ "${1:-}" = -- ] && shift
cp -r /verif/sim "$W/sim" 2>/dev/null
rm -rf "$W/sim/target"
sed -i "s#\"/repo\"#\"$W/repo\"#; s#'/repo'#'$W/repo'#; s#path = \"../../repo\"#path = \"$W/repo\"#" "$W/sim/Cargo.toml"
cd "$W/sim"; . ./.cargo_env
export CARGO_TARGET_DIR="${MUT_TARGET:-/tmp/mut-target}"
(flock 9; cargo build --release --offline >"$W/build.log" 2>&1 && cp "$CARGO_TARGET_DIR/release/sim" "$W/simbin") 9>/tmp/mut-build.lock
[ -x "$W/simbin" ] || { echo "$NAME: BUILD FAILED"; tail -20 "$W/build.log"; exit 3; }
if [ -n "${MUT_TESTS:-}" ]; then (cd "$W/repo" && CARGO_TARGET_DIR=/tmp/mut-target-t cargo test --offline 2>&1 | grep -E '^test result|FAILED|panicked' | head -5); fi
mkdir -p "$W/vd"; cp /verif/known-findings.txt "$W/vd/"
for i in "$@"; do
  s=$(date +%s.%N)
  VERIF_DIR="$W/vd" timeout 880 "$W/simbin" check "$i" >"$W/out" 2>&1; c=$?; [ $c = 2 ] && head -${MUT_HEAD:-8} "$W/out"
  printf '%s %s exit=%s %.1fs %s\n' "$NAME" "$i" "$c" "$(echo "$(date +%s.%N)-$s"|bc)" "$(grep -m1 -E '^VIOLATION' "$W/out" | sed "s#$W##g") $(grep -m1 -E 'class' "$W/out" | cut -c1-160)"
done
