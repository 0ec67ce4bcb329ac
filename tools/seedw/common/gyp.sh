# Helpers: gyp on a project inside a scratch directory.
REPO=$PWD
HERE=$(cd "$(dirname "$0")" && pwd)
S=$(mktemp -d)
trap 'rm -rf "$S"' EXIT
export PYTHONDONTWRITEBYTECODE=1 TMPDIR=$S HOME=$S LC_ALL=C
unset MAKEFLAGS MAKELEVEL
bad=0
fail() { echo "FAIL: $*"; bad=1; }
gyp() { timeout 60 python3 "$REPO/gyp/gyp_main.py" "$@" --depth=. --no-parallel; }
cd "$S"
