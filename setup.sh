#!/bin/bash
# Offline set-up: unpack Hypothesis (a wheel that is part of the sandbox) into
# /verif/.deps (git-ignored).  Idempotent and safe to run concurrently.
HERE=$(cd "$(dirname "$0")" && pwd)
DEPS="$HERE/.deps"
[ -f "$DEPS/.ok" ] && exit 0
exec 9>"$HERE/.deps.lock" || exit 3
flock 9
[ -f "$DEPS/.ok" ] && exit 0
W=/opt/veriftools/wheels
mkdir -p "$DEPS" || exit 3
for w in "$W"/hypothesis-*cp312*.whl "$W"/sortedcontainers-*.whl "$W"/attrs-*.whl; do
    [ -f "$w" ] || continue
    /opt/venv/bin/python - "$w" "$DEPS" <<'PY' || exit 3
import sys, zipfile
zipfile.ZipFile(sys.argv[1]).extractall(sys.argv[2])
PY
done
PYTHONPATH="$DEPS" /opt/venv/bin/python -c "import hypothesis" || exit 3
touch "$DEPS/.ok"
