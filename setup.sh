#!/bin/bash
# nothing to build: the analyser is Python and compiles /repo's headers on every run
cd "$(dirname "$0")" || exit 1
command -v clang >/dev/null || exit 1
exec env PYTHONDONTWRITEBYTECODE=1 python3 -c 'import zz.check, zz.registry'
