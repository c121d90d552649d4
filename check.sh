#!/bin/sh
cd "$(dirname "$0")" && exec env PYTHONDONTWRITEBYTECODE=1 python3 -m zz.check "$@"
