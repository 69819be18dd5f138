#!/bin/sh
# usage: check.sh <property id>...
cd "$(dirname "$0")" || exit 2
PYTHONDONTWRITEBYTECODE=1 exec python3 -m sa.check "$@"
