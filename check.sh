#!/bin/bash
# usage: check.sh <property> [quick|thorough]
# exit 0: held on everything explored; 1: VIOLATION line printed; other: the check itself failed
cd "$(dirname "$0")" || exit 4
exec python3 check.py "$@"
