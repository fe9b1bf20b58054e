#!/bin/bash
# check.sh Pnn [tier]: decide one property on /repo's working tree
exec python3 "$(dirname "$0")/analysis/check.py" "$@"
