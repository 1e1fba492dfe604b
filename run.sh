#!/bin/sh
# run.sh PROPERTY [quick|thorough]: decides one property for the code in /repo's working tree.
# run.sh out/FILE.json: replays a violation.
here=$(cd "$(dirname "$0")" && pwd)
cd "$here" || exit 2
[ -n "$2" ] && VERIF_TIER=$2
export VERIF_TIER="${VERIF_TIER:-quick}" VERIF_SEED="${VERIF_SEED:-1}"
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="/repo:$here"
# compiled files of the tree that is checked are never reused
cache=$(mktemp -d /tmp/mc-pycache.XXXXXX) || exit 2
export PYTHONPYCACHEPREFIX="$cache"
case "$1" in
    *.json) /opt/venv/bin/python -m mc.replay "$1" ;;
    *) /opt/venv/bin/python -m mc.main "$1" ;;
esac
rc=$?
rm -rf "$cache"
exit $rc
