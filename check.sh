#!/bin/bash
# check.sh ID [--replay FILE]: builds what the check needs from /repo's working tree and decides one property.
cd "$(dirname "$0")"
export LC_ALL=C.UTF-8 PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
exec python3-vt -c 'import sys; sys.path.insert(0,"lib"); import vf; sys.exit(vf.main(sys.argv[1]))' "$@"
