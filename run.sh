#!/bin/bash
# run.sh ID [--tier quick|thorough] [--replay FILE] : run one property's check.
# Rebuilds pyuvdata's extensions from /repo's working tree (git-ignored products
# only), then explores.  Exit 0 held, 1 violation, 2 check error.
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
tier=${VERIF_TIER:-quick}; seed=${VERIF_SEED:-1}
. /opt/vp/env.sh
export VERIF_TIER=$tier VERIF_SEED=$seed
export HDF5_USE_FILE_LOCKING=FALSE
exec 9>/tmp/.verif_build.lock
flock 9
bash "$here/build.sh" >/tmp/.verif_build.log 2>&1 || { cat /tmp/.verif_build.log >&2; echo "build failed" >&2; exit 2; }
flock -u 9
exec 9>&-
scratch=$(mktemp -d /tmp/verif.XXXXXX) || exit 2
trap 'rm -rf "$scratch"' EXIT
mkdir -p "$scratch/cache/astropy"
export XDG_CACHE_HOME=$scratch/cache VERIF_SCRATCH=$scratch TMPDIR=$scratch
cd "$here" || exit 2
PYTHONPATH="$here" "$PY" -m mc.main "$@"
