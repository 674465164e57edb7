#!/bin/bash
# tools_dev.sh REPOCOPY ID [args]: run a check against a scratch copy of the source (development only; not used by MANIFEST.json).
rw=$1; shift
. /opt/vp/env.sh
export VERIF_DEVSRC=$rw VERIF_TIER=quick VERIF_SEED=1 HDF5_USE_FILE_LOCKING=FALSE
s=$(mktemp -d /tmp/verif.XXXXXX); trap 'rm -rf "$s"' EXIT
mkdir -p $s/cache/astropy $s/verif; cp -r /verif/mc /verif/*.json* $s/verif/; mkdir $s/verif/evidence
export XDG_CACHE_HOME=$s/cache VERIF_SCRATCH=$s TMPDIR=$s
cd $s/verif; PYTHONPATH=$s/verif:$rw/src $PY -m mc.main "$@"
