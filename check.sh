#!/bin/bash
# check.sh ID [thorough] [--replay FILE]      tier also from VERIF_TIER (quick|thorough), seed from VERIF_SEED
cd "$(dirname "$0")" || exit 2
. /opt/vp/env.sh
# unseeded samplers are legal use; the op-determinism mode forbids them
export TF_DETERMINISTIC_OPS=0
export VERIF_REPO="${VERIF_REPO:-/repo}"
id=$1; shift
[ "$1" = thorough ] && { export VERIF_TIER=thorough; shift; }
exec "$PY" -W ignore -m pbt.main "$id" "$@"
