#!/bin/bash
# usage: run.sh <property> [quick|thorough]
set -u
cd /verif || exit 2
[ -r /opt/vp/env.sh ] && . /opt/vp/env.sh
bash /verif/checks/build.sh || { echo "cannot build gvc"; exit 2; }
exec /verif/bin/gvc check -tier "${2:-${VERIF_TIER:-quick}}" "$1"
