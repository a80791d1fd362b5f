#!/bin/bash
# usage: run.sh PROPERTY   (tier from VERIF_TIER, default quick)
# Builds the analyser if it is not there yet and decides one property on /repo.
cd "$(dirname "$0")" || exit 2
bash ./setup.sh >&2 || exit 2
. ./env.sh
exec ./bin/ddlv check "$1" "${2:-${VERIF_TIER:-quick}}"
