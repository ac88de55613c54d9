#!/bin/bash
# check.sh PROPERTY [quick|thorough] [more options of ocv.core]
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
prop="$1"; shift
tier="${VERIF_TIER:-quick}"
case "${1:-}" in quick|thorough) tier="$1"; shift;; esac
. "$here/env.sh" || exit 2
cd "$here" || exit 2
exec /opt/venv/bin/python -W ignore -m ocv "$prop" --tier "$tier" "$@"
