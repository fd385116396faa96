#!/bin/bash
# check.sh ID [REPO]: builds the analyzer from the committed sources if need
# be, and decides the property ID for the current source of /repo.
set -u
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
bin="$PWD/bin/analyzer"
if [ ! -x "$bin" ] || [ -n "$(find analyzer -newer "$bin" -type f 2>/dev/null | head -1)" ]; then
  ./build.sh || exit 2
fi
exec "$bin" "$@"
