#!/bin/bash
# check.sh <property> [tier]: decides one property on /repo's working tree.
cd "$(dirname "$0")" || exit 2
tier=${2:-${VERIF_TIER:-quick}}
./build.sh || exit 2
exec ./.bin/gosym -verif "$PWD" -repo /repo -prop "$1" -tier "$tier"
