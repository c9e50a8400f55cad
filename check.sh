#!/bin/bash
# check.sh <property>: builds the analyser and decides one property on /repo's working tree.
here="$(cd "$(dirname "$0")" && pwd)"
bash "$here/build.sh" || exit 2
exec "$here/bin/permcheck" -property "$1" -repo /repo -verif "$here"
