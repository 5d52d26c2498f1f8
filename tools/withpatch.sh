#!/bin/bash
# tools/withpatch.sh PATCH command...: run a command with a patch applied to /repo, then undo it
P=$(realpath "$1"); shift
git -C /repo apply "$P" || exit 9
"$@"; r=$?
git -C /repo apply -R "$P"
exit $r
