#!/bin/bash
# tools/mut.sh FILE SED-EXPR command...: run a command with one edited file in /repo
F=/repo/$1; S=$2; shift 2
cp $F /tmp/mut.$$; sed -i "$S" $F
git -C /repo diff --stat | tail -1
"$@" 2>&1 | cut -c1-300 | tail -4
cp /tmp/mut.$$ $F; rm /tmp/mut.$$
