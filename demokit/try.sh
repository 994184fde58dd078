#!/bin/bash
# try.sh SEED [run.py args]: runs the seed's check with its patch applied.
d=/verif/seeded/$1; prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])"); shift
git -C /repo apply $d/patch.diff || exit 1
( cd /verif; python3 run.py $prop "$@" ) 2>&1 | tail -${TAIL:-6} | cut -c1-220
git -C /repo checkout -q -- .
