#!/bin/bash
# mk.sh ID PROPERTY NEEDS BREAKS DEMO.cc [flags]: keeps the current uncommitted
# change of /repo as seeded/ID once it builds, passes the tests and its
# demonstration fails with it and passes without; then runs the check on it.
set -u
id=$1 prop=$2 needs=$3 breaks=$4 demo=$5; shift 5
kit=$(cd "$(dirname "$0")" && pwd); s=$kit/../seeded/$id
rm -rf "$s.new"; mkdir -p "$s.new"; s=$s.new
cd /repo
git diff > "$s/patch.diff"
[ -s "$s/patch.diff" ] || { echo "no change"; rm -rf "$s"; exit 1; }
cp -r "$kit/shim" "$kit/rt.cc" "$kit/build.sh" "$kit/demo.sh" "$s/"; cp "$demo" "$s/demo.cc"; echo "$*" > "$s/flags"
python3 -c "import json,sys; json.dump({'property':sys.argv[1],'needs':sys.argv[2],'what_it_breaks':sys.argv[3]}, open(sys.argv[4],'w'), indent=1)" "$prop" "$needs" "$breaks" "$s/meta.json"
ok=1
bash /opt/vp/test.sh /tmp/mk.json > /tmp/mk.log 2>&1; python3 -c "
import json,sys; o=json.load(open('/tmp/mk.json')); b=json.load(open('/opt/vp/BASELINE.json')); sys.exit(0 if len(o['passed'])>=32 and not o['failed'] else 1)" || { echo "TESTS FAIL with the change"; tail -3 /tmp/mk.log; ok=0; }
bash "$s/demo.sh" > /tmp/mk.d1 2>&1; r1=$?
( cd /verif && python3 run.py $prop > /tmp/mk.check 2>&1 ); rc=$?
git checkout -q -- .
bash /opt/vp/build.sh > /dev/null 2>&1
bash "$s/demo.sh" > /tmp/mk.d0 2>&1; r0=$?
[ $r0 = 0 ] || { echo "demo fails on the unchanged tree ($r0)"; tail -3 /tmp/mk.d0; ok=0; }
[ $r1 != 0 ] && [ $r1 != 99 ] || { echo "demo does not fail with the change ($r1)"; tail -3 /tmp/mk.d1; ok=0; }
echo "demo: unchanged $r0, changed $r1; check $prop exit $rc: $(grep -m1 -E 'VIOLATION|counterexample' /tmp/mk.check | cut -c1-150)"
tail -1 /tmp/mk.check | cut -c1-150
if [ $ok = 1 ]; then rm -rf "${s%.new}"; mv "$s" "${s%.new}"; echo "kept $id"; else mv "$s" /tmp/rejected.$$; echo "rejected $id (patch in /tmp/rejected.$$)"; fi
