#!/bin/bash
# tryseed.sh [-t] ID...: confirm planted changes (build, [-t: stable tests,] demo both ways) and run the property's check on them
cd /verif; T=; [ "$1" = -t ] && { T=1; shift; }
export CARGO_TERM_COLOR=never
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo not clean"; exit 1; }
bash /opt/vp/build.sh >/tmp/ts.build 2>&1
for s in "$@"; do bash seeded/$s/demo.sh >/tmp/ts.demo 2>&1 && echo "$s demo clean: ok" || { echo "$s DEMO FAILS CLEAN"; tail -5 /tmp/ts.demo; }; done
for s in "$@"; do
  git -C /repo apply /verif/seeded/$s/patch.diff || { echo "$s PATCH"; continue; }
  if bash /opt/vp/build.sh >/tmp/ts.build 2>&1; then
    bash seeded/$s/demo.sh >/tmp/ts.demo 2>&1 && { echo "$s DEMO PASSES WITH PATCH"; } || { echo "$s demo patched: fails (ok)"; tail -3 /tmp/ts.demo; }
    if [ -n "$T" ]; then bash /opt/vp/test.sh /tmp/ts.json >/tmp/ts.test 2>&1; python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/ts.json'))
st=set(b.get('stable',b.get('passed',b)) if isinstance(b,dict) else b); ps=set(r.get('passed',[]))
miss=st-ps; print('  tests:', len(st), 'stable,', 'MISSING %s'%list(miss)[:5] if miss else 'all pass')
P
    fi
    p=$(python3 -c "import json;print(json.load(open('seeded/$s/meta.json'))['property'])")
    timeout 900 python3 run.py $p > /tmp/ts.$s.chk 2>&1; echo "$s check $p exit $?"; grep -E 'VIOLATION|violated' /tmp/ts.$s.chk | head -4 | cut -c1-300
  else echo "$s DOES NOT BUILD"; tail -20 /tmp/ts.build; fi
  git -C /repo checkout -- .
done
