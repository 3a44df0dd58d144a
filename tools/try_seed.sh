#!/bin/bash
# try_seed.sh ID [check...]: demo on clean tree, then with the patch: build, stable tests (unless NOTEST), demo, check.
ID=$1; D=/verif/seeded/$ID
git -C /repo diff --quiet || { echo "/repo not clean"; exit 2; }
P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
[ -z "$NODEMO" ] && { (cd /repo && bash $D/demo.sh >/tmp/demo.clean 2>&1); echo "$ID demo clean rc=$?"; }
git -C /repo apply $D/patch.diff || exit 2
trap 'git -C /repo checkout -q -- .' EXIT
bash /opt/vp/build.sh || echo BUILD FAILED
[ -z "$NODEMO" ] && { (cd /repo && bash $D/demo.sh >/tmp/demo.bug 2>&1); echo "$ID demo bug rc=$?"; }
[ -z "$NOTEST" ] && { bash /opt/vp/test.sh /tmp/t.json; python3 - <<'X'
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/t.json'))
bp=set(b['stable'])
rp=set(r['passed'])
print('stable failing:', sorted(bp-rp)[:5], len(bp))
X
}
[ -z "$NOCHECK" ] && { (cd /verif && timeout 900 python3 check.py $P --tier quick > /tmp/chk.out 2>&1); echo "$ID check $P rc=$?"; grep -a "class=\|VIOLATION" /tmp/chk.out | head -3 | cut -c1-250; }
