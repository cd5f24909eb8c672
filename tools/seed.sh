#!/bin/bash
# development: confirm a planted bug in a scratch copy laid over /repo in a private mount namespace
# seed.sh ID [-n: skip the existing tests]
ID=$1; D=/verif/seeded/$ID; W=/tmp/seed.$ID
[ -d $W ] || { mkdir -p $W; cp -a /repo/. $W/; }
git -C $W checkout -q -- .; git -C $W fetch -q /repo HEAD 2>/dev/null && git -C $W reset -q --hard FETCH_HEAD
export D ID NOTEST=$2
unshare -Urm bash -c '
mount --bind '$W' /repo || exit 9
cd /repo
bash /opt/vp/build.sh >/tmp/seed.$ID.b0 2>&1 || { echo BASE BUILD FAILS; exit 1; }
bash $D/demo.sh >/tmp/seed.$ID.d0 2>&1; echo "$ID demo unchanged: $?"
git apply $D/patch.diff || { echo NO APPLY; exit 1; }
bash /opt/vp/build.sh >/tmp/seed.$ID.b1 2>&1 || { echo BUILD FAILS; tail -5 /tmp/seed.$ID.b1; exit 1; }
bash $D/demo.sh >/tmp/seed.$ID.d1 2>&1; echo "$ID demo patched: $?"
if [ -z "$NOTEST" ]; then bash /opt/vp/test.sh /tmp/seed.$ID.t >/dev/null 2>&1
python3 - <<P
import json
d=json.load(open("/tmp/seed.$ID.t")); b=json.load(open("/opt/vp/BASELINE.json"))
s=set(b["stable"] if isinstance(b,dict) and "stable" in b else (b.get("passed") if isinstance(b,dict) else b))
print("$ID tests missing:", sorted(s-set(d["passed"]))[:5])
P
fi
P=$(python3 -c "import json;print(json.load(open(\"$D/meta.json\"))[\"property\"])")
cd /verif; python3 sa/check.py $P quick > /tmp/seed.$ID.c 2>&1; echo "$ID check $P exit $?"; grep VIOL /tmp/seed.$ID.c | cut -c1-200 | head -3
'
rm -rf /tmp/seed.$ID
