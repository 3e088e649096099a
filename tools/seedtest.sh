#!/bin/bash
# seedtest.sh ID [tests]: try a planted bug in a private mount namespace where a patched copy is bound over /repo.
# Prints the demo's exit codes, the check's exit code and, with "tests", the stable tests that fail.
ID=$1; D=/verif/seeded/$ID
W=/tmp/seedwt_$ID
rm -rf "$W"; cp -a /repo "$W"
git -C "$W" checkout -q -- . 
git -C "$W" apply "$D/patch.diff" || { echo "PATCH DOES NOT APPLY"; rm -rf "$W"; exit 3; }
P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
mkdir -p /tmp/seeddemo_$ID; cp "$D"/* /tmp/seeddemo_$ID/; rm -f /tmp/seeddemo_$ID/{patch.diff,meta.json}
unshare -m bash -c "
mount --bind $W /repo; cd /repo
bash /opt/vp/build.sh > /tmp/seeddemo_$ID.build 2>&1 || { echo BUILD FAILED; tail -5 /tmp/seeddemo_$ID.build; exit 1; }
timeout 300 bash /tmp/seeddemo_$ID/demo.sh > /tmp/seeddemo_$ID.out 2>&1; echo \"demo patched: \$? (want nonzero)\"; tail -2 /tmp/seeddemo_$ID.out
if [ -z \"\$NOCHECK\" ]; then cd /verif; VERIF_SEED=1 ./check \${CHK:-$P} 2>&1 | grep -E 'VIOLATION|quick:|Error' | tail -3; fi
if [ '$2' = tests ]; then bash /opt/vp/test.sh /tmp/seeddemo_$ID.json >/dev/null 2>&1; python3 /verif/tools/cmpbase.py /tmp/seeddemo_$ID.json | tail -1; fi
"
cd /repo; timeout 300 bash /tmp/seeddemo_$ID/demo.sh > /tmp/seeddemo_$ID.out 2>&1; echo "demo clean: $? (want 0)"; [ -n "$V" ] && tail -3 /tmp/seeddemo_$ID.out
rm -rf "$W" /tmp/seeddemo_$ID*
