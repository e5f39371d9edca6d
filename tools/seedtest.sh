#!/bin/bash
# tools/seedtest.sh ID [PID...]: apply seeded/ID to a private copy of /repo (own mount namespace), run the stable tests
# (unless NOTEST is set), the demo and the checks.
ID=$1; shift
D=/verif/seeded/$ID
PIDS=${*:-$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")}
W=$(mktemp -d /tmp/seedtest.XXXXXX)
cp -a /repo "$W/r"
unshare -m bash -c '
mount --bind '"$W"'/r /repo; cd /repo
bash '$D'/demo.sh >'$W'/demo0.log 2>&1; rc=$?; echo "'$ID' demo clean rc=$rc (want 0)"; [ $rc = 0 ] || tail -3 '$W'/demo0.log
git apply '$D'/patch.diff || exit 2
bash '$D'/demo.sh >'$W'/demo1.log 2>&1; echo "demo bug rc=$? (want !=0): $(grep -v "Can not find" '$W'/demo1.log | tail -1)"
[ -z "$NOTEST" ] && bash /opt/vp/test.sh '$W'/out.json 2>/dev/null | tail -1
for p in '"$PIDS"'; do /verif/bin/check $p quick 2>&1 | grep -v "Can not find" | tail -${LINES_:-3}; done
'
rm -rf "$W"
