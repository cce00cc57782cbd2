#!/bin/bash
# plant.sh ID PROP "needs" "what it breaks"   -- /repo holds the uncommitted bug, /verif/seeded/ID/demo.cpp (or demo.sh) the demonstration
ID=$1; P=$2; D=/verif/seeded/$ID; mkdir -p $D
[ -f $D/demo.sh ] || { cp /verif/tools/demo.sh.tmpl $D/demo.sh; chmod +x $D/demo.sh; }
[ -n "$(git -C /repo diff)" ] && git -C /repo diff > $D/patch.diff || git -C /repo apply $D/patch.diff || exit 3
[ -n "$3" ] && python3 - "$@" <<'P'
import json,sys
i,p,n,w=sys.argv[1:5]
json.dump({"property":p,"needs":n,"what_it_breaks":w},open('/verif/seeded/%s/meta.json'%i,'w'),indent=1)
P
if [ -z "$NOTEST" ]; then /verif/tools/stable.sh; ST=$?; else bash /opt/vp/build.sh >/tmp/pb.log 2>&1; ST=$?; fi
(cd /repo && timeout 300 bash $D/demo.sh > /tmp/demo.out 2>&1); DB=$?; tail -3 /tmp/demo.out
cd /verif; timeout 900 ./check $P > /tmp/plant.check 2>&1; CK=$?; grep -m3 "VIOLATION\|^---" /tmp/plant.check; tail -1 /tmp/plant.check
git -C /repo checkout -- .
bash /opt/vp/build.sh > /tmp/pb.log 2>&1
(cd /repo && timeout 300 bash $D/demo.sh > /tmp/demo.out 2>&1); DC=$?; [ $DC = 0 ] || tail -3 /tmp/demo.out
echo "RESULT $ID $P: stable=$ST(want 0) demo-with-bug=$DB(want !=0,!=99) check=$CK(want 1) demo-clean=$DC(want 0)"
