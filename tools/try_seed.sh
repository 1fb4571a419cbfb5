#!/bin/bash
# seed.sh <id> [check|full]: full: build + tests + demo in a private copy mounted at /repo; then the property's check
id=$1; mode=${2:-full}; S=/verif/seeded/$id
pid=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
C=/dev/shm/sd_$id; rm -rf /dev/shm/sd_$id; cp -a /repo $C
( cd $C && git apply $S/patch.diff ) || { echo "$id: PATCH FAILS"; exit 1; }
if [ $mode = full ]; then
cp -a $S /tmp/w/dm_$id; rm -f /tmp/w/dm_$id/*.diff /tmp/w/dm_$id/meta.json
unshare -m -i bash -c "mount --bind $C /repo; cd /repo; bash /opt/vp/build.sh >/tmp/w/sb_$id.log 2>&1 || echo '$id: BUILD FAILS'; bash /opt/vp/test.sh /tmp/w/st_$id.json >/dev/null 2>&1; (timeout 300 bash /tmp/w/dm_$id/demo.sh >/tmp/w/sdemo_$id.log 2>&1; echo demo_patched=\$? > /tmp/w/sr_$id)"
D=/dev/shm/sd0_$id; rm -rf /dev/shm/sd0_$id; cp -a /repo $D
unshare -m -i bash -c "mount --bind $D /repo; cd /repo; (timeout 300 bash /tmp/w/dm_$id/demo.sh >/tmp/w/sdemo0_$id.log 2>&1; echo demo_clean=\$? >> /tmp/w/sr_$id)"
rm -rf /dev/shm/sd0_$id /tmp/w/dm_$id
echo "$id ($pid): $(tr '\n' ' ' </tmp/w/sr_$id) tests $(python3 -c "
import json;r=json.load(open('/tmp/w/st_$id.json'));b=json.load(open('/opt/vp/BASELINE.json'));print(len(r['passed']),'passed; stable missing:',[x for x in b['stable'] if x not in r['passed']])")"
fi
[ -n "$NOCHECK" ] && PIDS=" "
for p in ${PIDS:-$pid}; do
VP_REPO=$C python3 /verif/checks/run.py $p quick > /tmp/w/sc_$id.$p 2>&1; echo "$id: check $p rc=$? $(grep -a VIOLATION /tmp/w/sc_$id.$p | head -2 | cut -c1-250)"
done
rm -rf /dev/shm/sd_$id
