#!/bin/bash
# plant.sh ID: confirms a planted change in a scratch copy: applies, builds, keeps the stable tests passing, and the demonstration tells it from the original.
id=$1; s=/verif/seeded/$id; w=/tmp/plant-$id
rm -rf "/tmp/plant-$id"; mkdir -p $w; cp -a /repo $w/repo; cd $w/repo || exit 1
bash $s/demo.sh >$w/d0 2>&1 || { echo "$id: demo fails on the original"; tail -5 $w/d0; exit 1; }
git apply $s/patch.diff || { echo "$id: does not apply"; exit 1; }
TZ=CET cargo test --workspace --offline --no-fail-fast -q >$w/t 2>&1
python3 - $w/t <<'P' || { echo "$id: tests differ"; grep -E "^test .*FAILED|error" $w/t | head; }
import sys,re
s=open(sys.argv[1]).read()
ok=sum(int(x) for x in re.findall(r'(\d+) passed',s)); bad=sum(int(x) for x in re.findall(r'(\d+) failed',s))
print('passed',ok,'failed',bad); sys.exit(bad>0 or ok<49)
P
if bash $s/demo.sh >$w/d1 2>&1; then echo "$id: demo passes with the change"; else echo "$id: demo fails with the change, as it should"; grep -m1 panicked -A2 $w/d1; fi
rm -rf "/tmp/plant-$id"
