#!/bin/bash
# author tool: validate seeded bugs in a scratch copy: tests, demo; then (--check) our check in /repo
for d in /verif/seeded/*/; do id=$(basename $d)
 [ -n "$1" ] && [[ "$1" != *"$id"* ]] && continue
 ( w=/tmp/sw_$id; mkdir -p $w; cp -a /repo $w/repo; cd $w/repo
   sed "s#/repo#$w/repo#" $d/demo.py > $w/demo.py
   PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python $w/demo.py >/dev/null 2>$w/e0; a=$?
   git apply $d/patch.diff || echo APPLYFAIL
   PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python $w/demo.py >/dev/null 2>$w/e1; b=$?
   t=$(/opt/venv/bin/python -m pytest -q -x pyrichlet/tests 2>&1 | tail -1)
   echo "$id demo0=$a demo1=$b  $(tail -1 $w/e1 | cut -c1-80) | $t"
   rm -rf $w ) &
 while [ $(jobs -r | wc -l) -ge 7 ]; do sleep 0.3; done
done; wait
