#!/bin/bash
# tools/seedtest.sh ID [check]: confirm a planted change in /repo (applied, built, tested, demonstrated, undone); with "check" also run its property's check
cd /repo; [ -z "$(git status --porcelain --untracked-files=no)" ] || { echo "/repo dirty"; exit 2; }
D=/verif/seeded/$1; P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
T=$(mktemp -d /tmp/seed.XXXXXX); cp $D/demo* $T/; for f in $D/*; do case $f in *.diff|*meta.json) ;; *) cp -r $f $T/;; esac; done
bash /opt/vp/build.sh >/dev/null 2>&1
timeout 300 bash $T/demo.sh >$T/o1 2>&1; a=$?
git apply $D/patch.diff || { echo "$1 NOAPPLY"; exit 2; }
timeout 900 bash /tmp/regress.sh > $T/reg 2>&1 || { bash /opt/vp/test.sh /tmp/out.json >/dev/null 2>&1; }
timeout 300 bash $T/demo.sh >$T/o2 2>&1; b=$?
m=$(grep missing $T/reg)
c=-; if [ "$2" = check ]; then ( cd /verif; ./check $P quick > $T/chk 2>&1 ); c=$?; grep -E "VIOLATION|failing input|failed obl" $T/chk | head -6; fi
git checkout -q -- .; 
echo "$1 ($P): demo clean=$a patched=$b tests[$m] check=$c"
[ $a = 0 ] || tail -3 $T/o1
rm -rf $T
