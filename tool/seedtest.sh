#!/bin/bash
# Confirms planted bugs in a scratch copy of /repo mounted over /repo in a private mount namespace:
#   seedtest.sh [-c] ID...     -c: only run the check
# Needs /tmp/w/repo (cp -a /repo /tmp/w/repo).
W=/tmp/w/repo
only=0; [ "$1" = "-c" ] && { only=1; shift; }
git -C $W fetch -q /repo HEAD && git -C $W checkout -q -f FETCH_HEAD 2>/dev/null
for id in "$@"; do
    d=/verif/seeded/$id
    unshare -m bash -c '
        mount --bind '$W' /repo; cd /repo; git checkout -q -- .
        id='$id'; d='$d'; only='$only'
        p=$(python3 -c "import json;print(json.load(open(\"$d/meta.json\"))[\"property\"])")
        say() { printf "%s: %s\n" "$id" "$*"; }
        demo=/tmp/w/demo; rm -rf /tmp/w/demo; cp -r $d $demo; rm -f $demo/*.diff $demo/meta.json
        if [ $only = 0 ]; then
            bash /opt/vp/build.sh >/tmp/w/build0.log 2>&1 || say "clean build FAILED"
            timeout 300 bash $demo/demo.sh >/tmp/w/demo0.log 2>&1; say "demo on clean: $?"
        fi
        git apply $d/patch.diff || { say "patch does not apply"; exit; }
        if [ $only = 0 ]; then
            bash /opt/vp/build.sh >/tmp/w/build1.log 2>&1 || { say "BUILD FAILS"; tail -5 /tmp/w/build1.log; }
            bash /opt/vp/test.sh /tmp/w/t.json >/tmp/w/test.log 2>&1
            python3 -c "
import json
a=json.load(open(\"/tmp/w/t.json\")); b=json.load(open(\"/opt/vp/BASELINE.json\"))
print(\"$id: tests lost\", sorted(set(b[\"stable\"])-set(a[\"passed\"])))"
            timeout 300 bash $demo/demo.sh >/tmp/w/demo1.log 2>&1; say "demo with bug: $? $(tail -1 /tmp/w/demo1.log | cut -c1-200)"
        fi
        cd /verif; s=$SECONDS
        timeout 900 python3-vt check.py $p >/tmp/w/check.log 2>&1; r=$?
        say "check $p: exit $r in $((SECONDS-s)) s: $(grep VIOLATION /tmp/w/check.log) $(grep -m1 "failing case\|failed obligation" /tmp/w/check.log | cut -c1-160)"
        sed -i "/^$id /d" /verif/tool/caught.txt 2>/dev/null
        case "$r:$(grep VIOLATION /tmp/w/check.log)" in
            1:*no-failing*) res="failed obligation, no failing input" ;;
            1:*) res="failed obligation and failing input" ;;
            *) res="MISSED (exit $r)" ;;
        esac
        echo "$id $res" >> /verif/tool/caught.txt
        cd /repo; git checkout -q -- .
    '
done
