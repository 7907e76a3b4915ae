#!/bin/bash
# seed.sh capture ID      save the change in /repo's working tree as seeded/ID/patch.diff and undo it
# seed.sh try ID [P...]   apply, build, run the suite, the demo and the given checks (default: its property), undo
set -u
cd /verif
case "$1" in
capture)
    mkdir -p "seeded/$2"
    git -C /repo diff >"seeded/$2/patch.diff"
    git -C /repo checkout -q -- .
    cat "seeded/$2/patch.diff" ;;
try)
    id=$2; shift 2
    d=/verif/seeded/$id
    [ $# -eq 0 ] && set -- $(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
    (cd /repo && timeout 300 bash "$d/demo.sh" >/tmp/seed_demo0.log 2>&1); echo "demo unchanged: $?"
    git -C /repo apply "$d/patch.diff" || exit 1
    trap 'git -C /repo checkout -q -- .' EXIT
    bash /opt/vp/build.sh >/tmp/seed_build.log 2>&1; echo "build: $?"
    bash /opt/vp/test.sh /tmp/seed_tests.json 2>&1 | tail -1
    (cd /repo && timeout 300 bash "$d/demo.sh" >/tmp/seed_demo1.log 2>&1); echo "demo patched: $?"
    for p in "$@"; do
        [ "$p" = none ] && continue
        timeout 900 ./run.sh check "$p" quick >/tmp/seed_$p.log 2>&1; echo "$p: $? $(grep -c VIOLATION /tmp/seed_$p.log)"
    done ;;
esac
