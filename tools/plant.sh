#!/bin/bash
# tools/plant.sh ID...: validate planted bugs in a scratch copy of /repo and run their property's check against them.
# NOCHECK=1 skips the check. tools/plant.sh --new ID takes the scratch copy's current diff as the patch.
S=/tmp/seed
if [ ! -d $S/repo ]; then
    mkdir -p $S; cp -a /repo $S/repo; cp -a /opt/vp/cmake $S/cmake; sed -i "s#/repo/#$S/repo/#g" $S/cmake/CMakeLists.txt
    mkdir $S/b
fi
git -C $S/repo fetch -q /repo HEAD && git -C $S/repo diff --quiet FETCH_HEAD HEAD || git -C $S/repo reset -q --hard FETCH_HEAD
build() {
    (cd $S/repo && CC=gcc CXX=g++ LC_ALL=C.UTF-8 cmake -S $S/cmake -B $S/b -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo >/dev/null && ninja -C $S/b > $S/build.log 2>&1) || { tail -20 $S/build.log; return 1; }
    mkdir -p $S/repo/_build; cp -a $S/b/*.a $S/b/*-test $S/repo/_build/ 2>/dev/null
    return 0
}
for id in "$@"; do
    d=/verif/seeded/$id
    git -C $S/repo checkout -q -- .
    build || { echo "$id CLEAN BUILD FAILS"; continue; }
    mkdir -p $S/demo-$id; cp $d/* $S/demo-$id/; find $S/demo-$id \( -name '*.diff' -o -name meta.json \) -delete
    (cd $S/repo && timeout 300 bash $S/demo-$id/demo.sh > $S/demo.log 2>&1); c=$?
    [ $c = 0 ] || { echo "$id demo fails ($c) on the unchanged tree"; tail -5 $S/demo.log; continue; }
    git -C $S/repo apply $d/patch.diff || { echo "$id patch does not apply"; continue; }
    build || { echo "$id BUILD FAILS"; git -C $S/repo checkout -q -- .; continue; }
    LC_ALL=C.UTF-8 python3 /opt/vp/run_catch.py $S/repo/_build apib-test apib-parser-test drafter-test > $S/tests 2>/dev/null
    t=$(python3 - <<P
import json
ok={l[5:].strip() for l in open("$S/tests") if l.startswith("PASS")}
print(*[s for s in json.load(open("/opt/vp/BASELINE.json"))["stable"] if s not in ok])
P
)
    (cd $S/repo && timeout 300 bash $S/demo-$id/demo.sh > $S/demo.log 2>&1); c=$?
    [ $c != 0 ] || echo "$id demo PASSES with the patch"
    [ -z "$t" ] || echo "$id BREAKS TESTS: $t"
    p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
    r=-
    if [ -z "$NOCHECK" ]; then
        s=$(date +%s)
        REPO=$S/repo python3 /verif/run.py $p > $S/check-$id.log 2>&1; r="$? $(grep -c '^VIOLATION' $S/check-$id.log) $(( $(date +%s) - s ))s"
    fi
    echo "$id property=$p demo=$c tests=${t:-ok} check=$r"
    git -C $S/repo checkout -q -- .
done
