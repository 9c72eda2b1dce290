#!/bin/bash
# try.sh ID...: for each planted bug, in a scratch copy of /repo: tests, demonstration, and the property's check.
# SKIPTESTS=1 leaves the test suite out; CHECK="C01 C02" overrides the checks.
here=$(cd "$(dirname "$0")/../.." && pwd)
for id in "$@"; do
    d=$here/seeded/$id
    w=$(mktemp -d /tmp/try.XXXXXX); c=$w/repo
    cp -a /repo "$c"
    prop=$(python3 -c "import json,sys; print(json.load(open(sys.argv[1]))['property'])" "$d/meta.json")
    out="$id [$prop]"
    mkdir $w/demo; cp "$d"/* $w/demo/; rm -f $w/demo/*.diff $w/demo/meta.json
    (cd "$c" && timeout 300 bash "$w/demo/demo.sh" >$w/demo0 2>&1); out="$out demo-clean=$?"
    if ! git -C "$c" apply "$d/patch.diff"; then echo "$out PATCH DOES NOT APPLY"; rm -rf "$w"; continue; fi
    (cd "$c" && timeout 300 bash "$w/demo/demo.sh" >$w/demo1 2>&1); out="$out demo-bug=$? ($(tail -1 $w/demo1 | cut -c1-150))"
    if [ -z "$SKIPTESTS" ]; then
        sed "s#cd /repo#cd $c#" /opt/vp/test.sh > $w/test.sh
        bash $w/test.sh $w/out.json > $w/testlog 2>&1
        out="$out tests=$(tail -1 $w/testlog) $(grep -E '^FAILED' $w/testlog | head -3 | cut -c1-150 | tr '\n' ' ')"
    fi
    echo "$out"
    for ck in ${CHECK:-$prop}; do
        t=$(date +%s)
        (cd $here && TBMON_REPO=$c VERIF_SEED=${SEED:-1} ./check $ck ${TIER:-quick} --no-evidence > $w/chk 2>&1); rc=$?
        echo "   $ck rc=$rc $(( $(date +%s) - t ))s $(grep -E 'VIOLATION|INCONC' $w/chk | head -2 | cut -c1-160 | tr '\n' ' ') $(grep -A3 VIOLATION $w/chk | sed -n 2,3p | cut -c1-250 | tr '\n' ' ')"
    done
    rm -rf "$w"
done
