#!/bin/bash
# bash tools/mkseed.sh ID: takes the uncommitted change in /repo as planted bug ID (whose demo_test.go.txt and meta.json are already
# in seeded/ID), confirms that it builds, passes the stable tests, and that the demonstration tells it from the unchanged tree.
id=$1; d=/verif/seeded/$id
[ -f $d/demo_test.go.txt ] && [ -f $d/meta.json ] || { echo "no demo or meta"; exit 1; }
pkg=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['demo_pkg'])")
if [ -n "$(git -C /repo diff)" ]; then git -C /repo diff > $d/patch.diff; else git -C /repo apply $d/patch.diff || exit 1; fi
cat > $d/demo.sh <<X
#!/bin/bash
here=\$(cd "\$(dirname "\$0")" && pwd)
. /opt/vp/env.sh
t=\$(mktemp -d) || exit 2
trap 'rm -rf -- "\$t"' EXIT
echo "{\"Replace\":{\"\$PWD/$pkg/zz_demo_test.go\":\"\$here/demo_test.go.txt\"}}" > "\$t/o.json"
go test -vet=off -overlay "\$t/o.json" -run '^TestZZDemo\$' -count=1 -timeout 200s ./$pkg
X
bash /opt/vp/test.sh /tmp/seed.json > /tmp/seed.log 2>&1; t=$(tail -1 /tmp/seed.log)
(cd /repo && bash $d/demo.sh > /tmp/seed.demo.bad 2>&1); bad=$?
git -C /repo checkout -q -- .
(cd /repo && bash $d/demo.sh > /tmp/seed.demo.good 2>&1); good=$?
echo "$id: tests [$t] demo patched=$bad clean=$good"
[ $bad != 0 ] && [ $good = 0 ] && [[ "$t" == *"162 passed, 0 failed"* ]] || { tail -n5 /tmp/seed.demo.bad /tmp/seed.demo.good; exit 1; }
grep -q "build failed\|setup failed" /tmp/seed.demo.bad && { echo "demo does not build when patched"; head -20 /tmp/seed.demo.bad; exit 1; }
exit 0
