#!/bin/bash
# mkseed.sh ID PROPERTY "harness defines" RUNS "needs" "what it breaks"
# takes the uncommitted change in $TREE (a copy of /repo, by default /tmp/bug) as the planted bug, undoes it, and writes seeded/ID with a
# self-contained demonstration (a copy of the simulator and one harness, run for a fixed number of seeds).
set -e
V=$(dirname "$(dirname "$(readlink -f "$0")")")
D=$V/seeded/$1
T=${TREE:-/tmp/bug}
mkdir -p "$D/kit"
git -C $T diff > "$D/patch.diff"
test -s "$D/patch.diff"
git -C $T checkout -q -- .
cp -r "$V/sim" "$V/shim" "$V/build.sh" "$D/kit/"
mkdir -p "$D/kit/harness"
set -- "$1" "$2" "$3" "$4" "$5" "$6"
H=${3%% *}
cp "$V"/harness/*.h "$V/harness/$H.cpp" "$D/kit/harness/"
cat > "$D/demo.sh" <<X
#!/bin/bash
# Builds a simulated run of this tree's headers and executes a fixed set of seeds; exit 1 if one misbehaves.
D=\$(dirname "\$(readlink -f "\$0")")
B=\$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "\$B"' EXIT
REPO=\$PWD BUILD=\$B bash "\$D/kit/build.sh" ${3%% *} demo ${3#* } > "\$B/log" 2>&1 || { cat "\$B/log"; exit 2; }
for w in 0 1 2 3 4 5 6 7; do SIM_CPU=120 "\$B/demo" explore \${DEMO_SEED:-77} \$w $4 8 150 0 1 > "\$B/o\$w" & done
wait
python3 - "\$B" <<'P'
import json, sys
bad = n = 0
for w in range(8):
    d = json.load(open('%s/o%d' % (sys.argv[1], w)))
    n += d['runs']
    for v in d['violations']:
        bad += 1
        print('seed index', v['index'], v['class'], v['msg'])
print(n, 'runs')
sys.exit(1 if bad else 0)
P
X
chmod +x "$D/demo.sh"
python3 - "$D" "$2" "$5" "$6" <<'P'
import json, sys
json.dump(dict(property=sys.argv[2], needs=sys.argv[3], what_it_breaks=sys.argv[4]), open(sys.argv[1] + '/meta.json', 'w'), indent=1)
P
# confirm
cd $T
bash "$D/demo.sh" > /tmp/demo.clean 2>&1 && echo "clean ok" || { echo "DEMO FAILS ON CLEAN TREE"; tail -3 /tmp/demo.clean; }
git apply "$D/patch.diff"
bash "$D/demo.sh" > /tmp/demo.bug 2>&1 && echo "DEMO MISSES THE BUG" || { echo "demo fails with the bug:"; tail -3 /tmp/demo.bug; }
git checkout -q -- .
