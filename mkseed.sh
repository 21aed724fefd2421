#!/bin/bash
# mkseed.sh ID PROPERTY  (run with the change applied in a scratch copy at /tmp/seedwork/repo)
# Confirms a planted change (builds, stable tests pass, demo fails with it and passes without) and stores it.
# usage: mkseed.sh ID PROP NEEDS BREAKS DEMO_MAIN_RS
set -e
ID=$1 PROP=$2 NEEDS=$3 BREAKS=$4 MAIN=$5
W=/tmp/seedwork
D=/verif/seeded/$ID
mkdir -p $D
git -C $W/repo diff > $D/patch.diff
test -s $D/patch.diff
cp $MAIN $D/main.rs
cat > $D/demo.sh <<'EOS'
#!/bin/bash
# Builds main.rs (beside this file) against /repo and runs it: exit 0 iff the behaviour is right.
source /opt/vp/env.sh
H="$(cd "$(dirname "$0")" && pwd)"
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
mkdir -p "$W/src"
cp "$H/main.rs" "$W/src/main.rs"
cp /repo/Cargo.lock "$W/Cargo.lock" 2>/dev/null
cat > "$W/Cargo.toml" <<EOT
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
json-ld = { path = "/repo"FEATURES }
json-ld-syntax = { path = "/repo/crates/syntax" }
json-ld-core = { path = "/repo/crates/core" }
json-ld-context-processing = { path = "/repo/crates/context-processing" }
json-syntax = "0.12"
rdf-types = "0.22"
iref = "3.1.2"
langtag = "0.4"
futures = "0.3"
hashbrown = "0.13.1"
indexmap = "2.0"
TOKIO
[profile.dev]
debug = 0
EOT
cd "$W" && CARGO_TARGET_DIR="$W/target" timeout 280 cargo build --offline -q 2>"$W/err" || { cat "$W/err"; exit 3; }
"$W/target/debug/demo"
EOS
if [ -n "$HTTP" ]; then sed -i 's/FEATURES/, features = ["reqwest"]/; s/^TOKIO/tokio = { version = "1", features = ["rt", "net", "time"] }/' $D/demo.sh; else sed -i 's/FEATURES//; /^TOKIO/d' $D/demo.sh; fi
chmod +x $D/demo.sh
python3 - "$D" "$PROP" "$NEEDS" "$BREAKS" <<'EOS'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1]+"/meta.json","w"),indent=1)
EOS
# confirm: demo passes on the unchanged tree
git -C /repo diff --quiet
(cd /repo && bash $D/demo.sh >/tmp/seedwork/d0.txt 2>&1) && echo "demo clean: ok" || { echo "demo FAILS on clean tree"; tail -5 /tmp/seedwork/d0.txt; }
git -C /repo apply $D/patch.diff
trap 'git -C /repo checkout -- .' EXIT
bash /opt/vp/build.sh >/tmp/seedwork/b.txt 2>&1 && echo "build: ok" || echo "BUILD FAILS"
bash /opt/vp/test.sh /tmp/seedwork/t.json >/tmp/seedwork/tt.txt 2>&1 || true
python3 - <<'EOS'
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; t=json.load(open('/tmp/seedwork/t.json'))
p=set(t.get('passed') or [k for k,v in t.items() if v in('pass','passed',True)])
m=[x for x in b if x not in p]
print("stable tests:", "ok" if not m else ("MISSING",m[:3]))
EOS
(cd /repo && bash $D/demo.sh >/tmp/seedwork/d1.txt 2>&1) && echo "DEMO PASSES WITH PATCH" || { echo "demo patched: fails as wanted"; tail -2 /tmp/seedwork/d1.txt; }
(cd /verif && python3 check.py $PROP | grep -v KNOWN | tail -4) || true
