#!/bin/bash
# usage: newseed.sh ID PROPERTY "needs" "what it breaks"   (stdin: demo.rs; the edit is made in /tmp/seedrepo beforehand)
set -e
d=/verif/seeded/$1; mkdir -p $d
git -C /tmp/seedrepo diff -- src > $d/patch.diff
git -C /tmp/seedrepo checkout -q -- .
cat > $d/demo.rs
cat > $d/demo.sh <<'X'
#!/bin/bash
# builds demo.rs against the crate in the current directory and runs it (debug and release)
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd -P)
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src"
cp "$here/demo.rs" "$d/src/main.rs"
cat > "$d/Cargo.toml" <<EOT
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
sized-chunks = { path = "$repo", features = ["std", "ringbuffer", "refpool", "arbitrary"] }
array-ops = "0.1.0"
refpool = "0.4.3"
arbitrary = "1.0.2"
EOT
cd "$d" || exit 2
export CARGO_TARGET_DIR="$d/target"
cargo build --offline -q || exit 2
timeout 60 ./target/debug/demo || exit 1
cargo build --offline -q --release || exit 2
timeout 60 ./target/release/demo || exit 1
exit 0
X
chmod +x $d/demo.sh
python3 - "$@" <<'P'
import json,sys
json.dump(dict(property=sys.argv[2],needs=sys.argv[3],what_it_breaks=sys.argv[4]),open('/verif/seeded/%s/meta.json'%sys.argv[1],'w'),indent=1)
P
python3 /verif/tools/mkseed.py $1
