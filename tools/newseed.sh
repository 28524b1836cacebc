#!/bin/bash
# newseed.sh ID PROPERTY: makes /verif/seeded/ID from the changed scratch copy /tmp/seed/repo and /tmp/seed/main.rs,
# with $NEEDS and $BREAKS as the texts of meta.json; confirms that the change builds, passes the tests and that the demo tells.
set -e
ID=$1 P=$2 S=/verif/seeded/$1
mkdir -p "$S"
git -C /tmp/seed/repo diff -- src stl > "$S/patch.diff"
[ -s "$S/patch.diff" ] || { echo "empty patch"; exit 1; }
[ -f /tmp/seed/main.rs ] && cp /tmp/seed/main.rs "$S/main.rs.txt"
cp /verif/harness/Cargo.lock "$S/Cargo.lock.txt"
cat > "$S/demo.sh" <<'D'
#!/bin/bash
# exit 0 when the code in the current directory behaves, nonzero when it shows the defect
here=$(cd "$(dirname "$0")" && pwd)
export HOME=/root PATH="/root/.cargo/bin:$PATH" CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu RUSTC_WRAPPER=
unset CARGO_TARGET_DIR RUSTFLAGS
repo=$PWD
w=$(mktemp -d) || exit 2
trap 'rm -rf "$w"' EXIT
mkdir -p "$w/src"
cp "$here/main.rs.txt" "$w/src/main.rs"
cp "$here/Cargo.lock.txt" "$w/Cargo.lock"
cat > "$w/Cargo.toml" <<T
[package]
name = "harness"
version = "0.1.0"
edition = "2021"
[dependencies]
strict_types = { path = "$repo", features = ["all"] }
strict_encoding = "~2.9.1"
amplify = "~4.9.0"
indexmap = "2.6.0"
sha2 = "0.10.8"
serde_json = "1.0"
serde_yaml = "0.9"
toml = "0.8.19"
[profile.dev]
debug = 0
[workspace]
T
cd "$w" || exit 2
timeout 280 cargo run --offline -q
D
chmod +x "$S/demo.sh"
python3 - "$P" "$S" <<'D'
import json,sys,os
json.dump({"property":sys.argv[1],"needs":os.environ["NEEDS"],"what_it_breaks":os.environ["BREAKS"]},open(sys.argv[2]+"/meta.json","w"),indent=1)
D
bash /verif/tools/seedok.sh "$ID"
