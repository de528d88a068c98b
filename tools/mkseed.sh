#!/bin/bash
# usage: mkseed.sh <id> <property> <needs> <breaks> <main.rs>   (diff taken from /tmp/seed/r, which is then reset)
set -e
d=/verif/seeded/$1; mkdir -p $d
git -C /tmp/seed/r diff > $d/patch.diff
[ -s $d/patch.diff ]
git -C /tmp/seed/r checkout -q -- .
cp "$5" $d/main.rs
cat > $d/demo.sh <<'D'
#!/bin/bash
# builds a small program against the tree in the current directory and runs it
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
mkdir -p "$t/src"; cp "$here/main.rs" "$t/src/main.rs"; [ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$t/"
cat > "$t/Cargo.toml" <<X
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
halo2curves = { path = "$repo", features = ["derive_serde"] }
ff = { version = "0.13.0", default-features = false, features = ["std"] }
group = "0.13.0"
pairing = "0.23.0"
subtle = "2.5"
rand_core = { version = "0.6", default-features = false }
[profile.release]
debug-assertions = false
X
cp "$repo/rust-toolchain" "$t/" 2>/dev/null
cd "$t" && CARGO_TARGET_DIR="$t/target" cargo run --release --offline -q
D
chmod +x $d/demo.sh
python3 - "$d" "$2" "$3" "$4" <<'P'
import json,sys
d,p,n,b=sys.argv[1:]
json.dump(dict(property=p,needs=n,what_it_breaks=b),open(d+"/meta.json","w"),indent=1)
P
echo made $d
