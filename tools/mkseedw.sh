#!/bin/bash
# mkseedw.sh ID PROPERTY NEEDS BREAKS: like mkseed.sh, for the warden network
set -e
id=$1; d=/verif/seeded/$id
mkdir -p $d
git -C /tmp/wt diff > $d/patch.diff
[ -s $d/patch.diff ]
cat > $d/demo.rs <<'H'
#![allow(dead_code, unused_imports)]
use mcw::*;
use solana_program::{instruction::{AccountMeta, Instruction}, pubkey::Pubkey};
const T: i64 = 1_700_000_000;
fn ok(b: &Bank, ixs: &[Instruction]) -> Bank { match execute(b, ixs) { Ok(b) => b, Err(e) => { println!("unexpected failure: {:?}", e); std::process::exit(3) } } }
fn no(b: &Bank, ixs: &[Instruction], m: &str) { if execute(b, ixs).is_ok() { bad(m) } }
fn bad(m: &str) -> ! { println!("BROKEN: {}", m); std::process::exit(1) }
fn who(i: usize) -> Pubkey { key(&format!("actor{}", i)) }
fn start() -> Bank { genesis(&(0..10).map(who).collect::<Vec<_>>(), T) }
fn main() { setup(); demo(); println!("fine"); }
H
cat /tmp/demo.rs >> $d/demo.rs
rm -rf $d/kit; mkdir -p $d/kit/mcw/src
cp -r /verif/svm $d/kit/svm
cp /verif/mcw/Cargo.toml /verif/mcw/Cargo.lock $d/kit/mcw/
cp /verif/mcw/src/*.rs $d/kit/mcw/src/
cat > $d/demo.sh <<'S'
#!/bin/bash
# builds the small program demo.rs against /repo and runs it (exit 0: the property held)
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
cp -r "$d/kit" "$t/kit" && mkdir -p "$t/kit/mcw/src/bin/demo" || exit 2
cp "$d/demo.rs" "$t/kit/mcw/src/bin/demo/main.rs"
. /opt/vp/env.sh
export CARGO_TARGET_DIR="$t/target"
cd "$t/kit/mcw" && cargo build --release --offline --bin demo 2>&1 | tail -5
"$t/target/release/demo"
S
chmod +x $d/demo.sh
git -C /tmp/wt checkout -q -- .
python3 - "$d/meta.json" "$2" "$3" "$4" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1],"w"),indent=1)
P
