#!/bin/bash
# mkseed.sh ID PROPERTY: turns the uncommitted change in /tmp/wt into seeded/ID (demo main: /tmp/demo.rs)
set -e
id=$1; d=/verif/seeded/$id
mkdir -p $d
git -C /tmp/wt diff > $d/patch.diff
[ -s $d/patch.diff ]
cat > $d/demo.rs <<'H'
#![allow(dead_code, unused_imports)]
mod admit; mod chk; mod compose; mod deposit; mod hash; mod nulls; mod payout; mod proofs; mod tree; mod ver;
use mc::*; use ver::*; use hash::*; use tree::Tree;
use solana_program::{instruction::Instruction, pubkey::Pubkey};
fn ok(b: &Bank, ixs: &[Instruction]) -> Bank { match execute(b, ixs) { Ok(b) => b, Err(e) => { println!("unexpected failure: {:?}", e); std::process::exit(3) } } }
fn bad(m: &str) -> ! { println!("BROKEN: {}", m); std::process::exit(1) }
fn main() { svm::init(); demo(); println!("fine"); }
H
cat /tmp/demo.rs >> $d/demo.rs
rm -rf $d/kit; mkdir -p $d/kit/mc/src
cp -r /verif/svm $d/kit/svm
cp /verif/mc/Cargo.toml /verif/mc/Cargo.lock $d/kit/mc/
cp /verif/mc/src/*.rs $d/kit/mc/src/
mkdir $d/kit/mc/src/flow; cp /verif/mc/src/bin/flow/*.rs $d/kit/mc/src/flow/; rm -f $d/kit/mc/src/flow/main.rs
cat > $d/demo.sh <<'S'
#!/bin/bash
# builds the small program demo.rs against /repo and runs it (exit 0: the property held)
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
cp -r "$d/kit" "$t/kit" && mkdir -p "$t/kit/mc/src/bin/demo" || exit 2
cp "$d"/kit/mc/src/flow/*.rs "$t/kit/mc/src/bin/demo/"
cp "$d/demo.rs" "$t/kit/mc/src/bin/demo/main.rs"
. /opt/vp/env.sh
export CARGO_TARGET_DIR="$t/target"
cd "$t/kit/mc" && cargo build --release --offline --bin demo 2>&1 | tail -5
"$t/target/release/demo"
S
chmod +x $d/demo.sh
git -C /tmp/wt checkout -q -- .
git -C /tmp/wt status --short
[ -n "$3" ] && python3 - "$d/meta.json" "$2" "$3" "$4" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1],"w"),indent=1)
P
