#!/bin/bash
# Builds the accelerator classes and the recorders (offline).
here=$(cd "$(dirname "$0")/.." && pwd)
mkdir -p "$here/.build/classes" "$here/evidence"
T=/opt/veriftools/tla
javac -nowarn -cp $T/tla2tools.jar:$T/CommunityModules-deps.jar -d "$here/.build/classes" "$here/java/VerifOverrides.java" || exit 1
export CARGO_TARGET_DIR=$here/.build/target CARGO_NET_OFFLINE=true RUSTFLAGS="--cap-lints allow" RUSTC_WRAPPER=
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu HOME="${HOME:-/root}" PATH="/usr/local/bin:/root/.cargo/bin:$PATH"
python3 -c "import sys; sys.argv=['x']; sys.path.insert(0,'$here/bin'); import check, os; d=os.path.join(check.BUILD,'target'); os.makedirs(d,exist_ok=True); open(os.path.join(d,'source.hash'),'w').write(check.source_hash())" || exit 1
cd "$here/harness" && cargo build --offline --release --bin c24 > /dev/null 2>&1
cargo build --offline --bins 2>&1 | grep -v -i warning | tail -5
exit "${PIPESTATUS[0]}"
