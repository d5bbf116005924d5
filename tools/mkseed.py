#!/usr/bin/env python3
"""mkseed.py <id> <property>: makes /verif/seeded/<id>/ from a scratch copy's diff on stdin plus main.rs; see usage in DESIGN.md."""
import json, os, sys, stat
DEMO = '''#!/bin/bash
# Builds main.rs against the crates of the current directory in a scratch folder and runs it.
HERE=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
D=$(mktemp -d) || exit 99
trap 'rm -r -f "$D"' EXIT
mkdir -p "$D/src"
cp "$HERE/main.rs" "$D/src/main.rs"
cat > "$D/Cargo.toml" <<X
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
@DEPS@
[profile.dev]
debug-assertions = @DA@
X
cd "$D" || exit 99
export CARGO_TARGET_DIR="$D/target" RUSTFLAGS="@FLAGS@"
cargo @TC@ build --offline -q || exit 98
timeout 200 @RUN@ "$D/target/debug/demo"
'''
def make(id, prop, diff, main, needs, breaks, deps, flags="", tc="", da="false", run=""):
    d = os.path.join('/verif/seeded', id)
    os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/main.rs', 'w').write(main)
    dl = "\n".join(f'{c} = {{ path = "$R/crates/{c}"{opt} }}' for c, opt in deps)
    s = DEMO.replace('@DEPS@', dl).replace('@FLAGS@', flags).replace('@TC@', tc).replace('@DA@', da).replace('@RUN@', run)
    s = s.replace("cargo  build", "cargo build").replace("timeout 200  ", "timeout 200 ")
    open(d + '/demo.sh', 'w').write(s)
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + '/meta.json', 'w'), indent=1)
