#!/usr/bin/env python3
"""seed.py ID PROPERTY KIND --needs T --breaks T   with edits read from seeds_src (python file defining SEEDS)
   Creates seeded/<ID>/ from an edit list and confirms it in scratch copies: builds, tests pass, demo 0 without / nonzero with."""
import importlib.util, json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RS = '''#!/bin/bash
# builds demo.rs against the crates of /repo in a scratch directory and runs it
set -e
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
d=$(mktemp -d /tmp/p4demo.XXXXXX)
trap 'rm -r "$d"' EXIT
export HOME=/root PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=nightly-2023-04-01 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=$d/target RUSTC_WRAPPER= CARGO_PROFILE_DEV_DEBUG=0
mkdir -p "$d/demo/src" "$d/core" "$d/host"
cp "$here/demo.rs" "$d/demo/src/main.rs"
cp "$repo/Cargo.lock" "$d/Cargo.lock"
cp -r "$repo/crates/analyzer-abstractions" "$d/abs"
cp -r "$repo/crates/analyzer-core/src" "$d/core/src"
cp -r "$repo/crates/analyzer-host/src" "$d/host/src"
awk '/^\\[/{skip=($0=="[[bench]]")} !skip && !/^salsa *=/' "$repo/crates/analyzer-core/Cargo.toml" > "$d/core/Cargo.toml"
grep -E '^(pub )?mod (lsp_file|parser);' "$repo/crates/analyzer-core/src/lib.rs" > "$d/core/src/lib.rs"
grep -v '^analyzer-core *=' "$repo/crates/analyzer-host/Cargo.toml" | sed 's#path *= *"[^"]*analyzer-abstractions[^"]*"#path = "../abs"#' > "$d/host/Cargo.toml"
grep -E '^(pub )?mod json_rpc;' "$repo/crates/analyzer-host/src/lib.rs" > "$d/host/src/lib.rs"
sed -i 's#path *= *"[^"]*analyzer-abstractions[^"]*"#path = "../abs"#' "$d/core/Cargo.toml"
echo '[workspace]
members = ["demo", "abs", "core", "host"]' > "$d/Cargo.toml"
cat > "$d/demo/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
@DEPS@
T
cd "$d"
timeout 280 cargo run --offline --quiet -p demo
'''
FULL = '''#!/bin/bash
# builds demo.rs against the crates of /repo (with the stand-in for salsa that lies here) in a scratch directory and runs it
set -e
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
d=$(mktemp -d /tmp/p4demo.XXXXXX)
trap 'rm -r "$d"' EXIT
export HOME=/root PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=nightly-2023-04-01 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=$d/target RUSTC_WRAPPER= CARGO_PROFILE_DEV_DEBUG=0
mkdir -p "$d/demo/src"
cp "$here/demo.rs" "$d/demo/src/main.rs"
cp "$repo/Cargo.lock" "$d/Cargo.lock"
cp -r "$repo/crates/analyzer-abstractions" "$d/abs"
cp -r "$repo/crates/analyzer-core" "$d/core"
cp -r "$repo/crates/analyzer-host" "$d/host"
cp -r "$here/salsa" "$here/salsa-macros" "$d/"
awk '/^\\[/{skip=($0=="[[bench]]"||$0=="[dev-dependencies]")} !skip' "$repo/crates/analyzer-core/Cargo.toml" | sed 's#^salsa *=.*#salsa = { path = "../salsa" }#' > "$d/core/Cargo.toml"
sed -i 's#path *= *"[^"]*analyzer-abstractions[^"]*"#path = "../abs"#; s#path *= *"[^"]*analyzer-core[^"]*"#path = "../core"#' "$d/host/Cargo.toml" "$d/core/Cargo.toml"
echo '[workspace]
members = ["demo", "abs", "core", "host", "salsa", "salsa-macros"]' > "$d/Cargo.toml"
cat > "$d/demo/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
analyzer-core = { path = "../core" }
analyzer-host = { path = "../host" }
analyzer-abstractions = { path = "../abs" }
serde_json = "1"
async-channel = "1.7.1"
futures = "0.3"
cancellation = "0.1"
T
cd "$d"
timeout 280 cargo run --offline --quiet -p demo
'''
DEPS = {'abs': 'analyzer-abstractions = { path = "../abs" }', 'core': 'analyzer-core = { path = "../core" }', 'host': 'analyzer-host = { path = "../host" }'}


def run(cmd, **kw): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def main():
    sp = importlib.util.spec_from_file_location('seeds', os.path.join(V, 'tools', 'seeds.py')); m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
    pats = sys.argv[1:]
    for sd in m.SEEDS:
        if pats and sd['id'] not in pats: continue
        out = os.path.join(V, 'seeded', sd['id'])
        if not pats and os.path.exists(os.path.join(out, 'meta.json')): continue
        d = tempfile.mkdtemp(prefix='p4seed.')
        try:
            run(['git', 'clone', '-q', '/repo', d + '/r'])
            r = d + '/r'
            for f, a, b in sd['edits']:
                s = open(os.path.join(r, f)).read()
                assert a in s, (sd['id'], f, a)
                open(os.path.join(r, f), 'w').write(s.replace(a, b, 1))
            diff = run(['git', 'diff'], cwd=r).stdout
            run(['git', 'checkout', '-q', '--', '.'], cwd=r)
            os.makedirs(out, exist_ok=True)
            open(out + '/patch.diff', 'w').write(diff)
            json.dump({'property': sd['prop'], 'needs': sd['needs'], 'what_it_breaks': sd['breaks']}, open(out + '/meta.json', 'w'), indent=1)
            if 'rs' in sd:
                open(out + '/demo.rs', 'w').write(sd['rs'])
                if sd.get('full'):
                    open(out + '/demo.sh', 'w').write(FULL)
                    for n in ('salsa', 'salsa-macros'): shutil.copytree(os.path.join(V, 'tools', 'salsa_run', n), os.path.join(out, n), dirs_exist_ok=True)
                else:
                    deps = '\n'.join(DEPS.get(x, x) for x in sd['deps'])
                    open(out + '/demo.sh', 'w').write(RS.replace('@DEPS@', deps))
            else:
                open(out + '/demo.sh', 'w').write(sd['sh'])
                for n, t in sd.get('extra', {}).items(): open(os.path.join(out, n), 'w').write(t)
            os.chmod(out + '/demo.sh', 0o755)
            a = run([out + '/demo.sh'], cwd=r)
            run(['git', 'apply', out + '/patch.diff'], cwd=r)
            b = run([out + '/demo.sh'], cwd=r)
            ok = a.returncode == 0 and b.returncode != 0
            print(sd['id'], 'OK' if ok else 'NOT OK', 'clean rc', a.returncode, 'patched rc', b.returncode)
            print('   patched: ' + ' / '.join(b.stdout.strip().splitlines()[-3:])[:300])
            if not ok: print(a.stdout[-3000:]); print(b.stdout[-1500:])
        finally: shutil.rmtree(d)


main()
