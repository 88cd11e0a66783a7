#!/bin/bash
# Builds everything the checks need that does not depend on /repo's sources:
#   build/vendor      directory source made from the local cargo cache
#   build/deps        the third-party crates (and stubs), built once with the nightly compiler
#   build/driver      the fact extractor (a rustc driver)
# Idempotent; does nothing when the stamp of the committed inputs is unchanged.
set -e -o pipefail
V=$(cd "$(dirname "$0")/.." && pwd)
B=$V/build
mkdir -p "$B"
exec 9>"$B/.lock"; flock 9
stamp=$(cd "$V" && find deps driver tools/setup.sh -type f -not -path '*/target/*' -print0 | sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)
if [ -f "$B/stamp" ] && [ "$(cat "$B/stamp")" = "$stamp" ] && [ -x "$B/p4facts" ]; then exit 0; fi
rm -f "$B/stamp"
export CARGO_HOME="$B/cargo-home" CARGO_NET_OFFLINE=true
mkdir -p "$CARGO_HOME"
REG=/root/.cargo/registry
HASH=index.crates.io-6f17d22bba15001f
if [ ! -d "$B/vendor" ]; then
  tmp=$B/vendor.tmp.$$; mkdir -p "$tmp"
  for c in "$REG"/cache/$HASH/*.crate; do
    n=$(basename "$c" .crate)
    tar -xzf "$c" -C "$tmp"
    echo '{"files":{},"package":null}' > "$tmp/$n/.cargo-checksum.json"
  done
  # proc-macro2 1.0.59 does not build with a current nightly: take the newer one in the cache.
  rm -r "$tmp"/proc-macro2-1.0.59
  c=$(ls "$REG"/cache/*/proc-macro2-1.0.10[0-9].crate | sort | tail -1); n=$(basename "$c" .crate)
  tar -xzf "$c" -C "$tmp"; echo '{"files":{},"package":null}' > "$tmp/$n/.cargo-checksum.json"
  # rustix 0.37 and io-lifetimes turn on nightly-only attributes that no longer exist.
  sed -i "/rustc_attrs/d" "$tmp"/rustix-0.37.19/build.rs
  # rustc refuses wasm-bindgen < 0.2.88 by its version number (wasm ABI, irrelevant to type-checking).
  sed -i "0,/^version = /s/^version = .*/version = \"0.2.88\"/" "$tmp"/wasm-bindgen-0.2.86/Cargo.toml
  mv "$tmp" "$B/vendor"
fi
cat > "$CARGO_HOME/config.toml" <<EOC
[source.crates-io]
replace-with = "vendored"
[source.vendored]
directory = "$B/vendor"
[net]
offline = true
EOC
# (the stable cargo: the nightly one passes -Z flags that change the artifact layout)
mkdir -p "$B/depsrc"
cp -a "$V/deps/." "$B/depsrc/"
( cd "$B/depsrc" && RUSTC="$(rustup which --toolchain nightly rustc)" RUSTFLAGS="--cap-lints allow" \
  cargo +stable check --offline --target-dir "$B/deps" --message-format=json > "$B/deps.json" )
( cd "$V/driver" && cargo +nightly build --release --offline --target-dir "$B/driver" )
cp -f "$B/driver/release/p4facts" "$B/p4facts"
python3 - "$B" <<'EOP'
import json, sys, os
b = sys.argv[1]; ext = {}
for line in open(os.path.join(b, 'deps.json')):
    m = json.loads(line)
    if m.get('reason') != 'compiler-artifact': continue
    t = m['target']
    if not any(k in ('lib', 'rlib', 'proc-macro', 'cdylib') for k in t['kind']): continue
    fs = [f for f in m['filenames'] if f.endswith(('.rmeta', '.so'))]
    if fs: ext.setdefault(t['name'].replace('-', '_'), []).append([m['package_id'], os.path.relpath(fs[0], b)])
json.dump(ext, open(os.path.join(b, 'externs.json'), 'w'), indent=1)
EOP
echo "$stamp" > "$B/stamp"
