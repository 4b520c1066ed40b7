#!/usr/bin/env python3
"""mkdemo.py ID PROPERTY pkg,pkg demo.rs patch.diff 'needs' 'what_it_breaks' : assemble seeded/ID (demo runs on a tarball of the stand-in workspace)."""
import sys, os, subprocess, json, shutil, io, tarfile, gzip
id, prop, pk, rs, patch, needs, what = sys.argv[1:8]
d = f'/verif/seeded/{id}'; os.makedirs(d, exist_ok=True)
ws = '/verif/ws'
buf = io.BytesIO()
with tarfile.open(fileobj=buf, mode='w') as t:
    for top in ['Cargo.lock', '.cargo/config.toml', 'shim', 'thin', 'wrap', 'vendor', 'local', 'client', 'explore', 'rt']:
        for base, ds, fs in (os.walk(f'{ws}/{top}') if os.path.isdir(f'{ws}/{top}') else [(os.path.dirname(f'{ws}/{top}'), [], [os.path.basename(top)])]):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(base, f); i = tarfile.TarInfo('ws/' + os.path.relpath(p, ws)); i.size = os.path.getsize(p); i.mode = 0o644
                t.addfile(i, open(p, 'rb'))
open(d + '/ws.tgz', 'wb').write(gzip.compress(buf.getvalue(), 9, mtime=0))
shutil.copy(rs, d + '/demo.rs'); shutil.copy(patch, d + '/patch.diff')
thin = 'codec scale-info frame-support frame-system pallet-balances pallet-assets sp-core sp-io sp-runtime sp-std sp-arithmetic pallet-timestamp pallet-evm fp-evm evm ethabi pallet-staking pallet-transaction-payment pallet-proxy pallet-scheduler pallet-session pallet-sudo sp-staking sp-api sp-application-crypto sp-keystore'.split()
c = '[package]\nname = "demo"\nversion = "0.1.0"\nedition = "2021"\n[dependencies]\nshim = { path = "../shim/core" }\nshim-pallets = { path = "../shim/pallets" }\nlog = "0.4"\nserde = { version = "1", features = ["derive"] }\nserde_json = "1"\nhex = "0.4"\n'
for x in thin: c += f'{x} = {{ path = "../thin/{x}" }}\n'
if 'rt' in pk.split(','):  # the whole runtime: what the checks on it depend on
    c = open(ws + '/checks/fp/Cargo.toml').read().replace('check-fp', 'demo').replace('../../', '../') + 'hex = "0.4"\n'
for x in pk.split(','):
    if x and x != 'rt' and f'/wrap/{x}"' not in c: c += f'{x} = {{ path = "../wrap/{x}" }}\n'
open(d + '/demo.toml', 'w').write(c)
w = open(ws + '/Cargo.toml').read().replace('"checks/*"', '"demo"')
open(d + '/workspace.toml', 'w').write(w)
open(d + '/demo.sh', 'w').write('''#!/bin/bash
# Builds the sources of /repo against the stand-in libraries in ws.tgz and runs demo.rs; exit 0 when the behaviour is right.
H=$(cd "$(dirname "$0")" && pwd)
export PATH=/root/.cargo/bin:$PATH RUSTC_BOOTSTRAP=1 CARGO_NET_OFFLINE=true
unset RUSTUP_TOOLCHAIN RUSTFLAGS RUSTC_WRAPPER CARGO_TARGET_DIR
T=$(mktemp -d /tmp/demo.XXXXXX) || exit 99
trap 'rm -rf "$T"' EXIT
tar xzf "$H/ws.tgz" -C "$T" || exit 99
mkdir -p "$T/ws/demo/src"
cp "$H/workspace.toml" "$T/ws/Cargo.toml"; cp "$H/demo.toml" "$T/ws/demo/Cargo.toml"; cp "$H/demo.rs" "$T/ws/demo/src/main.rs"
cd "$T/ws" && cargo build --offline -q -p demo 2> "$T/log" || { grep -v '^warning' "$T/log" | tail -40; exit 98; }
"$T/ws/target/debug/demo"
''')
json.dump(dict(property=prop, needs=needs, what_it_breaks=what), open(d + '/meta.json', 'w'), indent=1)
