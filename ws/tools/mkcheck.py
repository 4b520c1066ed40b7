#!/usr/bin/env python3
# usage: mkcheck.py name pkg pkg...
import sys,os
n=sys.argv[1]; pk=sys.argv[2:]
d=f'/verif/ws/checks/{n}'
os.makedirs(d+'/src',exist_ok=True)
thin='codec scale-info frame-support frame-system pallet-balances pallet-assets sp-core sp-io sp-runtime sp-std sp-arithmetic pallet-timestamp pallet-evm fp-evm evm ethabi pallet-staking pallet-transaction-payment pallet-proxy pallet-scheduler pallet-session pallet-sudo sp-staking sp-api sp-application-crypto sp-keystore'.split()
s=f'[package]\nname = "check-{n}"\nversion = "0.1.0"\nedition = "2021"\n[dependencies]\nexplore = {{ path = "../../explore" }}\nshim = {{ path = "../../shim/core" }}\nshim-pallets = {{ path = "../../shim/pallets" }}\nserde_json = "1"\nserde = {{ version = "1", features = ["derive"] }}\nlog = "0.4"\n'
for t in thin: s+=f'{t} = {{ path = "../../thin/{t}" }}\n'
for p in pk: s+=f'{p} = {{ path = "../../wrap/{p}" }}\n'
open(d+'/Cargo.toml','w').write(s)
