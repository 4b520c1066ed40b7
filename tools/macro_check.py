#!/usr/bin/env python3
"""P01: the compile-time hashing macros, decided by enumerating programs that use them.

Every program of the enumerated families is compiled against the macro crate of /repo's working tree; accepted programs are run
and what they print is compared with an independent Keccak-256; programs that must be refused are compiled one by one."""
import functools, os, sys, json, subprocess, itertools, re, time, shutil, concurrent.futures as cf
ROOT = os.environ.get('VERIF_ROOT', '/verif'); WS = ROOT + '/ws'
PID = sys.argv[1]; TIER = sys.argv[2] if len(sys.argv) > 2 else 'quick'
T0 = time.time(); GEN = f'{WS}/target/macro-gen'
DEEP = TIER == 'thorough'

# ---- independent Keccak-256 -------------------------------------------------------------------
M = (1 << 64) - 1
def _rc():
    out, lf = [], 1
    for _ in range(24):
        c = 0
        for j in range(7):
            if lf & 1: c ^= 1 << ((1 << j) - 1)
            lf <<= 1
            if lf & 0x100: lf ^= 0x171
        out.append(c)
    return out
RC = _rc()
ROT = {}
x, y = 1, 0
for t in range(24):
    ROT[x, y] = ((t + 1) * (t + 2) // 2) % 64
    x, y = y, (2 * x + 3 * y) % 5
ROT[0, 0] = 0
rol = lambda v, n: ((v << n) | (v >> (64 - n))) & M if n else v
@functools.lru_cache(None)
def keccak(data):
    rate = 136
    p = bytearray(data); p.append(1); p += bytes(-len(p) % rate); p[-1] |= 0x80
    A = [[0] * 5 for _ in range(5)]
    for off in range(0, len(p), rate):
        for i in range(rate // 8):
            A[i % 5][i // 5] ^= int.from_bytes(p[off + 8 * i:off + 8 * i + 8], 'little')
        for rc in RC:
            C = [A[x][0] ^ A[x][1] ^ A[x][2] ^ A[x][3] ^ A[x][4] for x in range(5)]
            D = [C[(x - 1) % 5] ^ rol(C[(x + 1) % 5], 1) for x in range(5)]
            A = [[A[x][y] ^ D[x] for y in range(5)] for x in range(5)]
            B = [[0] * 5 for _ in range(5)]
            for x in range(5):
                for y in range(5):
                    B[y][(2 * x + 3 * y) % 5] = rol(A[x][y], ROT[x, y])
            A = [[B[x][y] ^ (~B[(x + 1) % 5][y] & B[(x + 2) % 5][y] & M) for y in range(5)] for x in range(5)]
            A[0][0] ^= rc
    return b''.join(A[i % 5][i // 5].to_bytes(8, 'little') for i in range(4))
assert keccak(b'').hex() == 'c5d2460186f7233c927e7db2dcc703c0e500b653ca82273b7bfad8045d85a470'
assert keccak(b'transfer(address,uint256)').hex()[:8] == 'a9059cbb'
sel = lambda s: int.from_bytes(keccak(s.encode())[:4], 'big')

def evidence(states, bad, expl):
    os.makedirs(ROOT + '/evidence', exist_ok=True)
    json.dump({"property": PID, "tier": TIER, "seed": int(os.environ.get('VERIF_SEED', 1)), "level": "model_checking",
        "coverage": {"states": states, "transitions": states, "traces_validated_against_impl": states, "samples": states, "exhaustive": not bad, "explanation": expl},
        "assumptions": ["the hash crate and num_enum are the vendored crates.io sources; rustc is trusted"],
        "wall_s": time.time() - T0, "violations": len(bad)}, open(f'{ROOT}/evidence/{PID}.json', 'w'), indent=1)
def violation(msg, src):
    os.makedirs(ROOT + '/evidence/replay', exist_ok=True)
    p = f'{ROOT}/evidence/replay/{PID}.json'
    json.dump({"property": PID, "violation": msg, "program": src}, open(p, 'w'), indent=1)
    evidence(N, [msg], msg)
    print('violation:', msg); print(f'VIOLATION property={PID} replay={p}'); sys.exit(1)
N = 0

# ---- build the macro crate ------------------------------------------------------------------------
env = dict(os.environ, RUSTC_BOOTSTRAP='1')
r = subprocess.run(['cargo', 'build', '--offline', '--message-format=json', '-p', 'precompile-utils-macro', '-p', 'num_enum'], cwd=WS, env=env, capture_output=True, text=True)
if r.returncode: print(r.stderr[-3000:]); sys.exit(2)
art = {}
for l in r.stdout.splitlines():
    try: m = json.loads(l)
    except ValueError: continue
    if m.get('reason') == 'compiler-artifact':
        for f in m['filenames']:
            if f.endswith(('.so', '.rlib')): art[m['target']['name']] = f
macro, ne = art['precompile-utils-macro' if 'precompile-utils-macro' in art else 'precompile_utils_macro'], art['num_enum']
shutil.rmtree(GEN, ignore_errors=True); os.makedirs(GEN)
def rustc(name, src, binary):
    p = f'{GEN}/{name}.rs'; open(p, 'w').write(src)
    a = ['rustc', '--edition=2021', '-Awarnings', '--extern', f'precompile_utils_macro={macro}', '--extern', f'num_enum={ne}', '-L', f'dependency={WS}/target/debug/deps', '--out-dir', GEN, '--crate-name', name]
    a += ['--crate-type=bin', '-Copt-level=0', '-Cdebuginfo=0'] if binary else ['--crate-type=lib', '--emit=metadata']
    q = subprocess.run(a + [p], env=env, capture_output=True, text=True)
    return q.returncode == 0, q.stderr

# ---- family 1: hash literals -------------------------------------------------------------------------
esc = lambda s: '"' + ''.join(c if c.isascii() and c.isprintable() and c not in '"\\' else '\\u{%x}' % ord(c) for c in s) + '"'
lits = {}
AL = ['a', 'Z', '(', ',', ')', ' ', '0', '_', '"', '\\', '\n', '\0', 'é', '𝛑']
for n in range(0, 4 if DEEP else 3):
    for t in itertools.product(AL, repeat=n): s = ''.join(t); lits[esc(s)] = s
for n in list(range(0, 300)) + [407, 408, 409, 543, 544, 545, 1000] + (list(range(300, 700)) if DEEP else []):
    s = ''.join(chr(97 + (i * 7 + n) % 26) for i in range(n)); lits[esc(s)] = s
for s in ['x()', '', 'tr"a', 'back\\slash']:
    lits[f'r##"{s}"##'] = s
lits['"line \\\n      joined"'] = 'line joined'
lits['"\\x41\\t\\\\"'] = 'A\t\\'
types = ['address', 'uint256', 'bytes', 'bool', 'uint128[]', '(address,uint32)[]']
for fn in ['transfer', 'f', 'onERC1155BatchReceived']:
    for k in range(0, 4 if DEEP else 3):
        for t in itertools.product(types, repeat=k): s = f'{fn}({",".join(t)})'; lits[esc(s)] = s
# every signature the precompiles themselves declare
decl = set()
for d, _, fs in os.walk('/repo/evm-precompiles'):
    for f in fs:
        if f.endswith('.rs'):
            for m in re.finditer(r'"([A-Za-z_]\w*\([\w\[\],()]*\))"', open(os.path.join(d, f), errors='replace').read()): decl.add(m.group(1))
for s in decl: lits[esc(s)] = s
items = list(lits.items())
src = 'use precompile_utils_macro::keccak256;\nfn p(h: &[u8]) { let mut s = String::new(); for b in h { s.push_str(&format!("{b:02x}")); } println!("{s}"); }\n'
CH = 400
for i in range(0, len(items), CH):
    src += f'fn c{i}() {{\n' + ''.join(f'{{ const H: [u8; 32] = keccak256!({l}); p(&H); }}\n' for l, _ in items[i:i + CH]) + '}\n'
src += 'fn main() {\n' + ''.join(f'c{i}();\n' for i in range(0, len(items), CH)) + '}\n'

# ---- family 2: selector enums that must be accepted -----------------------------------------------------
sigs = ['toto()', 'tata()', 'transfer(address,uint256)', 'balanceOf(address)', 'f(bytes)', '', 'ünï()', 'x' * 200 + '()']
progs, k = [], 0
def enum(vs, vis='pub', attrs='', cfg=None):
    global k
    body = ''
    for i, s in enumerate(vs):
        a = ''
        if cfg == i: a = '#[cfg(any())]\n'
        elif (i + k) % 3 == 0: a = '/// documented\n#[allow(dead_code)]\n'
        body += f'{a}V{i} = {esc(s)},\n'
    name = f'E{k}'; k += 1
    progs.append((name, vs, vis, attrs, cfg, body))
for n in range(1, 5 if DEEP else 4):
    for vs in itertools.permutations(sigs[:6 if n < 3 else 5], n): enum(list(vs))
for vis in ['', 'pub(crate)', 'pub(super)', 'pub']:
    for attrs in ['', '#[derive(Debug)]', '#[derive(Debug, PartialEq, Clone, Copy)]', '/// doc\n#[allow(dead_code)]']:
        for cfg in [None, 0, 1, 2]: enum(sigs[1:4], vis, attrs, cfg)
enum(sigs); enum(sorted(decl)); enum(sorted(decl, reverse=True))
src2 = 'use std::convert::TryFrom;\npub mod m {\n'
exp2, main2 = [], ''
fmtfix = {'pub(super)', 'pub', 'pub(crate)'}
for name, vs, vis, attrs, cfg, body in progs:
    src2 += f'{attrs}\n#[precompile_utils_macro::generate_function_selector]\n{vis} enum {name} {{\n{body}}}\n' if not attrs.startswith('#[derive') else f'#[precompile_utils_macro::generate_function_selector]\n{attrs}\n{vis} enum {name} {{\n{body}}}\n'
    live = [(i, s) for i, s in enumerate(vs) if i != cfg]
    allsel = {sel(q) for _, q in live}
    f = f'pub fn t{name}() {{ use std::convert::TryFrom; print!("{name} {{}}", std::mem::size_of::<{name}>());\n'
    e = f'{name} 4'
    for i, s in live:
        v = sel(s)
        f += f'print!(" {{:08x}}", {name}::V{i} as u32); print!(" {{:08x}}", u32::from({name}::V{i})); print!(" {{}}", matches!({name}::try_from({v}u32), Ok({name}::V{i})));\n'
        e += f' {v:08x} {v:08x} true'
        if 'Debug' in attrs: f += f'print!(" {{:?}}", {name}::V{i});\n'; e += f' V{i}'
        for w in (v ^ 1, v ^ 0x80000000, int.from_bytes(v.to_bytes(4, 'big'), 'little'), i):
            known = w in allsel
            f += f'print!(" {{}}", {name}::try_from({w}u32).is_ok());\n'; e += ' true' if known else ' false'
    src2 += f + 'println!(); }\n'; exp2.append(e); main2 += f'm::t{name}();\n'
src2 += '}\nfn main() {\n' + main2 + '}\n'
# visibility is carried over: these enums are reachable from outside the module
src2 += '#[allow(dead_code)] fn reach() {' + ''.join(f'let _ = m::{n}::V{[i for i in range(len(vs)) if i != cfg][0]} as u32;' for n, vs, vis, a, cfg, b in progs if vis in fmtfix) + '}\n'

# ---- family 3: programs that must be refused ---------------------------------------------------------------
bad = []
M0 = '#[precompile_utils_macro::generate_function_selector]\n'
for d in ['', ' = 1', ' = 0x17u32', " = b\"toto()\"", " = 'c'", " = b'c'", ' = true', ' = 1.5', ' = SIG', ' = concat!("a", "()")', ' = -1', ' = ("t", "u")', ' = {"toto()"}', ' = &"toto()"', ' = "a" as u32']:
    for pos in range(3):
        vs = ['A = "a()"', 'B = "b()"', 'C = "c()"']; vs[pos] = vs[pos][0] + d
        bad.append(M0 + f'pub enum E {{ {", ".join(vs)} }}\nconst SIG: u32 = 3;')
bad += [M0 + 'pub enum E { A = "a()", B = "a()" }', M0 + 'pub enum E { A = "collate_propagate_storage(bytes16)", B = "burn(uint256)" }',
        M0 + 'pub struct S;', M0 + 'pub fn f() {}', M0 + 'pub union U { a: u32 }',
        'pub mod m { ' + M0 + 'enum E { A = "a()" } }\npub fn f() -> u32 { m::E::A as u32 }',
        'pub mod o { pub mod m { ' + M0 + 'pub(super) enum E { A = "a()" } } }\npub fn f() -> u32 { o::m::E::A as u32 }']
for a in ['', '1', 'b"x"', "'c'", 'x', '"a", "b"', '"a" "b"', 'concat!("a","b")', '-1']:
    bad.append(f'pub const H: [u8; 32] = precompile_utils_macro::keccak256!({a});')
bad.append('pub const H: [u8; 31] = precompile_utils_macro::keccak256!("a");')
assert sel('collate_propagate_storage(bytes16)') == sel('burn(uint256)')

with cf.ThreadPoolExecutor(8) as ex:
    f1 = ex.submit(rustc, 'hashes', src, True); f2 = ex.submit(rustc, 'selectors', src2, True)
    fb = [ex.submit(rustc, f'bad{i}', s, False) for i, s in enumerate(bad)]
    ok1, e1 = f1.result(); ok2, e2 = f2.result(); rb = [f.result() for f in fb]
N = len(items) + len(progs) + len(bad)
if not ok1: violation('a program using the hash macro on string literals does not compile: ' + e1[:800], src[:3000])
out = subprocess.run([f'{GEN}/hashes'], capture_output=True, text=True).stdout.split()
if len(out) != len(items): violation('hash program printed a wrong number of digests', '')
for (l, s), h in zip(items, out):
    if keccak(s.encode()).hex() != h: violation(f'keccak256!({l[:120]}) is {h}, Keccak-256 of the text is {keccak(s.encode()).hex()}', f'keccak256!({l})')
if not ok2: violation('a selector enum of the accepted family does not compile: ' + e2[:800], src2[:3000])
out = subprocess.run([f'{GEN}/selectors'], capture_output=True, text=True).stdout.splitlines()
for e, o, p in zip(exp2, out, progs):
    if e != o: violation(f'selector enum {p[1]}: expected `{e[:300]}` got `{o[:300]}`', M0 + f'enum {p[0]} {{ {p[5]} }}')
if len(out) != len(exp2): violation('selector program stopped early', '')
for s, (ok, _) in zip(bad, rb):
    if ok: violation('a program that must be refused at compile time was accepted: ' + s, s)
if not os.environ.get("KEEP"): shutil.rmtree(GEN, ignore_errors=True)
evidence(N, [], f'{len(items)} string literals hashed (all strings up to length {3 if DEEP else 2} over {len(AL)} characters, every length 0..299 crossing the 136-byte block, generated and declared signatures, raw/escaped forms); '
    f'{len(progs)} selector enums compiled and run (all orderings of up to {4 if DEEP else 3} signatures, visibilities, attributes, conditional variants); {len(bad)} malformed programs each refused by the compiler')
print(f'OK property={PID} tier={TIER} programs={N} wall={time.time()-T0:.1f}s')
