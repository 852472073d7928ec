#!/usr/bin/env python3
"""Mirror the repository's crates into a buildable workspace (by content, so cargo sees only real changes).

Real sources: common, metadata, ingester, query, platform, and of storage everything but the page-level
parquet merger.  Everything the sandbox has no registry copy of (rocksdb, prost, arrow2, ...) is a stub
crate under world/stubs.  usage: mkworld.py [REPO] [WS]
"""
import os, re, sys, subprocess, pathlib, shutil, tempfile
HERE = pathlib.Path(__file__).resolve().parent
REPO = pathlib.Path(sys.argv[1] if len(sys.argv) > 1 else os.environ.get('VX_REPO', '/repo'))
WS = pathlib.Path(sys.argv[2] if len(sys.argv) > 2 else HERE.parent / 'build' / 'ws')
VX = HERE.parent / 'build' / 'vx-target' / 'release' / 'vx'
want = {}
def put(rel, text):
    if isinstance(text, str): text = text.encode()
    want[rel] = text
CR = ['common', 'metadata', 'ingester', 'query', 'platform', 'storage']
def sub(s, a, b): return s.replace(a, b)
for c in CR:
    src = REPO / 'src' / c / 'src'
    for p in sorted(src.rglob('*')):
        if p.is_file() and p.suffix == '.rs':
            rel = p.relative_to(src)
            if c == 'storage' and str(rel) in ('parquet/parquet_merger.rs', 'parquet/merge_data_arrays.rs', 'parquet/mod.rs', 'test_util.rs'): continue
            t = p.read_text()
            if c in ('query', 'platform') and 'concat_idents' in t:
                # removed nightly feature; same expansion under its replacement
                t = t.replace('#![feature(let_chains, concat_idents)]', '#![feature(macro_metavar_expr_concat)]').replace('concat_idents!($ident,Array)', '${concat($ident, Array)}')
            # the replay harness drives the physical plan steps directly: visibility only
            if c == 'query' and str(rel) == 'physical_plan/mod.rs': t = re.sub(r'(?m)^mod ', 'pub mod ', t)
            put(f'{c}/src/{rel}', t)
    toml = (HERE / 'crates' / f'{c}.toml').read_text().replace('../../../world/stubs', str(HERE / 'stubs'))
    put(f'{c}/Cargo.toml', toml)
# storage: page-level code cut out mechanically, merger replaced by a stub
with tempfile.TemporaryDirectory() as td:
    out = pathlib.Path(td) / 'm.rs'
    subprocess.run([str(VX), 'trim', str(REPO / 'src/storage/src/parquet/mod.rs'), str(out),
        'merge_data_arrays,TmpArray,min_max_values,pages_to_arrays,data_page_to_array,array_to_pages_simple,get_page_min_max_values,ColumnPath,CompressedPageIterator,use:parquet2,use:arrow2::io::parquet::read::,use:arrow2::io::parquet::write::,use:arrow2::offset,use:arrow2::bitmap,use:arrow2::array::BinaryArray'], check=True)
    put('storage/src/parquet/mod.rs', out.read_bytes())
put('storage/src/parquet/parquet_merger.rs', (HERE / 'extra' / 'parquet_merger.rs').read_bytes())
put('storage/src/test_util.rs', b'')
# generated protobuf types
BR = '''fn main() { let o = std::env::var("OUT_DIR").unwrap(); for e in std::fs::read_dir("pbgen").unwrap() { let e = e.unwrap(); std::fs::copy(e.path(), format!("{}/{}", o, e.file_name().to_str().unwrap())).unwrap(); } println!("cargo:rerun-if-changed=pbgen"); }
'''
for c in ('metadata', 'storage'):
    with tempfile.TemporaryDirectory() as td:
        subprocess.run([sys.executable, str(HERE / 'gen_pb.py'), str(REPO / 'src' / c / 'src' / 'pb'), td], check=True)
        for p in pathlib.Path(td).iterdir(): put(f'{c}/pbgen/{p.name}', p.read_bytes())
    put(f'{c}/build.rs', BR)
for h in sorted((HERE / 'harness').glob('*')) if (HERE / 'harness').exists() else []:
    for p in h.rglob('*'):
        if p.is_file() and 'target' not in p.parts: put(f'{h.name}/{p.relative_to(h)}', p.read_bytes().replace(b'../../../world/stubs', str(HERE / 'stubs').encode()))
members = sorted({k.split('/')[0] for k in want})
put('Cargo.toml', '[workspace]\nresolver = "2"\nmembers = [%s]\n[profile.dev]\ndebug = 0\nincremental = false\n[profile.dev.package."*"]\nopt-level = 1\n' % ', '.join('"%s"' % m for m in members))
put('rust-toolchain.toml', '[toolchain]\nchannel = "nightly"\n')
lock = HERE / 'Cargo.lock'
if lock.exists() and not (WS / 'Cargo.lock').exists(): put('Cargo.lock', lock.read_bytes())
n = 0
for rel, data in want.items():
    p = WS / rel
    if p.exists() and p.read_bytes() == data: continue
    p.parent.mkdir(parents=True, exist_ok=True); p.write_bytes(data); n += 1
for c in members:
    for p in list((WS / c).rglob('*')):
        if p.is_file() and str(p.relative_to(WS)) not in want: p.unlink(); n += 1
print(f'mkworld: {len(want)} files, {n} changed')
