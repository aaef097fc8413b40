"""Write a planted bug: seeded/<id>/{patch.diff,demo.sh,main.rs,meta.json} from edits made in a scratch copy."""
import json, os, subprocess, sys
WT='/tmp/wt'
SEEDED=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'seeded')
DEMO='''#!/bin/bash
# Demonstration: exits 0 when the behaviour is right. Run with the repository as cwd.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
cp "$repo/Cargo.lock" "$d/Cargo.lock" 2>/dev/null
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
monoasm = { path = "$repo/monoasm" }
monoasm_macro = { path = "$repo/monoasm_macro" }
T
export RUSTUP_TOOLCHAIN=nightly CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
cd "$d" || exit 2
cargo build --quiet --offline --target-dir "$d/target" %s || exit 2
timeout 120 "$d/target/%s/demo"
rc=$?
[ $rc = 0 ] && exit 0
echo "demonstration failed: status $rc"
exit 1
'''
HEAD='''#![allow(unused)]
use monoasm::*;
use monoasm_macro::monoasm;
'''
def seed(id, prop, edits, main, needs, breaks, release=False):
    subprocess.run(['git','-C',WT,'checkout','-q','--','.'],check=True)
    for f,old,new in edits:
        p=os.path.join(WT,f); s=open(p).read()
        n=s.count(old)
        if n!=1: sys.exit(f'{id}: {n} matches of {old[:60]!r} in {f}')
        open(p,'w').write(s.replace(old,new))
    d=subprocess.run(['git','-C',WT,'diff'],capture_output=True,text=True,check=True).stdout
    subprocess.run(['git','-C',WT,'checkout','-q','--','.'],check=True)
    dst=os.path.join(SEEDED,id); os.makedirs(dst,exist_ok=True)
    open(dst+'/patch.diff','w').write(d)
    open(dst+'/demo.sh','w').write(DEMO % (('--release','release') if release else ('','debug')))
    os.chmod(dst+'/demo.sh',0o755)
    open(dst+'/main.rs','w').write(HEAD+main)
    json.dump({'property':prop,'needs':needs,'what_it_breaks':breaks},open(dst+'/meta.json','w'),indent=1)
    print('wrote',id)
