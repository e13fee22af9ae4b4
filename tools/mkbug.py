#!/usr/bin/env python3
"""mkbug.py ID PROPERTY SPEC.json MAIN.rs  -- write /verif/seeded/ID from a spec:
{"edits":[[file,old,new]...], "deps":"toml lines with @REPO@", "needs":..., "breaks":...}"""
import sys,json,os,subprocess
i,prop,spec,main=sys.argv[1:5]
s=json.load(open(spec)); d='/verif/seeded/'+i; os.makedirs(d,exist_ok=True)
assert subprocess.run('git -C /repo status --porcelain',shell=True,capture_output=True,text=True).stdout==''
try:
    for f,o,n in s['edits']:
        p='/repo/'+f; t=open(p).read(); assert t.count(o)==1,(f,o,t.count(o)); open(p,'w').write(t.replace(o,n))
    open(d+'/patch.diff','w').write(subprocess.run('git -C /repo diff',shell=True,capture_output=True,text=True).stdout)
finally: subprocess.run('git -C /repo checkout -q -- .',shell=True)
json.dump({"property":prop,"needs":s['needs'],"what_it_breaks":s['breaks']},open(d+'/meta.json','w'),indent=1)
open(d+'/main.rs','w').write(open(main).read())
std='''rand = "0.7"
rand_core = "0.5"
ark-ff = "0.2"
ark-ec = "0.2"
ark-poly = "0.2"
ark-std = "0.2"
ark-serialize = "0.2"
ark-bls12-381 = { version = "0.2", features = ["curve"] }
'''
open(d+'/deps.toml','w').write((std if s.get('std',True) else '')+s['deps'].strip()+'\n')
open(d+'/demo.sh','w').write('''#!/bin/bash
# exit 0: the tree keeps the property; nonzero: it breaks it.  Run with the repository as cwd.
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
d=$(mktemp -d) || exit 3
trap 'rm -rf "$d"' EXIT
mkdir "$d/src" && cp "$here/main.rs" "$d/src/main.rs" && cp "$repo/Cargo.lock" "$d/Cargo.lock"
{ printf '[package]\\nname = "demo"\\nversion = "0.0.0"\\nedition = "2018"\\n[workspace]\\n[profile.dev]\\nopt-level = 1\\ndebug = 0\\nincremental = false\\n[dependencies]\\n'
  sed "s#@REPO@#$repo#g" "$here/deps.toml"; } > "$d/Cargo.toml"
cd "$d" || exit 3
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
unset RUSTFLAGS CARGO_PROFILE_DEV_OPT_LEVEL CARGO_PROFILE_DEV_DEBUG CARGO_INCREMENTAL
export CARGO_TARGET_DIR="$d/target"
cargo build --offline --quiet || exit 3
"$d/target/debug/demo"
''')
print(open(d+'/patch.diff').read())
