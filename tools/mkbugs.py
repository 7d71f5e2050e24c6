#!/usr/bin/env python3
"""Creates seeded/<id>/ from the list below: textual edits of /repo (applied, diffed, undone), a demo and meta."""
import subprocess, os, json, sys
R='/repo'; SEED='/verif/seeded'
DEMO='''#!/bin/bash
# builds main.rs against ./midi2 of the current directory and runs it
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
export HOME=/root PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true RUST_BACKTRACE=0 RUSTC_WRAPPER=
w="/tmp/seed-demo-$$"
mkdir -p "$w/src"
cp "$here/main.rs" "$w/src/main.rs"
cat > "$w/Cargo.toml" <<TOML
[package]
name = "seed-demo"
version = "0.0.0"
edition = "2021"
[dependencies]
midi2 = { path = "$repo/midi2", default-features = false, features = [FEATURES] }
[workspace]
TOML
cp "$repo/Cargo.lock" "$w/Cargo.lock" 2>/dev/null || cp /opt/vp/Cargo.lock "$w/Cargo.lock"
cd "$w" && CARGO_TARGET_DIR="$w/target" cargo build --offline --quiet 2>"$w/err" || { cat "$w/err" >&2; exit 3; }
timeout 60 "$w/target/debug/seed-demo"
'''
# for properties about what must not compile: main.rs has to compile, refused.rs must not
REFUSE=DEMO.replace('cp "$here/main.rs" "$w/src/main.rs"','cp "$here/main.rs" "$w/src/main.rs"; mkdir "$w/src/bin"; cp "$here/refused.rs" "$w/src/bin/refused.rs"').replace('cargo build','cargo build --bin seed-demo')
REFUSE=REFUSE[:REFUSE.rindex('timeout')]+'''if CARGO_TARGET_DIR="$w/target" cargo build --offline --quiet --bin refused 2>"$w/err"; then echo "refused.rs compiles" >&2; exit 1; fi
grep -q "^error" "$w/err"
'''
ALL='"std", "channel-voice1", "channel-voice2", "flex-data", "sysex7", "sysex8", "system-common", "ump-stream", "utility", "ci"'
B={}
def bug(id,prop,edits,needs,breaks,main,features=ALL): B[id]=(prop,edits,needs,breaks,main,features)
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'bugs.py')).read())
sel=sys.argv[1:] or list(B)
assert not subprocess.run('git status --porcelain',shell=True,cwd=R,capture_output=True,text=True).stdout.strip()
for i in sel:
    prop,edits,needs,breaks,main,features=B[i]
    for f,old,new in edits:
        p=f'{R}/{f}'; s=open(p).read()
        assert s.count(old)==1,(i,f,s.count(old),old)
        open(p,'w').write(s.replace(old,new))
    d=subprocess.run('git diff',shell=True,cwd=R,capture_output=True,text=True).stdout
    # lines of the patch must be lines of the base
    subprocess.run('git checkout -q -- .',shell=True,cwd=R)
    os.makedirs(f'{SEED}/{i}',exist_ok=True)
    open(f'{SEED}/{i}/patch.diff','w').write(d)
    if isinstance(main,tuple): open(f'{SEED}/{i}/refused.rs','w').write(main[1])
    open(f'{SEED}/{i}/demo.sh','w').write((REFUSE if isinstance(main,tuple) else DEMO).replace('FEATURES',features)); os.chmod(f'{SEED}/{i}/demo.sh',0o755)
    open(f'{SEED}/{i}/main.rs','w').write(main[0] if isinstance(main,tuple) else main)
    json.dump({'property':prop,'needs':needs,'what_it_breaks':breaks},open(f'{SEED}/{i}/meta.json','w'),indent=1)
    # removed lines must exist in the base commit
    base=subprocess.run('git rev-list --max-parents=0 HEAD',shell=True,cwd=R,capture_output=True,text=True).stdout.split()[-1]
    for f,old,new in edits:
        bl=subprocess.run(f'git show {base}:{f}',shell=True,cwd=R,capture_output=True,text=True).stdout.splitlines()
        for l in d.splitlines():
            if l.startswith('-') and not l.startswith('---') and l[1:] not in bl: print(i,'NOT A BASE LINE',l)
