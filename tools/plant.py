#!/usr/bin/env python3
"""Author's tool: create and confirm a planted bug under /verif/seeded/<id>/.
usage: plant.py SPEC.py [--no-tests]   SPEC defines: id, property, needs, breaks, edits=[(file, old, new)], crates=[..], main (demo main.rs), lock ('h-rope'|...)
Confirms in a scratch copy of /repo: demo passes without, stable tests pass with, demo fails with the change."""
import sys, os, subprocess, json, shutil
REPO='/tmp/seedrepo'
def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
spec={}
exec(open(sys.argv[1]).read(), spec)
d=f"/verif/seeded/{spec['id']}"
if not os.path.isdir(REPO):
    sh(f"mkdir -p {REPO} && git -C /repo archive HEAD | tar x -C {REPO} && cd {REPO} && git init -q && git add -A && git -c user.name=x -c user.email=x commit -qm x")
head=sh("git -C /repo rev-parse HEAD").stdout.strip()
mark=f"{REPO}/.git/srchead"
if not os.path.exists(mark) or open(mark).read()!=head:
    sh(f"cd {REPO} && git ls-files | xargs -d '\\n' rm -f; git -C /repo archive HEAD | tar x -C {REPO} && git add -A && git -c user.name=x -c user.email=x commit -qm y")
    open(mark,'w').write(head)
sh(f"git -C {REPO} checkout -- .")
for f,old,new in spec['edits']:
    p=f"{REPO}/rust/{f}"; s=open(p).read()
    assert s.count(old)==1, (f, s.count(old))
    open(p,'w').write(s.replace(old,new))
diff=sh(f"git -C {REPO} diff").stdout
assert diff.strip()
os.makedirs(d, exist_ok=True)
open(f"{d}/patch.diff",'w').write(diff)
json.dump({"property":spec['property'],"needs":spec['needs'],"what_it_breaks":spec['breaks']}, open(f"{d}/meta.json",'w'), indent=1)
open(f"{d}/main.rs",'w').write(spec['main'].lstrip())
shutil.copy(f"/verif/{spec.get('lock','h-rope')}/Cargo.lock", f"{d}/Cargo.lock")
deps="".join(f'{c} = {{ path = "\'$repo\'/rust/{p}" }}\n' for c,p in spec['crates'])+spec.get('deps','')
open(f"{d}/demo.sh",'w').write(f'''#!/bin/bash
# exit 0: the property holds in this scenario; run with cwd = repository root
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
t="$(mktemp -d)"
trap 'rm -rf "$t"' EXIT
mkdir "$t/src"
cp "$here/main.rs" "$t/src/main.rs"
cp "$here/Cargo.lock" "$t/Cargo.lock"
echo '[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[workspace]
[dependencies]
{deps}[profile.dev]
debug = false
' > "$t/Cargo.toml"
cd "$t" || exit 3
export CARGO_TARGET_DIR="$t/target" RUSTFLAGS="-Awarnings"
cargo build --offline -q >"$t/log" 2>&1 || {{ tail -30 "$t/log"; exit 3; }}
{spec.get('pre','')}timeout 60 "$t/target/debug/demo" "$t"
rc=$?
[ $rc = 0 ] && echo "demo: holds" || echo "demo: broken (rc $rc)"
exit $rc
''')
os.chmod(f"{d}/demo.sh",0o755)
r=sh(f"cd {REPO} && {d}/demo.sh")
print("WITH patch:", r.returncode, r.stdout[-600:])
ok = r.returncode not in (0,3)
sh(f"git -C {REPO} apply -R {d}/patch.diff")
r=sh(f"cd {REPO} && {d}/demo.sh")
print("WITHOUT patch:", r.returncode, r.stdout[-600:])
ok = ok and r.returncode==0
if '--no-tests' not in sys.argv and ok:
    sh(f"git -C {REPO} apply {d}/patch.diff")
    pk={'rope':'xi-rope','unicode':'xi-unicode','rpc':'xi-rpc','trace':'xi-trace','core-lib':'xi-core-lib','plugin-lib':'xi-plugin-lib','lsp-lib':'xi-lsp-lib'}
    touched={f.split('/')[0] for f,_,_ in spec['edits']}
    users={'rope':['rope','core-lib'],'rpc':['rpc','core-lib'],'trace':['trace','rpc','core-lib'],'unicode':['unicode','core-lib']}
    cr=sorted({c for t in touched for c in users.get(t,[t])})
    for c in cr:
        r=sh(f"cd {REPO}/rust && cp Cargo.lock /tmp/lk 2>/dev/null; cargo test --offline -q --manifest-path /tmp/seedws/Cargo.toml --target-dir /tmp/seedtt -p {pk[c]}")
        t=[l for l in r.stdout.splitlines() if 'test result' in l or 'FAILED' in l or 'panicked' in l or l.startswith('error')]
        print(c, r.returncode, t)
        ok = ok and r.returncode==0
    sh(f"git -C {REPO} checkout -- .")
print("KEEP" if ok else "REJECT", spec['id'])
sys.exit(0 if ok else 1)
