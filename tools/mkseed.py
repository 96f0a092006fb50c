#!/usr/bin/env python3
"""mkseed.py <id> <property> <file> <old> <new> <main.rs> <needs> <breaks>: plant one bug (patch.diff, demo.sh, main.rs,
meta.json) under /verif/seeded/<id>, after confirming in a scratch copy that it builds, passes the stable tests, and that its demo
tells the two trees apart. Edits are given as a JSON list of [file, old, new] in place of <file> <old> <new>."""
import json, os, shutil, subprocess, sys
DEMO = '''#!/bin/bash
# exit 0 when the property holds on the tree in the current directory
here="$(cd "$(dirname "$0")" && pwd)"
repo="$(pwd)"
w="$(mktemp -d)"
trap 'find "$w" -delete' EXIT
mkdir -p "$w/src"
cp "$here/main.rs" "$w/src/main.rs"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$w/Cargo.lock"
cat > "$w/Cargo.toml" <<X
[package]
name = "demo"
version = "0.1.0"
edition = "2015"
[dependencies]
pt = { path = "$repo" }
[workspace]
X
cd "$w" || exit 2
RUSTFLAGS="--cfg pt_verif -Awarnings" CARGO_TARGET_DIR="$w/target" cargo run -q --offline
'''
def main(spec):
    d = spec['id']
    out = '/verif/seeded/' + d
    os.makedirs(out, exist_ok=True)
    scratch = '/tmp/sb/' + d
    if os.path.isdir(scratch): shutil.rmtree(scratch)
    shutil.copytree('/repo', scratch, symlinks=True)
    for f, old, new in spec['edits']:
        p = scratch + '/' + f
        s = open(p).read()
        assert s.count(old) == 1, (f, old, s.count(old))
        open(p, 'w').write(s.replace(old, new))
    diff = subprocess.run(['git', '-C', scratch, 'diff'], capture_output=True, text=True).stdout
    open(out + '/patch.diff', 'w').write(diff)
    open(out + '/main.rs', 'w').write(spec['main'])
    open(out + '/demo.sh', 'w').write(DEMO); os.chmod(out + '/demo.sh', 0o755)
    json.dump(dict(property=spec['property'], needs=spec['needs'], what_it_breaks=spec['breaks']), open(out + '/meta.json', 'w'), indent=1)
    a = subprocess.run(['bash', out + '/demo.sh'], cwd='/repo', capture_output=True, text=True)
    b = subprocess.run(['bash', out + '/demo.sh'], cwd=scratch, capture_output=True, text=True)
    t = subprocess.run('RUSTFLAGS=-Awarnings cargo test -q --offline 2>&1 | grep "test result" | head -3', shell=True, cwd=scratch, capture_output=True, text=True)
    print(d, 'clean', a.returncode, a.stderr[-300:] if a.returncode else '', '| planted', b.returncode, b.stderr[-160:].strip(), '|', t.stdout.strip()[:200])
    shutil.rmtree(scratch)
if __name__ == '__main__':
    for f in sys.argv[1:]:
        main(json.load(open(f)) if f.endswith('.json') else eval(open(f).read()))
