#!/usr/bin/env python3
"""Development aid: builds /verif/seeded/<id>/ from tools/seeds/*.py and tries them.

  mkseed.py gen [ids]     write the folders
  mkseed.py test [ids]    in a scratch copy: builds, passes tests, demo fails with / passes without
  mkseed.py catch [ids]   run the property's check on a scratch copy with the change applied
"""
import glob, json, os, re, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDS = {}
def seed(sid, prop, edits, demo_file, demo, needs, breaks):
    SEEDS[sid] = dict(prop=prop, edits=edits, demo_file=demo_file, demo=demo, needs=needs, breaks=breaks)
for f in sorted(glob.glob(os.path.join(V, "tools/seeds/*.py"))):
    exec(compile(open(f).read(), f, "exec"), dict(seed=seed))
DEMO = '''#!/bin/bash
# Appends demo.rs (a unit test) to a scratch copy of the sources and runs it there.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:/root/.cargo/bin HOME=/root
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TERM_COLOR=never RUSTC_WRAPPER=
work=$(mktemp -d /tmp/vpdemo.XXXXXX) || exit 2
trap 'cd /; rm -rf "$work"' EXIT
mkdir "$work/crate" && cp -a "$repo/src" "$repo/Cargo.toml" "$repo/Cargo.lock" "$work/crate/" || exit 2
[ -d "$repo/resources" ] && cp -a "$repo/resources" "$work/crate/"
cat "$here/demo.rs" >> "$work/crate/@FILE@" || exit 2
mkdir -p "$work/target/debug"
for d in deps build .fingerprint; do [ -d "$repo/target/debug/$d" ] && cp -a "$repo/target/debug/$d" "$work/target/debug/"; done
cd "$work/crate" || exit 2
CARGO_TARGET_DIR="$work/target" timeout 250 cargo test --offline vp_demo -- --test-threads 1 2>&1 | tail -40 | tee "$work/log"
grep -q "test result: ok. [1-9]" "$work/log"
'''
def gen(sid):
    s = SEEDS[sid]
    d = os.path.join(V, "seeded", sid)
    os.makedirs(d, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="vpseed", dir="/tmp")
    try:
        subprocess.run("git -C /repo archive HEAD | tar -x -C %s" % tmp, shell=True, check=True)
        subprocess.run("git init -q . && git add -A && git -c user.name=a -c user.email=a@b commit -qm x", shell=True, check=True, cwd=tmp)
        for f, old, new in s["edits"]:
            p = os.path.join(tmp, f)
            t = open(p).read()
            assert t.count(old) == 1, (sid, f, t.count(old), old)
            open(p, "w").write(t.replace(old, new))
        diff = subprocess.run(["git", "diff"], cwd=tmp, capture_output=True, text=True).stdout
    finally:
        shutil.rmtree(tmp)
    f = None
    for l in diff.splitlines():
        if l.startswith("--- a/"): f = subprocess.run(["git", "-C", "/repo", "show", "633dda0:" + l[6:]], capture_output=True, text=True).stdout.splitlines()
        elif l.startswith("-") and not l.startswith("---") and l[1:] not in f: print(sid, "WARNING not an original line:", l)
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    open(os.path.join(d, "demo.sh"), "w").write(DEMO.replace("@FILE@", s["demo_file"]))
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    open(os.path.join(d, "demo.rs"), "w").write("\n#[cfg(test)]\nmod vp_demo {\n" + s["demo"].strip("\n") + "\n}\n")
    json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
def scratch(apply=None):
    tmp = tempfile.mkdtemp(prefix="vpseed", dir="/tmp")
    r = os.path.join(tmp, "repo")
    subprocess.run(["cp", "-a", "/repo", r], check=True)
    if apply:
        subprocess.run(["git", "apply", os.path.join(V, "seeded", apply, "patch.diff")], cwd=r, check=True)
    return tmp, r
def test(ids):
    # one clean tree for all demos, one tree reused for all patches
    env = dict(os.environ)
    tmp, r = scratch()
    ts = open("/opt/vp/test.sh").read().replace("/repo", r)
    open(tmp + "/test.sh", "w").write(ts)
    try:
        for sid in ids:
            d = os.path.join(V, "seeded", sid)
            clean = subprocess.run(["bash", d + "/demo.sh"], cwd=r, capture_output=True, text=True)
            subprocess.run(["git", "apply", d + "/patch.diff"], cwd=r, check=True)
            t = subprocess.run(["bash", tmp + "/test.sh", tmp + "/out.json"], capture_output=True, text=True)
            base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
            o = json.load(open(tmp + "/out.json"))
            dirty = subprocess.run(["bash", d + "/demo.sh"], cwd=r, capture_output=True, text=True)
            subprocess.run(["git", "checkout", "-q", "--", "."], cwd=r, check=True)
            why = "compile error in demo?" if "could not compile" in dirty.stdout else ""
            print(sid, "clean demo rc", clean.returncode, "| patched demo rc", dirty.returncode, why, "| stable tests failing:", sorted(base - set(o.get("passed", []))))
            if clean.returncode != 0: print('\n'.join(l for l in clean.stdout.splitlines() if 'error' in l or 'panicked' in l or l.startswith(' -->'))[-1500:])
            if dirty.returncode == 0 or why: print(dirty.stdout[-600:])
    finally:
        shutil.rmtree(tmp)
def catch(ids):
    for sid in ids:
        tmp, r = scratch(sid)
        try:
            env = dict(os.environ, VP_REPO=r)
            p = subprocess.run(["python3", V + "/tools/vp.py", "check", SEEDS[sid]["prop"]], env=env, cwd=V, capture_output=True, text=True)
            print(sid, SEEDS[sid]["prop"], "rc", p.returncode, p.stdout.strip()[-600:])
        finally:
            shutil.rmtree(tmp)
if __name__ == "__main__":
    ids = [i for i in SEEDS if not sys.argv[2:] or any(re.fullmatch(a, i) or SEEDS[i]["prop"] == a for a in sys.argv[2:])]
    if sys.argv[1] == "gen":
        for i in ids: gen(i)
    elif sys.argv[1] == "test": test(ids)
    elif sys.argv[1] == "catch": catch(ids)
