#!/usr/bin/env python3
"""Driver of the contract checks.

  vp.py check <ID>     decide property <ID> on /repo's current tree (tier from VERIF_TIER)
  vp.py setup          prebuild the dependencies of the harness crate
  vp.py stage <ID>     only stage the sources (development aid)

What a check does, every time it runs:
  1. stages the sources: copies every .rs file of /repo/src except main.rs and config.rs,
     unchanged but for two mechanical token rewrites (see `rewrite`), and appends to the
     files a property is anchored in a `#[cfg(kani)] mod` holding the contracts/harnesses
     from /verif/contracts (they need access to private items);
  2. compiles that crate with Kani against the stand-in dependencies in /verif/shims and
     lets CBMC discharge every obligation of every contract harness of the property;
  3. optionally runs the Verus layer (tools/verus_layer.py) on functions extracted from the
     same sources;
  4. for a failed obligation asks for the counterexample, replays it natively on the staged
     code, and reports;
  5. writes /verif/evidence/<ID>.json.
"""
import json, os, re, shutil, subprocess, sys, time, glob

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
WORK = os.environ.get("VP_WORK", os.path.join(VERIF, "work"))
TARGET = os.path.join(WORK, "target")
REPLAYS = os.path.join(VERIF, "replays")
sys.path.insert(0, os.path.join(VERIF, "tools"))
from registry import PROPS, DROPPED_FILES  # noqa: E402
from deasync import close, deasync, formats, spans  # noqa: E402

ENV = dict(os.environ)
ENV.update(CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0")
for k in ("RUSTC_WRAPPER", "RUSTFLAGS", "RUSTUP_TOOLCHAIN", "CARGO_TARGET_DIR", "CARGO_PROFILE_DEV_DEBUG"):
    ENV.pop(k, None)
ENV.setdefault("HOME", "/root")
if "/root/.cargo/bin" not in ENV.get("PATH", "") and os.path.isdir("/root/.cargo/bin"):
    ENV["PATH"] = ENV.get("PATH", "") + ":/root/.cargo/bin"

STD = re.compile(r"(?<![A-Za-z0-9_:])(::)?std::")
USE_STD_AS = re.compile(r"(?<![A-Za-z0-9_:])use std;")
VEC_NEW = re.compile(r"(?<![A-Za-z0-9_:])Vec::new\(\)")
VEC_CAP = re.compile(r"(?<![A-Za-z0-9_:])Vec::with_capacity\(")
CFG_TEST = re.compile(r"(#!?\[\s*cfg(?:_attr)?\s*\([^\]]*?)\btest\b")


ENUM = re.compile(r"^([ \t]*)((?:pub(?:\([a-z ]+\))?[ \t]+)?enum[ \t]+\w+[^;{}()]*\{)", re.M)


def tag_enums(text):
    """`enum E {..}` with data -> `#[repr(u8)] enum E {..}`: the discriminant gets a field of its
    own, which the model checker tracks better than a niche. Safe code cannot tell the two apart."""
    out, pos = [], 0
    for m in ENUM.finditer(text):
        i, d = m.end(), 1
        while i < len(text) and d:
            d += {"{": 1, "}": -1}.get(text[i], 0)
            i += 1
        head = text[:m.start()].rsplit("}", 1)[-1].rsplit(";", 1)[-1]
        if ("(" in text[m.end():i] or "{" in text[m.end():i]) and "repr(" not in head:
            out.append(text[pos:m.start()] + m.group(1) + "#[repr(u8)] " + m.group(2))
            pos = m.end()
    return "".join(out) + text[pos:]


def rewrite(text):
    """The whole extraction: token-level rewrites.

    * `std::` -> `vstd_shim::` so that HashMap/HashSet resolve to the finite-map model (all
      other items of std are re-exported unchanged);
    * data-carrying enums get an explicit tag (see tag_enums);
    * `Vec::new()`/`Vec::with_capacity(..)` get a fixed capacity (see shims/vstd);
    * `test` inside `#[cfg(..)]` -> `vp_never` so that the repository's own unit tests are not
      compiled into the native replay binary.
    """
    text = CFG_TEST.sub(r"\1vp_never", text)
    text = VEC_NEW.sub("vstd_shim::vec_new()", text)
    text = VEC_CAP.sub("vstd_shim::vec_with_capacity(", text)
    return tag_enums(STD.sub("vstd_shim::", text))


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    try:
        if open(path).read() == text:
            return
    except OSError:
        pass
    with open(path, "w") as f:
        f.write(text)


CARGO_TOML = """[package]
name = "nargun_k"
version = "0.0.0"
edition = "2021"
[lib]
path = "src/vp_lib.rs"
[dependencies]
vstd_shim = {{ path = "{v}/shims/vstd", features = ["cap{cap}"{vec}] }}
anyhow = {{ path = "{v}/shims/anyhow" }}
tracing = {{ path = "{v}/shims/tracing" }}
rand = {{ path = "{v}/shims/rand" }}
openssl = {{ path = "{v}/shims/openssl" }}
home = {{ path = "{v}/shims/home" }}
tokio = {{ path = "{v}/shims/tokio" }}
igd = {{ path = "{v}/shims/igd" }}
local-ip-address = {{ path = "{v}/shims/local_ip_address" }}
reqwest = {{ path = "{v}/shims/reqwest" }}
serde = {{ version = "=1.0.152", features = ["derive"] }}
bincode = "=1.3.3"
{bendy}
async-trait = "=0.1.66"
urlencoding = "=2.1.2"
futures = "0.3.24"
{extra}
[workspace]
[profile.dev]
debug = 1
"""


CURRENT = {}


def items(text):
    """The harnesses of a contract file as (first offset, end offset, name)."""
    code, out = spans(text), []
    bodies = dict(re.findall(r"macro_rules!\s+(\w+)\s*\{((?:(?!\nmacro_rules!|\n\}).)*)", text, re.S))
    macros = {k for k, b in bodies.items() if "kani::proof" in b}
    for _ in range(3):
        macros |= {k for k, b in bodies.items() if any(re.search(r"\b%s!\(\s*\$name" % m, b) for m in macros)}
    for m in HDR.finditer(text):
        if "kani::proof" in m.group(1) and not m.group(2).startswith("$") and m.start(2) and code[m.start(2)] and not re.match(r"[ \t]", text[text.rfind("\n", 0, m.start(2)) + 1:]):
            i = close(text, code, text.index("(", m.start(2)))
            while not (text[i] == "{" and code[i]):
                i += 1
            out.append((m.start(), close(text, code, i), m.group(2)))
    for m in MAC.finditer(text):
        if m.group(2) in macros and code[m.start(2)]:
            i = close(text, code, text.index("(", m.end(2)))
            out.append((m.start(), i + (text[i:i + 1] == ";"), m.group(3)))
    return out


def cut_harnesses(text, names):
    """Blank out harnesses (lines are kept, so that positions stay the same)."""
    for a, b, n in items(text):
        if n in names:
            text = text[:a] + re.sub(r"[^\n]", " ", text[a:b]) + text[b:]
    return text


def broken(cf, lines):
    """Which harnesses of a contract file the errors at `lines` are in; None if one is elsewhere."""
    text = open(os.path.join(VERIF, "contracts", cf)).read()
    its = [(text.count("\n", 0, a) + 1, text.count("\n", 0, b) + 1, n) for a, b, n in items(text)]
    out = set()
    for l in lines:
        n = next((n for a, b, n in its if a <= l <= b), None)
        if n is None:
            return None
        out.add(n)
    return out


def stage(pid, mods=None, playback=None, cut={}):
    """Stage the crate of property `pid`; returns (crate dir, list of contract modules)."""
    spec = PROPS[pid]
    crate = os.path.join(WORK, pid)
    src = os.path.join(crate, "src")
    if os.path.isdir(src):
        shutil.rmtree(src)
    root = os.path.join(REPO, "src")
    mods = spec["mods"] if mods is None else mods
    present = []
    for dirpath, _d, files in os.walk(root):
        for fn in sorted(files):
            if not fn.endswith(".rs"):
                continue
            p = os.path.join(dirpath, fn)
            rel = os.path.relpath(p, root)
            if rel in DROPPED_FILES:
                continue
            text = rewrite(open(p).read())
            if spec.get("deasync") is True or rel in (spec.get("deasync") or []):
                text = deasync(text)
            if rel in spec.get("formats", []):
                text = formats(text)
            for cfile, name, value in spec.get("consts", []):
                if cfile == rel:
                    # the original value stays visible to the contracts as VP_ORIG_<name>
                    text = re.sub(r"(\bconst\s+)%s(\s*:[^=;]*=)([^;]*;)" % name, r"\g<1>%s\g<2> %s; pub(crate) const VP_ORIG_%s\g<2>\g<3>" % (name, value, name), text)
            here = [m for m in mods + spec.get("shared", []) if m[0] == rel]
            for (_f, cf) in here:
                name = "vp_" + os.path.splitext(os.path.basename(cf))[0]
                body = cut_harnesses(open(os.path.join(VERIF, "contracts", cf)).read(), cut.get(cf, ()))
                if playback and playback[0] == cf:
                    body += "\n" + playback[1]
                write(os.path.join(crate, "contracts", cf), body)
                text += '\n#[cfg(kani)]\n#[path = "%s"]\npub(crate) mod %s;\n' % (
                    os.path.join(crate, "contracts", cf), name)
                if (rel, cf) in mods:
                    present.append((rel, cf))
            write(os.path.join(src, rel), text)
    main = open(os.path.join(root, "main.rs")).read()
    names = re.findall(r"^\s*(?:pub(?:\([a-z]+\))?\s+)?mod\s+([a-z_0-9]+)\s*;", main, re.M)
    lib = "#![allow(warnings)]\n#![feature(allocator_api)]\n"
    lib += "".join("pub mod %s;\n" % n for n in names if n + ".rs" not in DROPPED_FILES)
    shutil.copy(os.path.join(VERIF, "contracts", "common.rs"), os.path.join(crate, "common.rs")) if os.path.isdir(crate) else None
    write(os.path.join(crate, "common.rs"), open(os.path.join(VERIF, "contracts", "common.rs")).read())
    lib += '#[cfg(kani)]\n#[path = "%s"]\npub mod vph;\n' % os.path.join(crate, "common.rs")
    write(os.path.join(src, "vp_lib.rs"), lib)
    write(os.path.join(crate, "Cargo.toml"), CARGO_TOML.format(v=VERIF, extra="", bendy=('bendy = { path = "%s/shims/bendy" }' % VERIF if spec.get("bendy") == "model" else 'bendy = { version = "=0.4.0-beta.2", features = ["std", "serde"] }'), cap=spec.get("cap", 4), vec=', "vec256"' if spec.get("bytes") else ""))
    shutil.copy(os.path.join(VERIF, "tools", "Cargo.lock.harness"), os.path.join(crate, "Cargo.lock"))
    os.makedirs(os.path.join(crate, ".cargo"), exist_ok=True)
    write(os.path.join(crate, ".cargo", "config.toml"), "[build]\nrustflags = []\n")
    return crate, present


def consts_note(spec):
    da = spec.get("deasync")
    return (["async fns are verified as functions that run to completion when called (tools/deasync.py): no other task runs between two of their awaits" + ("" if da is True else " (%s)" % ", ".join(da))] if da else []) + ["scaled in the bounded harnesses of this property: %s = %s (%s)" % (n, v, f) for f, n, v in spec.get("consts", [])]


HDR = re.compile(r"((?:^[ \t]*//[^\n]*\n|^[ \t]*#\[[^\n]*\]\s*\n)*)^[ \t]*(?:pub\s+)?(?:async\s+)?fn\s+([a-z_0-9A-Z]+)\s*\(", re.M)

MAC = re.compile(r"((?:^[ \t]*//[^\n]*\n)*)^(\w+)!\(\s*(\w+)\b", re.M)


def harnesses(present, tier):
    """Harness list of the contract files, with the notes in the comments above each."""
    out = []
    for rel, cf in present:
        text = open(os.path.join(VERIF, "contracts", cf)).read()
        modpath = "::".join([x for x in rel[:-3].split("/") if x not in ("mod",)])
        modname = "vp_" + os.path.splitext(os.path.basename(cf))[0]
        found = [(m.group(1), m.group(2)) for m in HDR.finditer(text) if "kani::proof" in m.group(1)]
        bodies = dict(re.findall(r"macro_rules!\s+(\w+)\s*\{((?:(?!\nmacro_rules!|\n\}).)*)", text, re.S))
        macros = {k for k, b in bodies.items() if "kani::proof" in b}
        for _ in range(3):
            macros |= {k for k, b in bodies.items() if any(re.search(r"\b%s!\(\s*\$name" % m, b) for m in macros)}
        found += [(m.group(1), m.group(3)) for m in MAC.finditer(text) if m.group(2) in macros]
        for head, name in found:
            if name.startswith("$"):
                continue
            notes = {}
            for k, v in re.findall(r"//\s*@(\w+):?\s*([^\n]*)", head):
                notes[k] = (notes[k] + " " + v.strip()) if k in notes else v.strip()
            if notes.get("tier") == "thorough" and tier != "thorough":
                continue
            out.append(dict(file=rel, contract=cf, name=name, full="%s::%s::%s" % (modpath, modname, name), notes=notes))
    return out


def run(cmd, cwd, timeout, log):
    t = time.time()
    with open(log, "w") as f:
        p = subprocess.Popen(cmd, cwd=cwd, env=ENV, stdout=f, stderr=subprocess.STDOUT, start_new_session=True)
        try:
            rc = p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            p.wait()
            rc = -9
    return rc, time.time() - t


KFLAGS = ["-Z", "unstable-options", "-Z", "stubbing", "-Z", "function-contracts"]


def kani(crate, hs, timeout, per, log, js, jobs=8, extra=()):
    cmd = ["cargo", "kani", "--target-dir", TARGET] + KFLAGS + ["--no-assertion-reach-checks", "--exact",
           "--output-format", "terse", "-j", str(jobs), "--harness-timeout", "%ds" % per,
           "--export-json", js]
    for h in hs:
        cmd += ["--harness", h["full"]]
    cmd += list(extra)
    if os.path.exists(js):
        os.remove(js)
    return run(cmd, crate, timeout, log)


NATIVE = ["env", "CARGO_TARGET_DIR=" + os.path.join(WORK, "target-native"), "cargo", "kani", "playback", "-Z", "concrete-playback"]
SOFT = ("unsupported_construct", "unwind")


def classify(checks):
    """-> (hard failures, soft failures, number of obligations, number discharged, covers)"""
    hard, soft, n, ok = [], [], 0, 0
    covers = []
    for c in checks:
        cat = c.get("category") or ""
        st = c.get("status")
        d = c.get("description") or ""
        if cat == "cover" or st in ("Satisfied", "Unsatisfiable"):
            covers.append((d, st, c.get("location", {})))
            continue
        n += 1
        if st in ("Success", "Unreachable"):
            ok += 1
        elif st == "Failure":
            if cat in SOFT or "unwinding assertion" in d or "vp-model" in d or "not currently supported by Kani" in d:
                soft.append(c)
            else:
                hard.append(c)
        else:
            soft.append(c)
    if any(cat_unwind(c) for c in soft):
        pass
    return hard, soft, n, ok, covers


def cat_unwind(c):
    return (c.get("category") == "unwind") or "unwinding assertion" in (c.get("description") or "")


def loc(c):
    l = c.get("location") or {}
    return "%s:%s in %s" % (l.get("file"), l.get("line"), c.get("function"))


def playback(pid, crate, h, per):
    """Ask for the counterexample of harness h and run it natively. -> (text, reproduced)"""
    log = os.path.join(WORK, "%s.playback.log" % pid)
    cmd = ["cargo", "kani", "--target-dir", TARGET] + KFLAGS + ["-Z", "concrete-playback", "--concrete-playback=print",
           "--exact", "--output-format", "terse", "--no-assertion-reach-checks", "--harness-timeout", "%ds" % per, "--harness", h["full"]]
    run(cmd, crate, per + 120, log)
    text = open(log, errors="replace").read()
    tests = [t for t in re.findall(r"```\n(.*?)```", text, re.S) if "Check for `cover`" not in t]
    if not tests:
        return text[-6000:], False
    # one test per failing check; keep those, distinct names
    body = "\n".join(t for t in tests)
    stage(pid, CURRENT.get("mods"), playback=(h["contract"], body), cut=CURRENT.get("cut", {}))
    names = re.findall(r"fn (kani_concrete_playback_\w+)\(", body)
    plog = os.path.join(WORK, "%s.native.log" % pid)
    rc, _ = run(NATIVE + ["--", "--test-threads=1"], crate, 400, plog)
    native = open(plog, errors="replace").read()
    repro = re.search(r"test result: FAILED", native) is not None
    stage(pid, CURRENT.get("mods"), cut=CURRENT.get("cut", {}))
    return ("== counterexample (concrete values of the harness' symbolic inputs) ==\n" + body +
            "\n== native run of the counterexample on the staged code ==\n" + native[-5000:]), repro


def repo_rev():
    try:
        return subprocess.run(["git", "-C", REPO, "rev-parse", "HEAD"], capture_output=True, text=True).stdout.strip()
    except OSError:
        return ""


def known_findings(pid):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            m = re.match(r"known: property=(\S+) harness=(\S+) check=\"(.*?)\" (.*)$", line)
            if m and m.group(1) == pid:
                out.append(dict(harness=m.group(2), check=m.group(3), text=m.group(4)))
    return out


def check(pid):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    spec = PROPS[pid]
    os.makedirs(WORK, exist_ok=True)
    os.makedirs(REPLAYS, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    budget = 840 if tier == "quick" else 6 * 3600
    per = spec.get("per", 400) if tier == "quick" else spec.get("per_thorough", 7200)
    log, js = os.path.join(WORK, pid + ".log"), os.path.join(WORK, pid + ".json")

    mods = list(spec["mods"])
    lost, results, hs, present = [], {}, [], []
    compile_error = ""
    cut = {}
    for _attempt in range(6):
        crate, present = stage(pid, mods, cut=cut)
        lost += [m for m in mods if m not in present and m not in lost]
        hs = [h for h in harnesses(present, tier) if h["name"] not in cut.get(h["contract"], ())]
        if not hs:
            break
        rc, _dt = kani(crate, hs, max(60, budget - (time.time() - t0)), per, log, js, jobs=spec.get("jobs", 8))
        if os.path.exists(js):
            break
        out = open(log, errors="replace").read()
        at = {}
        for block in re.split(r"\n(?=error)", out) if "could not compile" in out else []:
            if block.startswith("error"):
                m = re.search(r"-->\s*\S*contracts/([A-Za-z0-9_/]+\.rs):(\d+)", block)
                if m:
                    # an error in the body of a macro belongs to the invocation shown with it
                    at.setdefault(m.group(1), set()).add(int(m.group(2)))
                    inv = re.search(r"^(\d+)\s*\|[^\n]*\n[^\n]*in this macro invocation", block, re.M)
                    if inv:
                        at[m.group(1)].discard(int(m.group(2)))
                        at[m.group(1)].add(int(inv.group(1)))
        bad = set()
        for cf, lines in at.items():
            names = broken(cf, lines)
            if names is None or not names - cut.get(cf, set()):
                bad.add(cf)
            else:
                cut[cf] = cut.get(cf, set()) | names
        compile_error = "\n".join(l for l in out.splitlines() if "error" in l or "-->" in l)[-3000:]
        nm = [m for m in mods if m[1] not in bad]
        if not at or (len(nm) == len(mods) and not any(cf in cut for cf in at)):
            break
        lost += [m for m in mods if m[1] in bad]
        mods = nm
    CURRENT.update(mods=mods, cut=cut)
    lost += [(cf, n) for cf in sorted(cut) for n in sorted(cut[cf]) if (cf, n) not in lost]
    data = json.load(open(js)) if os.path.exists(js) else {}
    res = {r["harness_id"]: r for r in data.get("verification_results", {}).get("results", [])}
    cb = {r["harness_id"]: r.get("cbmc_stats") or {} for r in data.get("cbmc", [])}

    obligations = discharged = 0
    solver_s = 0.0
    rows, viol, undecided = [], [], []
    for h in hs:
        r = res.get(h["full"])
        if r is None:
            undecided.append(dict(harness=h["full"], why="no result (not run)"))
            continue
        hard, soft, n, ok, covers = classify(r.get("checks") or [])
        st = cb.get(h["full"], {})
        solver_s += float(st.get("runtime_decision_procedure_s") or 0) + float(st.get("runtime_symex_s") or 0)
        unsat = [c for c in covers if c[1] not in ("Satisfied", "Success")]
        row = dict(harness=h["full"], status=r.get("status"), obligations=n, discharged=ok,
                   covers_reached=len(covers) - len(unsat), covers=len(covers), ms=r.get("duration_ms"), **h["notes"])
        rows.append(row)
        obligations += n
        discharged += ok
        if hard:
            viol.append((h, hard, soft))
        elif r.get("status") != "Success" or n == 0:
            why = ("not discharged: " + "; ".join(sorted({(c.get("description") or "") + " @ " + loc(c) for c in soft})[:3])) if soft else "no answer within the time limit"
            undecided.append(dict(harness=h["full"], why=why[:600]))
        elif unsat or not covers:
            undecided.append(dict(harness=h["full"], why="vacuity guard: a reachability cover of the harness is not satisfiable"))

    verus = None
    if spec.get("verus"):
        import verus_layer
        verus = verus_layer.run_property(pid, spec["verus"], REPO, os.path.join(WORK, pid), tier)
        obligations += verus["obligations"]
        discharged += verus["discharged"]
        solver_s += verus["solver_s"]
        for u in verus["undecided"]:
            undecided.append(u)

    known = known_findings(pid)
    reports, kf_lines, kf_done = [], [], set()
    for h, hard, soft in viol:
        rest = []
        for c in hard:
            k = next((k for k in known if k["harness"] == h["name"] and k["check"] in (c.get("description") or "")), None)
            if k:
                if id(k) not in kf_done:
                    kf_done.add(id(k))
                    kf_lines.append("KNOWN-FINDING: property=%s %s" % (pid, k["text"]))
            else:
                rest.append(c)
        if not rest:
            continue
        path = os.path.join(REPLAYS, "%s-%s.txt" % (pid, h["name"]))
        left = budget - (time.time() - t0)
        body, repro = "", False
        # an inductive step starts in an arbitrary private state: its counterexample is no input
        if left > 60 and "induction" not in h["notes"] and len(reports) < 3 and not any(r[1] for r in reports):
            try:
                body, repro = playback(pid, crate, h, int(min(per * 2, left - 30)))
            except Exception as e:  # the report must not depend on the replay working
                body = "replay failed: %r" % (e,)
        with open(path, "w") as f:
            f.write("property %s violated\nharness  %s (contract file /verif/contracts/%s, on %s of /repo %s)\n" % (pid, h["full"], h["contract"], h["file"], repo_rev()))
            f.write("claim    %s\n\nfailed obligations:\n" % h["notes"].get("claim", ""))
            for c in rest:
                f.write("  - [%s] %s\n      at %s\n" % (c.get("category"), c.get("description"), loc(c)))
            f.write("\nreproduce: VERIF_TIER=%s python3 %s/tools/vp.py check %s\n\n" % (tier, VERIF, pid))
            f.write(body)
        reports.append((path, repro))
    if verus:
        for v in verus["violations"]:
            path = os.path.join(REPLAYS, "%s-verus-%s.txt" % (pid, v["name"]))
            with open(path, "w") as f:
                f.write("property %s: Verus obligation failed\nfunction %s\n\n%s\n" % (pid, v["name"], v["output"]))
            # a Verus failure alone is reported only if the bounded/complete Kani layer did not
            # decide the same function; see DESIGN.md
            reports.append((path, False))

    decided = [r for r in rows if r["status"] == "Success" and not any(u["harness"] == r["harness"] for u in undecided)]
    wall = time.time() - t0
    bounded = [r for r in rows if r.get("bound")]
    full = [r for r in rows if not r.get("bound")]
    vo, vd = (verus["obligations"], verus["discharged"]) if verus else (0, 0)
    n_full, d_full = sum(r["obligations"] for r in full) + vo, sum(r["discharged"] for r in full) + vd
    n_b, d_b = sum(r["obligations"] for r in bounded), sum(r["discharged"] for r in bounded)
    cmd = "VERIF_TIER=%s python3 tools/vp.py check %s" % (tier, pid)
    cov = dict(obligations=n_full, discharged=d_full, checker_cmd=cmd,
               trusted_base=spec.get("trusted", []) + COMMON_TRUST,
               bounded_obligations=n_b, bounded_discharged=d_b,
               harnesses_full_domain=len(full), harnesses_bounded=len(bounded),
               functions_under_contract=spec.get("functions", []),
               back_end="Kani 0.68.0 / CBMC 6.11.0 / CaDiCaL" + ("; Verus 0.2026.09.13 / Z3" if spec.get("verus") else ""),
               solver_s=round(solver_s, 2),
               harnesses=[{k: v for k, v in r.items() if k in ("harness", "status", "obligations", "discharged", "covers_reached", "claim", "bound", "induction", "ms")} for r in rows],
               undecided=undecided, lost_anchors=[list(m) for m in lost],
               explanation="Each harness is a function contract: it calls the real function on symbolic arguments and asserts the postcondition; CBMC discharges every generated obligation. Harnesses with a 'bound' are bounded stand-ins and are counted separately.",
               verus={k: verus[k] for k in ("functions", "obligations", "discharged", "dropped", "solver_s")} if verus else None,
               known_findings=kf_lines, replays=[r[0] for r in reports], repo=repo_rev())
    ev = dict(property=pid, tier=tier, seed=seed, level=spec["level"], coverage=cov,
              assumptions=spec.get("assumptions", []) + consts_note(spec), wall_s=round(wall, 2), violations=len(reports))
    summary = "%d harnesses (%d full-domain, %d bounded), %d/%d obligations proved, %d/%d bounded%s" % (
        len(rows), len(full), len(bounded), d_full, n_full, d_b, n_b, ", undecided: %d" % len(undecided) if undecided else "")
    write(os.path.join(VERIF, "evidence", pid + ".json"), json.dumps(ev, indent=1)[:64000] + "\n")
    for l in kf_lines:
        print(l)
    for u in undecided:
        print("UNDECIDED: property=%s %s: %s" % (pid, u["harness"], u["why"]))
    if lost:
        print("LOST-ANCHOR: property=%s %s" % (pid, lost))
    if reports:
        best = next((r for r in reports if r[1]), reports[0])
        print("VIOLATION property=%s replay=%s%s" % (pid, best[0], "" if best[1] else " no-failing-input-found"))
        return 1
    if not decided and not (verus and verus["discharged"]):
        print("ERROR: property=%s nothing could be decided\n%s" % (pid, compile_error or open(log, errors="replace").read()[-3000:]))
        return 2
    print("OK property=%s: %s (%.0f s)" % (pid, summary, wall))
    return 0


COMMON_TRUST = [
    "Kani 0.68.0, CBMC 6.11.0, CaDiCaL, rustc nightly-2026-08-21 (MIR semantics)",
    "the staging rewrites of tools/vp.py (std:: -> vstd_shim::, cfg(test) disabled); main.rs and config.rs are dropped",
    "the stand-in crates in /verif/shims: HashMap/HashSet as finite maps, anyhow errors as opaque values, tracing as no-op, rand as arbitrary bits, SHA-1 as an uninterpreted function, tokio fs/net/time models where used",
    "termination is not proved (loops are unwound completely under unwinding assertions)",
]


def setup():
    os.makedirs(WORK, exist_ok=True)
    pid = "P02"
    crate, present = stage(pid)
    hs = harnesses(present, "quick")
    log = os.path.join(WORK, "setup.log")
    rc, dt = kani(crate, hs[:1], 1200, 300, log, os.path.join(WORK, "setup.json"))
    print("kani build rc=%s %.0fs" % (rc, dt))
    rc2, dt2 = run(NATIVE + ["--", "--list"], crate, 500, log + ".native")
    print("native build rc=%s %.0fs" % (rc2, dt2))
    return 0 if os.path.exists(os.path.join(WORK, "setup.json")) else 1


def try_(pid, sub, per):
    """Development aid: run the harnesses of `pid` whose name contains `sub`."""
    crate, present = stage(pid)
    hs = [h for h in harnesses(present, "thorough") if re.search(sub, h["name"])]
    log, js = os.path.join(WORK, pid + ".try.log"), os.path.join(WORK, pid + ".try.json")
    rc, dt = kani(crate, hs, 3600, per, log, js, jobs=PROPS[pid].get('jobs', 8), extra=os.environ.get('VP_EXTRA', '').split())
    if not os.path.exists(js):
        out = open(log, errors="replace").read()
        print("\n".join(re.findall(r"^error[^\n]*\n(?:[^\n]*\n){0,14}", out, re.M))[-5000:] or out[-3000:])
        return 1
    data = json.load(open(js))
    for r in data["verification_results"]["results"]:
        hard, soft, n, ok, covers = classify(r.get("checks") or [])
        print("%-9s %-40s %6.1fs %d/%d covers %s" % (r.get("status"), r["harness_id"].split("::")[-1], (r.get("duration_ms") or 0) / 1e3, ok, n, [c[1][:3] for c in covers]))
        for c in (hard + sorted(soft, key=lambda c: c.get("status") != "Failure"))[:6]:
            print("     ", c.get("status")[:4], c.get("category"), "|", c.get("description"), "@", loc(c))
    print("total %.0fs" % dt)
    return 0


if __name__ == "__main__":
    cmd = sys.argv[1]
    if cmd == "check":
        sys.exit(check(sys.argv[2]))
    elif cmd == "stage":
        print(stage(sys.argv[2]))
    elif cmd == "try":
        sys.exit(try_(sys.argv[2], sys.argv[3] if len(sys.argv) > 3 else "", int(sys.argv[4]) if len(sys.argv) > 4 else 300))
    elif cmd == "setup":
        sys.exit(setup())
