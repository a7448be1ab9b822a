#!/usr/bin/env python3
"""Builds the harness against /repo's working tree and decides one property.

usage: check.py ID quick|thorough      run the check of property ID
       check.py --replay FILE          run a replay file again (exit 1 if it still fails)
       check.py --setup                build everything once
exit 0: held on everything explored; 1: VIOLATION line printed; 2 or 3: no answer.
Environment: VERIF_SEED (default 1).
"""
import fcntl, json, os, re, resource, shutil, signal, subprocess, sys, time

ROOT = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(ROOT, "harness")
TARGET = os.path.join(ROOT, "target")
BASE = os.path.join(HARNESS, "src", "schemas.rs")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
MEM = 20 << 30
# properties comparing two builds of the library: how the other one is built
PEERS = {"C17": ("nodbg", "without the debug feature"), "C24": ("plain", "without debug assertions")}


def log(*a):
    print(*a, file=sys.stderr, flush=True)


class NoAnswer(Exception):
    pass


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def cargo(schemas, kind, tdir):
    """one cargo build; returns (binary or None, compiler errors)"""
    env = dict(os.environ, TTH_SCHEMAS=schemas, CARGO_TARGET_DIR=tdir, CARGO_NET_OFFLINE="true")
    env.pop("RUSTFLAGS", None)
    cmd = ["cargo", "build", "--offline", "--message-format=json"]
    if kind == "nodbg":
        cmd.append("--no-default-features")
    elif kind == "plain":
        cmd += ["--profile", "plain"]
    p = subprocess.Popen(cmd, cwd=HARNESS, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, start_new_session=True)
    try:
        out, err = p.communicate(timeout=700)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        raise NoAnswer("the build takes too long")
    errors = []
    for line in out.splitlines():
        try:
            m = json.loads(line)
        except ValueError:
            continue
        if m.get("reason") == "compiler-message" and m["message"]["level"] == "error":
            errors.append((m.get("target", {}).get("name", ""), m["message"]))
    if p.returncode == 0:
        return os.path.join(tdir, "plain" if kind == "plain" else "debug", "tth"), []
    if not errors:
        log(err[-3000:])
    return None, errors


def modules(path):
    """(name, first line, last line) of every schema module, and the text"""
    lines = open(path).read().split("\n")
    out, cur = [], None
    for i, l in enumerate(lines, 1):
        m = re.match(r"pub mod (\w+) \{", l)
        if m or l.startswith("macro_rules! for_all_schemas"):
            if cur:
                out.append((cur[0], cur[1], i - 1))
            cur = (m.group(1), i) if m else None
    return out, lines


def without(path, bad, out):
    mods, lines = modules(path)
    drop = set()
    for n, a, b in mods:
        if n in bad:
            drop.update(range(a, b + 1))
    text = "\n".join(l for i, l in enumerate(lines, 1) if i not in drop)
    keep = [n for n, _, _ in mods if n not in bad]
    text = re.sub(r"(macro_rules! for_all_schemas .*\$m! \{)[^}]*\}", lambda m: m.group(1) + " " + ", ".join(keep) + " }", text)
    with open(out, "w") as f:
        f.write(text)


def guilty(errors, schemas):
    """the schema modules the compiler complains about, None if it complains about something else"""
    mods, _ = modules(schemas)
    bad = {}
    def spans(s):
        while s:
            yield s
            e = s.get("expansion")
            s = e["span"] if e else None
    for target, m in errors:
        if m["message"].startswith("aborting due to"):
            continue
        hit = None
        for s in m["spans"]:
            for t in spans(s):
                if os.path.basename(t["file_name"]) == os.path.basename(schemas):
                    for n, a, b in mods:
                        if a <= t["line_start"] <= b:
                            hit = n
                if hit: break
            if hit: break
        if not hit:
            continue  # a consequence (the registry names every declaration), or the library itself is broken
        bad.setdefault(hit, (m.get("rendered") or m["message"]))
    return bad or None


def fingerprint():
    """content of the library's sources: cargo itself only looks at modification times"""
    import hashlib
    h = hashlib.sha256()
    for d, dirs, files in os.walk(repo_path()):
        dirs[:] = sorted(x for x in dirs if x not in (".git", "target"))
        for f in sorted(files):
            if f.endswith((".rs", ".toml")):
                p = os.path.join(d, f)
                h.update(p.encode() + b"\0" + open(p, "rb").read() + b"\0")
    return h.hexdigest()


def repo_path():
    return re.search(r'ttgraph = \{ path = "([^"]+)"', open(os.path.join(HARNESS, "Cargo.toml")).read()).group(1)


def build(schemas, kind, tag):
    """builds, leaving out declarations which do not compile; (binary, {left out schema: error}, schema file used)"""
    os.makedirs(TARGET, exist_ok=True)
    tdir = os.path.join(TARGET, tag)
    os.makedirs(tdir, exist_ok=True)
    with open(os.path.join(tdir, ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        t = time.time()
        stamp, fp = os.path.join(tdir, "sources"), fingerprint()
        if os.path.exists(stamp) and open(stamp).read() != fp:
            subprocess.run(["cargo", "clean", "--offline", "-p", "ttgraph", "-p", "ttgraph_macros", "-p", "tth"], cwd=HARNESS, env=dict(os.environ, CARGO_TARGET_DIR=tdir, TTH_SCHEMAS=schemas), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        with open(stamp, "w") as f:
            f.write(fp)
        use, bad = schemas, {}
        for k in range(6):
            b, errors = cargo(use, kind, tdir)
            if b:
                log("built %s in %.0f s%s" % (tag, time.time() - t, ", without " + ", ".join(sorted(bad)) if bad else ""))
                # keep the binary: a build with other declarations must not replace it while it runs
                return b, bad, use
            g = guilty(errors, use) if errors else None
            if not g:
                return None, bad, errors
            bad.update(g)
            use = os.path.join(tdir, "schemas_reduced_%d.rs" % k)
            without(schemas, set(bad), use)
            if not modules(use)[0]:
                return None, bad, errors
    return None, bad, []


def run(binary, args, timeout):
    p = subprocess.Popen([binary] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, start_new_session=True, preexec_fn=limits)
    try:
        out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        raise NoAnswer("the check takes too long")
    sys.stderr.write(err[-6000:])
    return p.returncode, out


def schema_file(seed):
    """a further set of declarations, the same for the same seed"""
    d = os.path.join(TARGET, "schemas")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "set_%d.rs" % seed)
    tmp = p + ".tmp%d" % os.getpid()
    subprocess.check_call([sys.executable, os.path.join(ROOT, "tools", "gen_schemas.py"), str(seed), "24", tmp], stdout=subprocess.DEVNULL)
    os.replace(tmp, p)
    return p


def write_replay(pid, tier, obj):
    os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
    p = os.path.join(ROOT, "replays", "%s-%s-seed%d.json" % (pid, tier, SEED))
    with open(p, "w") as f:
        json.dump(obj, f, indent=1)
    return p


def write_evidence(pid, tier, cov, wall, violations, note=None):
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    e = {"property": pid, "tier": tier, "seed": SEED, "level": "exploration", "coverage": cov,
         "assumptions": ["the library is built with debug assertions, as by default in a dev build" + (", and is compared with a build without them" if pid == "C24" else "")] + ([note] if note else []),
         "wall_s": wall, "violations": violations}
    with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f:
        json.dump(e, f, indent=1)


def violation(pid, path):
    print("VIOLATION property=%s replay=%s" % (pid, path), flush=True)
    return 1


def compile_violation(pid, tier, schemas, bad, start, what):
    mods, lines = modules(schemas)
    name = sorted(bad)[0]
    src = "\n".join("\n".join(lines[a - 1:b]) for n, a, b in mods if n == name)
    log(what, name, "\n", bad[name][:2000])
    p = write_replay(pid, tier, {"property": pid, "compile": name, "schemas": schemas, "declaration": src, "violation": {"kind": "Compile", "message": what, "error": bad[name]}, "seed": SEED, "tier": tier})
    write_evidence(pid, tier, {"evaluations": len(mods), "distinct_nontrivial": len(mods), "rule": "declarations compiled", "samples": [src[:1500]], "exhaustive": False}, time.time() - start, 1)
    return violation(pid, p)


def one(pid, tier, schemas, tag, root, start, cases=None):
    """one set of declarations; returns exit code and whether the property's line was printed"""
    b, bad, use = build(schemas, "dbg", tag)
    if b is None:
        if bad and pid == "C11":
            return compile_violation(pid, tier, schemas, bad, start, "a declaration using only documented forms does not compile:")
        for _, m in use:
            log((m.get("rendered") or m["message"])[:1500])
        raise NoAnswer("the harness does not build")
    if bad:
        if pid == "C11":
            return compile_violation(pid, tier, schemas, bad, start, "a declaration using only documented forms does not compile:")
        twins = dict(re.findall(r'\("(\w+)", "(\w+)"\)', open(schemas).read()))
        if pid == "C18":
            g = {k: v for k, v in bad.items() if k in twins and twins[k] not in bad}
            if g:
                return compile_violation(pid, tier, schemas, g, start, "a declaration with groups does not compile, though its expansion does:")
    args = ["--prop", pid, "--seed", str(SEED), "--tier", tier, "--root", root]
    if pid in PEERS:
        kind, what = PEERS[pid]
        nb, nbad, nuse = build(use, kind, tag + "-" + kind)
        if nb is None or nbad:
            msgs = {k: v for k, v in (nbad or {}).items()} or {"library": "\n".join((m.get("rendered") or m["message"]) for _, m in nuse)[:6000] or "cargo build failed"}
            log("the build %s fails:" % what, list(msgs.values())[0][:2000])
            p = write_replay(pid, tier, {"property": pid, "compile_peer": True, "schemas": use, "violation": {"kind": "Compile", "message": "does not build %s, but builds otherwise" % what, "error": msgs}, "seed": SEED, "tier": tier})
            write_evidence(pid, tier, {"evaluations": 1, "distinct_nontrivial": 1, "rule": "the harness and all declarations compiled %s" % what, "samples": list(msgs.values())[:1], "exhaustive": False}, time.time() - start, 1)
            return violation(pid, p)
        args += ["--peer", nb]
    limit = 480 if tier == "quick" else 2600
    rc, out = run(b, args, limit)
    if rc in (0, 1):
        sys.stdout.write(out)
        return rc
    if rc == 3:
        raise NoAnswer("every shard was lost to something of another property")
    # the process died (stack overflow, abort, out of memory): find the operation it died in
    log("the harness ended with status %d; running again, recording every step" % rc)
    rd = os.path.join(root, "replays")
    for f in (os.listdir(rd) if os.path.isdir(rd) else []):
        if f.startswith("careful-%s-" % pid):
            os.remove(os.path.join(rd, f))
    rc2, out = run(b, args + ["--careful"], limit)
    if rc2 in (0, 1):
        sys.stdout.write(out)
        return rc2
    hits = []
    for f in sorted(os.listdir(rd) if os.path.isdir(rd) else []):
        if f.startswith("careful-%s-" % pid):
            p = os.path.join(rd, f)
            try:
                v = json.load(open(p))
            except ValueError:
                continue
            # which of the shards' last steps kills a process of its own?
            r = subprocess.run([b, "--replay", p], stdout=subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=limits, timeout=200)
            if r.returncode == 1 or (r.returncode != 0 and v.get("relevant", True)):
                hits.append((r.returncode != 1, v))
            os.remove(p)
    if not hits:
        raise NoAnswer("the process died (status %d) in an operation of another property" % rc)
    dies, v = hits[0]
    v.setdefault("violation", {})
    v["note"] = ("the process dies (status %d); not shrunk" if dies else "the process dies (status %d) while the failure is shrunk") % rc
    if dies:
        v["dies"] = True
    p = write_replay(pid, tier, v)
    write_evidence(pid, tier, {"evaluations": 1, "distinct_nontrivial": 1, "rule": "the history the process died in", "samples": [v.get("violation")], "exhaustive": False}, time.time() - start, 1)
    return violation(pid, p)


def merge_evidence(into, more):
    c, d = into["coverage"], more["coverage"]
    for k, v in d.items():
        if isinstance(v, bool) or k in ("rule", "exhaustive"):
            continue
        if isinstance(v, (int, float)):
            c[k] = c.get(k, 0) + v
        elif isinstance(v, dict):
            m = c.setdefault(k, {})
            for a, b in v.items():
                m[a] = max(m.get(a, 0), b) if a == "max_nodes" else m.get(a, 0) + b
    into["wall_s"] += more["wall_s"]
    into["violations"] += more["violations"]


def check(pid, tier):
    if pid == "C20":
        return check_decl(pid, tier)
    start = time.time()
    rc = one(pid, tier, BASE, "main", ROOT, start)
    if rc or tier == "quick":
        return rc
    ev = os.path.join(ROOT, "evidence", pid + ".json")
    total = json.load(open(ev))
    for k in range(1, 4):
        s = schema_file(1000 * SEED + k)
        tag = "extra%d" % k
        sub = os.path.join(TARGET, tag, "root")
        os.makedirs(sub, exist_ok=True)
        rc = one(pid, tier, s, tag, sub, start)
        part = os.path.join(sub, "evidence", pid + ".json")
        if os.path.exists(part):
            merge_evidence(total, json.load(open(part)))
            total["coverage"]["schema_sets"] = 1 + k
            with open(ev, "w") as f:
                json.dump(total, f, indent=1)
        if rc:
            return rc
    return 0


def decl_compiler():
    """the library as a user's crate gets it, and a compiler for single programs using it"""
    sys.path.insert(0, os.path.join(ROOT, "decl"))
    import decl
    tdir = os.path.join(TARGET, "decl")
    os.makedirs(tdir, exist_ok=True)
    env = dict(os.environ, CARGO_TARGET_DIR=tdir, CARGO_NET_OFFLINE="true")
    env.pop("RUSTFLAGS", None)
    cwd = os.path.join(ROOT, "decl")
    with open(os.path.join(tdir, ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        stamp, fp = os.path.join(tdir, "sources"), fingerprint()
        if os.path.exists(stamp) and open(stamp).read() != fp:
            subprocess.run(["cargo", "clean", "--offline", "-p", "ttgraph", "-p", "ttgraph_macros"], cwd=cwd, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        with open(stamp, "w") as f:
            f.write(fp)
        r = subprocess.run(["cargo", "build", "--offline", "--message-format=json"], cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=700)
    rlib = None
    for line in r.stdout.splitlines():
        try:
            m = json.loads(line)
        except ValueError:
            continue
        if m.get("reason") == "compiler-artifact" and m["target"]["name"] == "ttgraph":
            rlib = next((f for f in m["filenames"] if f.endswith(".rlib")), rlib)
    if r.returncode or not rlib:
        log(r.stderr[-3000:])
        raise NoAnswer("the library does not build")
    scratch = os.path.join(tdir, "scratch")
    shutil.rmtree(scratch, ignore_errors=True)
    os.makedirs(scratch)
    return decl, decl.Compiler(rlib, os.path.join(tdir, "debug", "deps"), scratch)


def check_decl(pid, tier):
    start = time.time()
    decl, c = decl_compiler()
    n = len(decl.FAULTS) * (8 if tier == "quick" else 120)
    rep = decl.run(c, SEED * 1000000, n)
    cov = {"evaluations": rep["programs"], "distinct_nontrivial": rep["distinct"],
           "rule": "a generated well-formed program compiled, and the distinct program made from it by one fault was compiled too (and rejected)",
           "samples": rep["samples"], "exhaustive": False, "faults": rep["by_fault"], "skipped_because_the_well_formed_program_does_not_compile": rep["skipped"]}
    bad = rep["bad"]
    log("%s: %d programs, %d faulty ones, %d skipped" % (pid, rep["programs"], rep["cases"], rep["skipped"]))
    if bad:
        seed, b, q, k = bad
        base, faulty = decl.shrink(c, b, q, k)
        log("accepted with fault %s:\n%s" % (k, faulty))
        p = write_replay(pid, tier, {"property": pid, "decl": True, "fault": k, "well_formed": base, "faulty": faulty, "case": seed, "violation": {"kind": "Accepted", "message": "the faulty program compiles"}, "seed": SEED, "tier": tier})
        write_evidence(pid, tier, cov, time.time() - start, 1)
        return violation(pid, p)
    if rep["distinct"] == 0:
        log(rep.get("skipped_error", ""))
        raise NoAnswer("no well-formed program compiles")
    write_evidence(pid, tier, cov, time.time() - start, 0)
    return 0


def replay_decl(v, path):
    _, c = decl_compiler()
    if not c(v["well_formed"])[0]:
        raise NoAnswer("the well-formed program does not compile")
    if c(v["faulty"])[0]:
        return violation(v["property"], path)
    print("no violation")
    return 0


def replay(path):
    v = json.load(open(path))
    if v.get("decl"):
        return replay_decl(v, path)
    s = v.get("schemas", BASE)
    m = re.search(r"set_(\d+)\.rs$", s)
    if m:
        s = schema_file(int(m.group(1)))
    elif not os.path.exists(s) or "schemas_reduced" in s:
        s = BASE
    b, bad, use = build(s, "dbg", "replay" if s != BASE else "main")
    if "compile" in v:
        if v["compile"] in bad:
            log(bad[v["compile"]])
            return violation(v["property"], path)
        print("no violation")
        return 0
    if b is None:
        raise NoAnswer("the harness does not build")
    args = ["--replay", path]
    if v["property"] in PEERS:
        kind = PEERS[v["property"]][0]
        nb, nbad, nuse = build(use, kind, "main-" + kind)
        if nb is None or nbad:
            return violation(v["property"], path)
        if "compile_peer" in v:
            print("no violation")
            return 0
        args += ["--peer", nb]
    rc, out = run(b, args, 300)
    sys.stdout.write(out)
    if rc not in (0, 1) and v.get("dies"):
        return violation(v["property"], path)
    return rc


def main():
    a = sys.argv[1:]
    try:
        if a[:1] == ["--setup"]:
            build(BASE, "dbg", "main")
            for kind, _ in PEERS.values():
                build(BASE, kind, "main-" + kind)
            decl_compiler()
            return 0
        if a[:1] == ["--replay"]:
            return replay(a[1])
        return check(a[0], a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick"))
    except NoAnswer as e:
        log("no answer:", e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
