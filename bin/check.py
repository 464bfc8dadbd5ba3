#!/usr/bin/env python3
"""check.py <property> : decides one property against /repo's current working tree.

1. TLC checks the specification's own models for the property (MC_*.tla).
2. The harness (rebuilt against /repo) records calls of the real code as a trace.
3. TLC checks that the trace is a behaviour of the specification (Trace_*.tla).
Exit 0: held on everything explored. Exit 1: a VIOLATION line. Exit 2: tool error.
"""
import collections, json, os, random, re, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(HERE, ".build")
sys.path.insert(0, os.path.join(HERE, "bin"))
from config import PROPS  # noqa: E402

SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
TIER = "thorough" if TIER == "thorough" else "quick"


class ToolError(Exception):
    pass


def log(*a):
    print(*a, flush=True)


def env(**kw):
    e = dict(os.environ)
    e.update(CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTFLAGS="--cap-lints allow",
             CARGO_TARGET_DIR=os.path.join(BUILD, "target"), RUSTC_WRAPPER="",
             RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu",
             VERIF_SEED=str(SEED), VERIF_TIER=TIER)
    e.setdefault("HOME", "/root")
    e["PATH"] = "/usr/local/bin:/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    e.update(kw)
    return e


def source_hash():
    import hashlib
    h = hashlib.sha256()
    for root, ds, fs in os.walk("/repo"):
        ds[:] = sorted(d for d in ds if d not in ("target", ".git"))
        for f in sorted(fs):
            if f.endswith((".rs", ".toml")):
                h.update(os.path.join(root, f).encode())
                with open(os.path.join(root, f), "rb") as g:
                    h.update(g.read())
    return h.hexdigest()


def build(binname, release=False):
    # cargo looks at file times; contents are what counts here
    mark, now = os.path.join(BUILD, "target", "source.hash"), source_hash()
    if os.path.exists(mark) and open(mark).read() != now:
        for profile in (["clean"], ["clean", "--release"]):
            subprocess.run(["cargo"] + profile + ["--offline"] + sum((["-p", p] for p in ("hacspec", "hacspec-examples", "secret_integers", "abstract_integers", "harness")), []),
                       cwd=os.path.join(HERE, "harness"), env=env(), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    os.makedirs(os.path.dirname(mark), exist_ok=True)
    open(mark, "w").write(now)
    r = subprocess.run(["cargo", "build", "--offline", "--bin", binname] + (["--release"] if release else []), cwd=os.path.join(HERE, "harness"),
                       env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if r.returncode:
        raise ToolError("harness does not build:\n" + r.stdout[-6000:])


def record(binname, path, args, timeout, release=False):
    """Run the recorder. A death of the recorded code is turned into an event (p = 3)."""
    exe = os.path.join(BUILD, "target", "release" if release else "debug", binname)

    def go(**kw):
        try:
            r = subprocess.run([exe] + args, env=env(TRACE=path, **kw), stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE, timeout=timeout, cwd=os.path.dirname(path))
            return r
        except subprocess.TimeoutExpired:
            raise ToolError("recorder %s ran out of time" % binname)

    r = go()
    tail = r.stdout[-200:].decode(errors="replace")
    if "TRACE-COMPLETE" in tail:
        return
    if r.returncode == 0:  # the watchdog ended it: last event says p = 2
        return
    log("recorder died (%s); repeating to find the call" % r.returncode)
    log(r.stderr[-2000:].decode(errors="replace"))
    r = go(HARNESS_SAFE="1")
    pend = path + ".pending"
    if r.returncode == 0 or not os.path.exists(pend) or r.returncode > 0:
        raise ToolError("recorder %s failed: exit %s\n%s" % (binname, r.returncode, r.stderr[-2000:].decode(errors="replace")))
    with open(path) as f:
        data = f.read()
    data = data[:data.rfind("\n") + 1]
    with open(path, "w") as f:
        f.write(data + open(pend).read() + ',"p":3,"r":[]}\n')


def corrupt(x, rnd):
    """Change one leaf of a recorded result; None if there is nothing to change."""
    if isinstance(x, bool):
        return None
    if isinstance(x, int):
        return x ^ 1
    if isinstance(x, str):
        return x + "~"
    if isinstance(x, list) and x:
        order = list(range(len(x)))
        rnd.shuffle(order)
        for i in order:
            y = corrupt(x[i], rnd)
            if y is not None:
                return x[:i] + [y] + x[i + 1:]
    return None


def segments(lines):
    """The independent parts of a trace, each from its "begin" on."""
    res = []
    for x in lines:
        if x["op"] == "begin" or not res:
            res.append([])
        res[-1].append(x)
    return res


def judge(tr, name, path, expect):
    """TLC decides which recorded calls the specification does not allow: position -> what it says instead."""
    rc, out = tlc(tr["module"], tr.get("cfg", "Trace.cfg"), name, tr.get("tlc_timeout", 840 if TIER == "quick" else 7200), {"TRACE": path})
    rejects = {}
    for x in out.splitlines():
        if x.startswith('"REJECT '):
            s = json.loads(x)
            _, i, exp = s.split(" ", 2)
            rejects[int(i)] = exp
    gen, dist = stats(out)
    if rc != 0 or "Model checking completed. No error has been found" not in out or dist != expect:
        raise ToolError("TLC did not consume the trace (rc %d, %d of %d states):\n%s" % (rc, dist, expect, out[-5000:]))
    return rejects, gen, dist


def add_corrupted(path, lines, rnd, n=6):
    """Append copies of recorded segments, each with one corrupted result: the trace checker must
    reject those. Returns the (1-based) positions of the corrupted events."""
    starts = [i for i, x in enumerate(lines) if x.get("op") == "begin"]
    by_op, out, pos = {}, [], []
    idx = [i for i, x in enumerate(lines) if x.get("op") != "begin" and x.get("p") == 0 and corrupt(x["r"], random.Random(1)) is not None]
    rnd.shuffle(idx)
    # one event of every operation first, then any; the first result of a call (at = 0) is what later ones must equal
    idx = [i for i in idx if lines[i].get("at") != 0]
    for i in idx:
        by_op.setdefault(lines[i]["op"], i)
    order = list(by_op.values())
    order += [i for i in idx if i not in set(order)][:n]
    for i in order[:n]:
        b = max(s for s in starts if s <= i)
        if i - b > 300:
            continue
        ev = dict(lines[i])
        ev["r"] = corrupt(ev["r"], rnd)
        seg = lines[b:i] + [ev]
        out += seg
        pos.append(len(lines) + len(out))
    with open(path, "a") as f:
        for x in out:
            f.write(json.dumps(x, separators=(",", ":")) + "\n")
    return pos, len(out)


def tlc(module, cfg, name, timeout, extra_env=None, args=()):
    meta = os.path.join(BUILD, "meta", name)
    shutil.rmtree(meta, ignore_errors=True)
    os.makedirs(meta)
    try:
        r = subprocess.run([os.path.join(HERE, "bin", "tlc.sh"), "-workers", "8", "-metadir", meta, "-noGenerateSpecTE",
                            *args, "-config", cfg, module + ".tla"], cwd=os.path.join(HERE, "spec"),
                           env=env(**(extra_env or {})), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, errors="replace", timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError("TLC on %s ran out of time" % module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return r.returncode, r.stdout


def stats(out):
    m = None
    for m in re.finditer(r"(\d+) states generated, (\d+) distinct states found", out):
        pass
    if m is None:
        m = re.search(r"The number of states generated: (\d+)", out)  # simulation
        return (int(m.group(1)), int(m.group(1))) if m else (0, 0)
    return int(m.group(1)), int(m.group(2))


def known_findings(prop):
    path = os.path.join(HERE, "known-findings.txt")
    res = []
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"finding: property=(\S+) match=(\{.*?\}) -- (.*)", line.strip())
            if m and m.group(1) == prop:
                res.append((json.loads(m.group(2)), m.group(3)))
    return res


def matches(pat, ev):
    return all(ev.get(k) == v for k, v in pat.items())


def main():
    prop = sys.argv[1]
    cfg = PROPS[prop]
    t0 = time.time()
    run = os.path.join(BUILD, "run", prop)
    shutil.rmtree(run, ignore_errors=True)
    os.makedirs(run)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    rp = os.path.join(HERE, "evidence", "replay_%s.json" % prop)
    if os.path.exists(rp):
        os.remove(rp)
    rnd = random.Random(SEED)
    cov = collections.OrderedDict(states=0, transitions=0, traces_validated_against_impl=0, events_validated=0,
                                  events_by_op={}, models=[], samples=[])
    violations, known_hit = [], collections.OrderedDict()

    # the code first: a violation there must not hide behind a slow model
    todo = cfg.get("traces", [])
    for tr in todo:
        build(tr["bin"])
        if tr.get("release") or (tr.get("both") and TIER == "thorough"):  # the same recorder without debug assertions and overflow checks
            build(tr["bin"], release=True)
    for k, tr in enumerate(todo):
        path = os.path.join(run, "trace%d.ndjson" % k)
        if "gen" in tr:  # behaviours generated by TLC, replayed into the code by the recorder
            g = tr["gen"]
            rc, out = tlc(g["module"], g[TIER if TIER in g else "quick"], prop + "gen", 600,
                          {"OUT": run}, ["-workers", "1", "-seed", str(SEED)] + list(g.get("args_" + TIER, g.get("args", ()))))
            beh = [json.loads(json.loads(x)) for x in out.splitlines() if x.startswith('"[')]
            if rc != 0 or not beh:
                raise ToolError("behaviour generation failed:\n" + out[-3000:])
            seen, uniq = set(), []
            for b in beh:
                s = json.dumps(b)
                if s not in seen:
                    seen.add(s)
                    uniq.append(b)
            with open(os.path.join(run, "behaviours.ndjson"), "w") as f:
                for b in uniq:
                    f.write(json.dumps(b, separators=(",", ":")) + "\n")
            cov["behaviours_generated_from_spec"] = cov.get("behaviours_generated_from_spec", 0) + len(uniq)
        args = [a.replace("@RUN@", run) for a in tr.get("args", [])]
        record(tr["bin"], path, args, tr.get("timeout", 400))
        lines = [json.loads(x) for x in open(path)]
        pos, extra = add_corrupted(path, lines, rnd)
        rejects, gen, dist = judge(tr, prop + "tr", path, len(lines) + extra)
        caught = [p for p in pos if p in rejects]
        if pos and not caught:
            raise ToolError("corrupted events were accepted: the trace specification is vacuous")
        cov["corrupted_events_tried"] = cov.get("corrupted_events_tried", 0) + len(pos)
        cov["corrupted_events_rejected"] = cov.get("corrupted_events_rejected", 0) + len(caught)
        ops = collections.Counter(x["op"] for x in lines if x["op"] != "begin")
        for o, c in ops.items():
            cov["events_by_op"][o] = cov["events_by_op"].get(o, 0) + c
        cov["events_panicking"] = cov.get("events_panicking", 0) + sum(1 for x in lines if x.get("p") == 1)
        cov["traces_validated_against_impl"] += sum(1 for x in lines if x["op"] == "begin")
        cov["events_validated"] += sum(ops.values())
        cov["distinct_events"] = cov.get("distinct_events", 0) + len({json.dumps(x) for x in lines if x["op"] != "begin"})
        cov["states"] += dist
        cov["transitions"] += gen
        for x in lines:
            if x["op"] != "begin" and len(cov["samples"]) < 4 and len(json.dumps(x)) < 700 and rnd.random() < 0.05:
                cov["samples"].append(x)
        if not cov["samples"]:
            cov["samples"] = [x for x in lines if x["op"] != "begin"][:1]
        kf = known_findings(prop)

        def complain(rejects, lines, **more):
            for i in sorted(rejects):
                if i > len(lines):
                    continue
                ev = lines[i - 1]
                hit = next((w for pat, w in kf if matches(pat, ev)), None)
                if hit:
                    known_hit[hit] = known_hit.get(hit, 0) + 1
                else:
                    b = max(j for j in range(i) if lines[j]["op"] == "begin")
                    violations.append(dict(event=ev, expected=json.loads(rejects[i]), position=i, trace_module=tr["module"],
                                           segment=lines[b:i] if i - b <= 60 else lines[i - 1:i], **more))

        complain(rejects, lines)
        if tr.get("both") and TIER == "thorough":
            # the same calls in a build without debug assertions and overflow checks: what is not as above is judged as well
            path = os.path.join(run, "release%d.ndjson" % k)
            record(tr["bin"], path, args, tr.get("timeout", 400), release=True)
            other = segments([json.loads(x) for x in open(path)])
            first = segments(lines)
            if len(first) == len(other):
                other = [b for a, b in zip(first, other) if a != b]
            flat = [x for s in other for x in s]
            cov["release_build"] = dict(traces=len(first), different_from_debug_build=len(other))
            if flat:
                with open(path, "w") as f:
                    for x in flat:
                        f.write(json.dumps(x, separators=(",", ":")) + "\n")
                rejects, gen, dist = judge(tr, prop + "rel", path, len(flat))
                cov["states"] += dist
                cov["transitions"] += gen
                complain(rejects, flat, build="release")

    if not violations:
        for mod in cfg.get("models", []):
            c = mod.get(TIER, mod.get("quick"))
            if c is None:
                continue
            t1 = time.time()
            margs = mod.get("args_" + TIER, mod.get("args", ()))
            rc, out = tlc(mod["module"], c, prop + "mc", mod.get("timeout_" + TIER, 800), mod.get("env"), margs)
            gen, dist = stats(out)
            sim = "-simulate" in margs
            if mod.get("violates"):  # a model with a planted error: TLC must find it
                if ("Invariant %s is violated" % mod["violates"]) not in out:
                    raise ToolError("model %s/%s: the planted error was not found (rc %d)\n%s" % (mod["module"], c, rc, out[-3000:]))
                cov["models"].append(dict(model=mod["module"], config=c, expected_violation=mod["violates"], found=True))
                continue
            if rc != 0 or (not sim and "No error has been found" not in out):
                raise ToolError("model %s/%s: TLC rc %d\n%s" % (mod["module"], c, rc, out[-5000:]))
            cov["models"].append(dict(model=mod["module"], config=c, distinct_states=dist, generated=gen, exhaustive=not sim,
                                      wall_s=round(time.time() - t1, 1)))
            cov["states"] += dist
            cov["transitions"] += gen

    for w, n in known_hit.items():
        log("KNOWN-FINDING: property=%s %s (%d events)" % (prop, w, n))
    ev = dict(property=prop, tier=TIER, seed=SEED, level=cfg.get("level", "model_checking"), coverage=cov,
              assumptions=cfg.get("assumptions", []), wall_s=round(time.time() - t0, 1), violations=len(violations))
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    log("%s: %d events in %d traces, %d states, %.0fs" % (prop, cov["events_validated"], cov["traces_validated_against_impl"], cov["states"], time.time() - t0))
    if violations:
        with open(rp, "w") as f:
            json.dump(dict(property=prop, seed=SEED, tier=TIER, count=len(violations), violations=violations[:50]), f, indent=1)
        v = violations[0]
        log("first rejected call: %s" % json.dumps(v["event"])[:1500])
        log("specification says:  %s" % json.dumps(v["expected"])[:800])
        log("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    shutil.rmtree(run, ignore_errors=True)
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except ToolError as e:
        log("TOOL ERROR:", e)
        sys.exit(2)
