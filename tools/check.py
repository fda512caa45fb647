#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--seed N] [--only SCENARIO]

Decides one property for /repo's working tree: model checks the design-level
specifications behind it, lets TLC generate behaviours, runs them and further
scenarios on the real code (harness/), and has TLC judge what was recorded
against the specification. Exit 0: held; 1: VIOLATION; 2: the check itself failed.
"""
import argparse, json, os, re, shutil, subprocess, sys, tempfile, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
sys.path.insert(0, os.path.join(ROOT, "tools"))
from checks import CHECKS  # noqa: E402


class Broken(Exception):
    """The check cannot give an answer."""


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def env_go(scratch):
    env = dict(os.environ)
    env["PATH"] = env.get("PATH", "/usr/bin:/bin") + ":/usr/local/go/bin"
    cache = os.path.join(ROOT, ".cache", "go-build")
    try:
        os.makedirs(cache, exist_ok=True)
        t = os.path.join(cache, "w%d" % os.getpid())
        open(t, "w").close()
        os.unlink(t)
    except OSError:
        cache = os.path.join(scratch, "go-build")
    env["VERIF_GOCACHE"] = cache
    env.setdefault("HOME", scratch)
    env["GOTMPDIR"] = scratch
    env["TMPDIR"] = os.path.join(scratch, "tmp")
    os.makedirs(env["TMPDIR"], exist_ok=True)
    return env


def build(scratch, env):
    out = os.path.join(scratch, "bin")
    r = subprocess.run(["bash", os.path.join(ROOT, "tools/build_harness.sh"), out], env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise Broken("build failed:\n" + r.stdout[-4000:])
    return out, open(os.path.join(out, "tags")).read().strip()


def tlc(scratch, module, cfg, env=None, args=(), workers=8, timeout=800, heap="6g", name=None, partial=False):
    """Runs TLC; returns its output and counts."""
    meta = tempfile.mkdtemp(prefix="meta_", dir=scratch)
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-XX:+UseParallelGC", "-Xss64m", "-Xmx" + heap, "-Djava.io.tmpdir=" + meta, "-cp", JAR, "tlc2.TLC",
           "-noGenerateSpecTE", "-config", cfg, "-workers", str(workers), "-metadir", meta, *args, module + ".tla"]
    t0 = time.time()
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           errors="replace", timeout=timeout)
    except subprocess.TimeoutExpired as x:
        if partial:
            return 124, (x.stdout or b"").decode("utf-8", "replace"), 0, 0
        raise Broken("TLC on %s took more than %ds" % (module, timeout))
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    # the counts; not searched for in the (long) lines of generated behaviours
    rest = [line for line in r.stdout.splitlines() if len(line) < 400]
    m = None
    for line in rest:
        m = re.search(r"([\d,]+) states generated, ([\d,]+) distinct states found", line) or m
    gen, dist = (int(x.replace(",", "")) for x in m.groups()) if m else (0, 0)
    if not m:
        m = re.search(r"The number of states generated: ([\d,]+)", "\n".join(rest))
        if m:
            gen = dist = int(m.group(1).replace(",", ""))
    log("TLC %s %s: rc %d, %d states, %.1fs" % (module, cfg, r.returncode, dist, time.time() - t0))
    return r.returncode, r.stdout, gen, dist


def known_findings(prop):
    """key -> text of the findings listed for this property."""
    res = {}
    try:
        for line in open(os.path.join(ROOT, "known-findings.txt")):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                res[m.group(2)] = m.group(3).strip()
    except FileNotFoundError:
        pass
    return res


def shorten(x, n=3000):
    s = json.dumps(x)
    if len(s) <= n:
        return x
    return {"id": x.get("id"), "kind": x.get("kind"), "truncated": s[:n]}


def run(prop, tier, seed, only, scratch, keep):
    spec = CHECKS[prop]
    thorough = tier == "thorough"
    states = trans = 0
    t0 = time.time()
    cov = {"models": []}

    env = env_go(scratch)
    bindir, tags = build(scratch, env)
    log("build: %.1fs, tags %s" % (time.time() - t0, tags))

    # design-level models
    for m in spec.get("models", []):
        cfg = m["thorough" if thorough and "thorough" in m else "quick"]
        rc, out, gen, dist = tlc(scratch, m["module"], cfg, args=m.get("args", ()))
        if rc != 0 or "No error has been found" not in out or dist < m.get("min", 2):
            raise Broken("model %s %s: rc %d, %d states\n%s" % (m["module"], cfg, rc, dist, out[-9000:]))
        states += dist
        trans += gen
        cov["models"].append({"module": m["module"], "config": cfg, "distinct_states": dist, "states_generated": gen})

    # behaviours generated by TLC
    genfile = os.path.join(scratch, "gen.ndjson")
    open(genfile, "w").close()
    for g in spec.get("gen", []):
        num = g["num_thorough" if thorough else "num"]
        out1 = os.path.join(scratch, "gen1.ndjson")
        open(out1, "w").close()
        args = ["-simulate", "num=%d" % num, "-depth", str(g["depth"]), "-seed", str(seed)] if g.get("simulate") else []
        rc, out, gen, dist = tlc(scratch, g["module"], g["cfg"], env={"VERIF_GEN": out1}, args=args,
                                 workers=1 if g.get("simulate") else 8)
        if rc != 0:
            raise Broken("generator %s: rc %d\n%s" % (g["module"], rc, out[-9000:]))
        # behaviours are printed as lines GEN <json> (a TLC string, quoted)
        n = 0
        seen = set()
        with open(genfile, "a") as f:
            for line in out.split("\n"):
                if line.startswith('"GEN '):
                    s = json.loads(line)[4:]
                    if s not in seen:
                        seen.add(s)
                        f.write(s + "\n")
                        n += 1
        if n < g.get("min", 1):
            raise Broken("generator %s produced %d behaviours\n%s" % (g["module"], n, out[-9000:]))
        states += dist
        trans += gen
        cov.setdefault("behaviours_generated_by_tlc", 0)
        cov["behaviours_generated_by_tlc"] += n

    # run the real code
    evfile = os.path.join(scratch, "events.ndjson")
    scr = os.path.join(scratch, "work")
    os.makedirs(scr, mode=0o777)
    cmd = [os.path.join(bindir, "vdrive"), "-prop", prop, "-tier", tier, "-seed", str(seed), "-bin", bindir,
           "-scratch", scr, "-gen", genfile, "-out", evfile]
    if only is not None:
        cmd += ["-only", str(only)]
    t1 = time.time()
    try:
        r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace",
                           timeout=spec.get("drive_timeout", 800 if not thorough else 7000))
    except subprocess.TimeoutExpired:
        raise Broken("the driver took too long")
    failed = "driver: rc %d\n%s" % (r.returncode, r.stderr[-6000:]) if r.returncode != 0 else None
    if failed and (r.returncode != 2 or not r.stdout.strip()):
        raise Broken(failed)
    stats = json.loads(r.stdout.strip().splitlines()[-1])
    log("drive: %.1fs %s" % (time.time() - t1, json.dumps(stats)))

    events = {}
    samples = []
    with open(evfile) as f:
        for line in f:
            e = json.loads(line)
            events[e["id"]] = e
            if len(samples) < 3 and e.get("kind") != "crash" and len(line) < 6000:
                samples.append(e)
            elif len(samples) == 0:
                samples.append(shorten(e))
    n = len(events)
    if n == 0:
        raise Broken(failed or "no events recorded")
    if not samples and events:
        samples = [shorten(next(iter(events.values())))]

    # judge
    rc, out, gen, dist = tlc(scratch, spec.get("judge", "J_" + prop), "judge.cfg", env={"VERIF_EVENTS": evfile},
                             timeout=800 if not thorough else 7000, heap="12g", partial=True)
    if (rc != 0 or dist != 2 * n) and not re.search(r'^"BAD [^"]+"', out, re.M):
        raise Broken("judge: rc %d, %d states for %d events\n%s" % (rc, dist, n, out[-9000:]))
    states += dist
    trans += gen
    bad = sorted(set(re.findall(r'^"BAD ([^"]+)"', out, re.M)))
    why = {}
    for i, w in re.findall(r'^"WHY (\S+) ([^"]*)"', out, re.M):
        why.setdefault(i, []).append(w)

    known = known_findings(prop)
    violations, found = [], {}
    for i in bad:
        k = events[i].get("key")
        if k in known:
            found[k] = known[k]
        else:
            violations.append(i)
    for k, text in sorted(found.items()):
        print("KNOWN-FINDING: property=%s %s (%s)" % (prop, text, k))

    cov.update({"states": states, "transitions": trans, "traces_validated_against_impl": n - len(bad),
                "scenarios_run_on_real_code": stats.get("scenarios", 0), "driver_counts": stats,
                "in_package_access": tags, "samples": [shorten(s) for s in samples]})
    ev = {"property": prop, "tier": tier, "seed": seed, "level": spec.get("level", "model_checking"), "coverage": cov,
          "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(violations)}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    if only is None:
        with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f)

    if violations:
        os.makedirs(os.path.join(ROOT, "replay"), exist_ok=True)
        path = os.path.join(ROOT, "replay", prop + ".json")
        with open(path, "w") as f:
            json.dump({"property": prop, "tier": tier, "seed": seed,
                       "reproduce": ["VERIF_SEED=%d tools/check.py %s --tier %s --only %s" % (seed, prop, tier, i.split(".")[0])
                                     for i in violations[:5]],
                       "violations": [{"id": i, "failed": why.get(i, []), "event": shorten(events[i], 200000)} for i in violations[:5]],
                       "count": len(violations)}, f, indent=1)
        for i in violations[:5]:
            log("violated by event %s: %s %s" % (i, ",".join(why.get(i, [])), json.dumps(events[i])[:600]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if failed:
        raise Broken(failed)
    # what was to be covered must have been
    if n < spec.get("min_events", 1) and only is None:
        raise Broken("only %d events recorded" % n)
    for k in spec.get("require", []):
        if only is None and stats.get(k, 0) == 0:
            raise Broken("the driver never did: " + k)
    print("OK property=%s events=%d states=%d %.1fs" % (prop, n, states, time.time() - t0))
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or "1"))
    ap.add_argument("--only", type=int)
    ap.add_argument("--keep", action="store_true", help="keep the scratch directory")
    a = ap.parse_args()
    scratch = tempfile.mkdtemp(prefix="verif_")
    os.chmod(scratch, 0o755)
    try:
        return run(a.prop, a.tier, a.seed, a.only, scratch, a.keep)
    except Broken as e:
        log("CHECK FAILED (no answer): %s" % "\n".join(
            x[:400] for x in str(e).splitlines() if not re.match("Parsing file|Semantic proc|Linting of|Computed ", x)))
        return 2
    finally:
        if a.keep:
            log("scratch: " + scratch)
        else:
            subprocess.run(["chmod", "-R", "u+rwX", scratch], stderr=subprocess.DEVNULL)
            shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
