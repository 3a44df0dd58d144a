#!/usr/bin/env python3
"""check.py <PROPERTY> [--tier quick|thorough] [--replay FILE] [--setup]

Builds the harness of one property against /repo's working tree (through a Go
build overlay; nothing is written in /repo), runs it in parallel shards, writes
evidence/<PROPERTY>.json and reports:
  exit 0                       property held on everything explored
  exit 1 + "VIOLATION ..."     a generated case breaks the property
  exit 2                       no answer (build or infrastructure error)
"""
import argparse, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
GOROOT = "/opt/vp/go1.18.10"
SEEDCACHE = "/opt/vp/gocache"
KNOWN = os.path.join(VERIF, "known_findings.json")
CFG = json.load(open(os.path.join(VERIF, "checks.json")))

LEVEL = "exploration"


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def goenv():
    env = dict(os.environ)
    env.update(
        HOME="/root", GOROOT=GOROOT, GOTOOLCHAIN="local", GOWORK="off", GOPROXY="off", GOSUMDB="off",
        GOFLAGS="-mod=readonly", GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod",
        GOCACHE=os.path.join(BUILD, "gocache"),
        PATH=GOROOT + "/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
    )
    env.pop("GOENV", None)
    return env


def seed_cache():
    c = os.path.join(BUILD, "gocache")
    if os.path.isdir(c):
        return
    os.makedirs(BUILD, exist_ok=True)
    if os.path.isdir(SEEDCACHE):
        tmp = tempfile.mkdtemp(prefix="gocache.", dir=BUILD)
        subprocess.run(["cp", "-a", "--reflink=auto", SEEDCACHE + "/.", tmp], check=False)
        try:
            os.rename(tmp, c)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
    else:
        os.makedirs(c, exist_ok=True)


def overlay(group, tmp):
    """Map /verif/harness/** onto /repo/zz_verif/** plus the group's hook files."""
    rep = {}
    root = os.path.join(VERIF, "harness")
    for d, _, fs in os.walk(root):
        rel = os.path.relpath(d, root)
        if rel.startswith("hooks"):
            continue
        for f in fs:
            if f.endswith(".go"):
                rep[os.path.join(REPO, "zz_verif", rel, f)] = os.path.join(d, f)
    for h in CFG["groups"][group].get("hooks", []):
        src = os.path.join(root, "hooks", h)
        rep[os.path.join(REPO, os.path.dirname(h), "zz_verif_" + os.path.basename(h))] = src
    # Packages that run on virtual time: their import of "time" is redirected
    # to harness/vtime, which re-exports package time with a settable clock.
    for pkg in CFG["groups"][group].get("vtime", []):
        d = os.path.join(REPO, pkg)
        for f in sorted(os.listdir(d)):
            if not f.endswith(".go") or f.endswith("_test.go"):
                continue
            text = open(os.path.join(d, f)).read()
            new, n = re.subn(r'^(\s*(?:import\s+)?)(?:(\w+)[ \t]+)?"time"[ \t]*$',
                             lambda m: '%s%s "github.com/filecoin-project/storetheindex/zz_verif/vtime"' % (m.group(1), m.group(2) or "time"),
                             text, count=1, flags=re.M)
            if n:
                dst = os.path.join(tmp, "vtime", pkg, f)
                os.makedirs(os.path.dirname(dst), exist_ok=True)
                open(dst, "w").write(new)
                rep[os.path.join(d, f)] = dst
    return rep


def build(group, tmp):
    seed_cache()
    ov = os.path.join(tmp, "overlay-%s.json" % group)
    json.dump({"Replace": overlay(group, tmp)}, open(ov, "w"))
    binp = os.path.join(tmp, "bin-" + group)
    p = subprocess.run(["go", "build", "-overlay", ov, "-o", binp, "./zz_verif/cmd/" + group],
                       cwd=REPO, env=goenv(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        log(p.stdout[-8000:])
        log("build of harness group %s failed" % group)
        return None, None
    extra = None
    if CFG["groups"][group].get("daemon"):
        extra = os.path.join(tmp, "storetheindex")
        p = subprocess.run(["go", "build", "-o", extra, "."], cwd=REPO, env=goenv(),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            log(p.stdout[-8000:])
            return None, None
    return binp, extra


def crash_class(text):
    """Is this Go crash output one where the code under test is on the crashing stack?"""
    m = re.search(r"^(panic: |fatal error: |unexpected fault address|SIGSEGV|runtime: )", text, re.M)
    if not m:
        return None
    body = text[m.start():]
    # first goroutine block after the panic line
    gs = re.split(r"\n\n", body)
    first = ""
    for g in gs:
        if g.lstrip().startswith("goroutine "):
            first = g
            break
    in_repo = False
    in_harness_first = False
    for line in first.splitlines():
        if line.startswith("\t"):
            continue
        if "storetheindex/zz_verif/" in line:
            if not in_repo:
                in_harness_first = True
            break
        if "filecoin-project/storetheindex/" in line:
            in_repo = True
            break
    return dict(head=body[:3000], in_repo=in_repo, harness=in_harness_first)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("--shards", type=int, default=0)
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--sub", default="")
    a = ap.parse_args()
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="verifcheck.")
    try:
        if a.setup:
            ok = True
            for g in CFG["groups"]:
                b, _ = build(g, tmp)
                ok = ok and b is not None
            return 0 if ok else 2
        return check(a, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass


def check(a, tmp, t0):
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = int(hashlib.sha256(os.environ["VERIF_SEED"].encode()).hexdigest()[:8], 16)
    prop = a.prop
    pc = CFG["properties"][prop]
    group = pc["group"]
    binp, extra = build(group, tmp)
    if binp is None:
        return 2
    env = goenv()
    env["GOTRACEBACK"] = "all"
    env["VERIF_HARNESS"] = VERIF + "/harness"
    # logging of the code under test stays off unless a check asks for it
    env["GOLOG_LOG_LEVEL"] = env.get("GOLOG_LOG_LEVEL", "dpanic")
    if extra:
        env["VERIF_DAEMON_BIN"] = extra
    base = [binp, "-prop", prop, "-seed", str(seed), "-tier", a.tier, "-known", KNOWN]
    if a.sub:
        base += ["-sub", a.sub]
    if a.replay:
        w = os.path.join(tmp, "w")
        os.makedirs(w)
        return subprocess.run([binp, "-prop", prop, "-replay", os.path.abspath(a.replay), "-work", w], env=env, cwd=tmp).returncode

    shards = a.shards or pc.get("shards", 8)
    maxsecs = pc.get("maxsecs", {}).get(a.tier, 300 if a.tier == "quick" else 3000)
    hard = maxsecs + 240
    procs = []
    for i in range(shards):
        w = os.path.join(tmp, "w%d" % i)
        os.makedirs(w)
        o = open(os.path.join(w, "stdout"), "w")
        e = open(os.path.join(w, "stderr"), "w")
        p = subprocess.Popen(base + ["-shard", str(i), "-shards", str(shards), "-work", w, "-scale", str(a.scale),
                                     "-out", os.path.join(w, "res.json"), "-maxsecs", str(maxsecs)],
                             env=env, cwd=w, stdout=o, stderr=e, start_new_session=True)
        procs.append((i, w, p))
    violations, infra, results = [], [], []
    deadline = time.time() + hard
    pending = list(procs)
    while pending and time.time() < deadline:
        for t in list(pending):
            i, w, p = t
            if p.poll() is None:
                continue
            pending.remove(t)
            if p.returncode == 1:
                # one violation is enough: stop the other shards
                deadline = min(deadline, time.time() + 5)
        time.sleep(0.05)
    for i, w, p in pending:
        kill(p)
        p.wait()
    stopped = {i for i, _, _ in pending}
    for i, w, p in procs:
        kill(p)
        rf = os.path.join(w, "res.json")
        if os.path.exists(rf):
            try:
                r = json.load(open(rf))
                results.append(r)
                for rp, msg in zip(r.get("violations") or [], r.get("messages") or []):
                    violations.append((rp, msg))
                for x in r.get("infra") or []:
                    infra.append(x)
            except ValueError as ex:
                infra.append("shard %d: unreadable result: %s" % (i, ex))
        if i in stopped:
            continue
        if p.returncode not in (0, 1):
            txt = open(os.path.join(w, "stderr"), errors="replace").read()
            c = crash_class(txt)
            jf = None
            for f in os.listdir(w):
                if f.startswith("journal."):
                    jf = json.load(open(os.path.join(w, f)))
            if c and jf and not c["harness"]:
                # a background goroutine of the code under test (or of a library it drives) crashed the process
                rp = os.path.join(w, "replay.crash.json")
                json.dump(dict(property=prop, sub=jf["sub"], **{"class": "crash"}, message=c["head"], tier=a.tier,
                               seed=seed, case=jf["case"], choices=None), open(rp, "w"), indent=1)
                again = 0
                for k in range(3):
                    w2 = os.path.join(w, "again%d" % k)
                    os.makedirs(w2)
                    try:
                        q = subprocess.run([binp, "-prop", prop, "-sub", jf["sub"], "-replay", rp, "-work", w2],
                                           env=env, cwd=w2, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                                           errors="replace", timeout=120)
                        if q.returncode == 1 or (q.returncode not in (0, 1) and crash_class(q.stderr)):
                            again += 1
                    except subprocess.TimeoutExpired:
                        pass
                if c["in_repo"] or again:
                    violations.append((rp, "process crashed in sub-check %s case %d (reproduced %d of 3):\n%s"
                                       % (jf["sub"], jf["case"], again, c["head"])))
                else:
                    infra.append("shard %d: unreproducible crash outside the code under test: %s" % (i, c["head"][:600]))
            else:
                infra.append("shard %d exited %s: %s" % (i, p.returncode, txt[-3000:]))
    hung = [i for i in stopped if not violations]
    rc = finish(a, prop, pc, seed, t0, violations, infra, results, hung)
    return rc


def clip(x, n=1500, m=60):
    """Samples in the evidence file stay readable."""
    if isinstance(x, str):
        return x if len(x) <= n else x[:n] + "... (%d characters)" % len(x)
    if isinstance(x, list):
        return [clip(y, n, m) for y in x[:m]] + (["... (%d entries)" % len(x)] if len(x) > m else [])
    if isinstance(x, dict):
        return {k: clip(v, n, m) for k, v in x.items()}
    return x


def finish(a, prop, pc, seed, t0, violations, infra, results, hung):
    ev = dict(evaluations=0, distinct_nontrivial=0, rule="", samples=[])
    keys, labels, rules, per, known, ks = set(), {}, {}, {}, {}, {}
    discarded = 0
    timed = 0
    for r in results:
        ev["evaluations"] += r["evaluations"]
        discarded += r["discarded"]
        keys.update(r.get("nontrivial_keys") or [])
        for k, v in (r.get("labels") or {}).items():
            labels[k] = labels.get(k, 0) + v
        rules.update(r.get("rules") or {})
        for k, v in (r.get("per_sub") or {}).items():
            per[k] = per.get(k, 0) + v
        for k, v in (r.get("known") or {}).items():
            known[k] = known.get(k, 0) + v
        for k, v in (r.get("known_sample") or {}).items():
            ks.setdefault(k, v)
        if len(ev["samples"]) < 6:
            ev["samples"] += clip((r.get("samples") or [])[:2])
        timed += bool(r.get("stopped_by_time"))
    ev["distinct_nontrivial"] = len(keys)
    ev["rule"] = " | ".join("%s: %s" % (k, v) if k else v for k, v in sorted(rules.items()))
    ev["labels"] = dict(sorted(labels.items()))
    ev["cases_per_subcheck"] = per
    ev["discarded"] = discarded
    ev["shards_stopped_by_time"] = timed
    ev["harness_errors"] = len(infra)
    if known:
        ev["known_findings_seen"] = known
    out = dict(property=prop, tier=a.tier if a.tier in ("quick", "thorough") else "quick", seed=seed, level=LEVEL,
               coverage=ev, assumptions=pc.get("assumptions", []), wall_s=round(time.time() - t0, 2),
               violations=len(violations))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(out, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    kf = []
    if os.path.exists(KNOWN):
        kf = [k for k in json.load(open(KNOWN))["findings"] if k["property"] == prop and k["status"] == "known"]
    if violations:
        rd = os.path.join(VERIF, "replays")
        os.makedirs(rd, exist_ok=True)
        for n, (rp, msg) in enumerate(violations[:3]):
            dst = os.path.join(rd, "%s.%d.json" % (prop, n))
            d = json.load(open(rp))
            d["how_to_replay"] = "python3 /verif/check.py %s --replay %s" % (prop, dst)
            json.dump(d, open(dst, "w"), indent=1)
            print(msg[:4000])
            for l in (d.get("case_description") or [])[:80]:
                print("   ", l)
            print("VIOLATION property=%s replay=%s" % (prop, dst), flush=True)
        return 1
    if hung or not results or ev["evaluations"] == 0:
        for x in infra[:5]:
            log(x)
        log("no answer: shards without result: %s" % hung)
        return 2
    if len(infra) > 0:
        for x in infra[:5]:
            log(x[:2000])
        if ev["evaluations"] < 10 * len(infra):
            return 2
    for k in kf:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["text"]))
    print("property=%s tier=%s seed=%d cases=%d nontrivial=%d wall=%.1fs: held" % (
        prop, a.tier, seed, ev["evaluations"], ev["distinct_nontrivial"], time.time() - t0), flush=True)
    return 0


if __name__ == "__main__":
    sys.exit(main())
