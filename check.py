#!/usr/bin/env python3
"""check.py PROP [--tier quick|thorough] [--replay FILE] [--n N] [--only gen|model]
Decides one property: model-checks its TLA+ design specification with TLC, runs the cases TLC
emits and randomly generated ones on the real code, and has TLC judge every recorded step
against the specification.  Exit 0: held.  Exit 1: VIOLATION line.  Exit 2: tool trouble."""
import argparse, concurrent.futures as cf, fcntl, hashlib, json, os, re, shutil, subprocess, sys, time

ROOT = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(ROOT, "spec")
BUILD = os.path.join(ROOT, ".build")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
sys.path.insert(0, os.path.join(ROOT, "tools"))
from plan import PLAN  # noqa: E402

SHARDS = 8
T0 = time.time()


class Trouble(Exception):
    pass


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, flush=True)


def build(variant):
    os.makedirs(BUILD, exist_ok=True)
    target = os.path.join(BUILD, "target" if variant == "sp" else "target-" + variant)
    cmd = ["cargo", "build", "--offline", "--locked", "-q", "--manifest-path", os.path.join(ROOT, "harness/Cargo.toml")]
    if variant == "nosp":
        cmd += ["--no-default-features"]
    env = dict(os.environ, CARGO_TARGET_DIR=target, CARGO_NET_OFFLINE="true")
    env.pop("RUSTFLAGS", None)
    with open(os.path.join(BUILD, "lock." + variant), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        # Contents decide what is rebuilt, not time stamps.
        h = hashlib.sha256()
        for top in ("/repo/src", "/repo/Cargo.toml", os.path.join(ROOT, "harness/src"), os.path.join(ROOT, "harness/Cargo.toml")):
            files = [top] if os.path.isfile(top) else sorted(os.path.join(d, f) for d, _, fs in os.walk(top) for f in fs)
            for f in files:
                h.update(f.encode() + b"\0" + open(f, "rb").read() + b"\0")
        stamp = os.path.join(BUILD, "hash." + variant)
        if os.path.exists(target) and (not os.path.exists(stamp) or open(stamp).read() != h.hexdigest()):
            subprocess.run(["cargo", "clean", "-q", "--offline", "--manifest-path", os.path.join(ROOT, "harness/Cargo.toml"),
                            "-p", "psbt-v2", "-p", "psbt-harness"], env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=800)
    if p.returncode != 0:
        raise Trouble("harness does not build:\n" + p.stdout[-3000:])
    with open(stamp, "w") as f:
        f.write(h.hexdigest())
    return os.path.join(target, "debug/psbt-harness")


def tlc(module, cfg, meta, workers, env=None, extra=(), timeout=800, heap="3g"):
    os.makedirs(meta, exist_ok=True)
    cmd = ["java", "-Djava.io.tmpdir=" + meta, "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-XX:TieredStopAtLevel=4",
           "-cp", CP, "tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-config", cfg, *extra, module]
    out = os.path.join(meta, "out.txt")
    os.makedirs(meta, exist_ok=True)
    with open(out, "w") as f:
        p = subprocess.Popen(cmd, cwd=SPEC, env=dict(os.environ, **(env or {})), stdout=f, stderr=subprocess.STDOUT)
        try:
            rc = p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            raise Trouble("TLC timed out on %s" % module)
    return rc, out


def stats(text):
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", text)
    if not m:
        m2 = re.findall(r"The number of states generated: ([\d,]+)", text)
        return (int(m2[-1].replace(",", "")),) * 2 if m2 else (0, 0)
    return tuple(int(x.replace(",", "")) for x in m[-1])


def run_model(name, tier, work, m):
    """Model-check one design spec; returns (emitted case lines, stats)."""
    cfg = m.get("cfg_" + tier, m.get("cfg", name + ".cfg"))
    meta = os.path.join(work, "mc_" + os.path.splitext(cfg)[0])
    extra = list(m.get("extra_" + tier, m.get("extra", [])))
    if "-simulate" in extra:
        extra += ["-seed", str(seed())]
    rc, out = tlc(name, cfg, meta, m.get("workers", 8), extra=extra, env=dict(SEED=str(seed())), timeout=m.get("timeout_" + tier, 700), heap=m.get("heap", "6g"))
    rest, cases = [], set()
    with open(out) as f:
        for line in f:
            if line.startswith('"CASE '):
                cases.add(json.loads(line)[5:])
            else:
                rest.append(line)
    text = "".join(rest)
    ok = rc == 0 and ("No error has been found" in text or ("-simulate" in extra and "Error:" not in text))
    if not ok:
        raise Trouble("model %s (%s) does not hold or did not run (rc %d):\n%s" % (name, cfg, rc, text[-3000:]))
    gen, dist = stats(text)
    return sorted(cases), dict(module=name, cfg=cfg, states_generated=gen, distinct_states=dist, cases=len(cases))


def seed():
    return int(os.environ.get("VERIF_SEED", "1"))


def shard(binary, prop, judge, work, tag, mode):
    """Run the harness for one shard and judge its records.  Returns dict."""
    d = os.path.join(work, tag)
    os.makedirs(d, exist_ok=True)
    rec = os.path.join(d, "rec.nd")
    if mode[0] == "exec":
        cases = os.path.join(d, "cases.nd")
        with open(cases, "w") as f:
            f.write("\n".join(mode[1]) + "\n")
        cmd = [binary, "exec", prop, cases, rec]
    else:
        cmd = [binary, "gen", prop, str(seed()), str(mode[1]), str(mode[2]), rec]
    bad = []
    env = dict(os.environ, RUST_BACKTRACE="0")
    with open(os.path.join(d, "err.txt"), "w") as err:
        p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=err, env=env)
        cur, since, last = rec + ".cases", time.time(), None
        hung = False
        while True:
            try:
                rc = p.wait(timeout=0.2 if time.time() - since < 3 else 2)
                break
            except subprocess.TimeoutExpired:
                try:
                    now = os.stat(cur).st_size
                except OSError:
                    now = None
                if now != last:
                    last, since = now, time.time()
                elif time.time() - since > 60:
                    hung = True
                    p.kill()
                    rc = p.wait()
                    break
    if hung or rc != 0:
        case = None
        try:
            done = [x for x in open(cur).read().split("\n") if x]
            case = json.loads(done[-1])
        except (OSError, IndexError, ValueError):
            pass
        tail = open(os.path.join(d, "err.txt")).read()[-800:]
        if rc == -9 and not hung:
            raise Trouble("harness was killed (memory?)")
        if rc == 101 and "HARNESS" in tail or case is None:
            raise Trouble("harness failed (rc %s): %s" % (rc, tail))
        bad.append(dict(msg=("no result within 60 s" if hung else "process ended with status %d: %s" % (rc, tail[-300:])), case=case, rec=None))
        # Judge what was completed.
        lines = [x for x in open(rec, errors="replace").read().split("\n") if x]
        good = []
        for x in lines:
            try:
                json.loads(x)
                good.append(x)
            except ValueError:
                break
        with open(rec, "w") as f:
            f.write("".join(x + "\n" for x in good))
    n = sum(1 for x in open(rec) if x.strip())
    res = dict(n=n, bad=bad, samples=[], notes={}, gen=0, dist=0)
    if n == 0:
        return res
    rc, out = tlc(judge, "judge.cfg", os.path.join(d, "tlc"), 1, env=dict(TRACE=rec, PROP=prop))
    text = open(out, errors="replace").read()
    bads = [(int(a), b) for a, b in re.findall(r'^"BAD (\d+) (.*)"$', text, re.M)]
    for note in re.findall(r'^"NOTE (.*)"$', text, re.M):
        res["notes"][note] = res["notes"].get(note, 0) + 1
    lines = None
    if bads or "Error:" in text:
        lines = [x for x in open(rec).read().split("\n") if x]
        inputs = [x for x in open(rec + ".cases").read().split("\n") if x]
    for i, msg in bads:
        bad.append(dict(msg=msg, rec=json.loads(lines[i - 1]), case=json.loads(inputs[i - 1])))
    if "Error:" in text:
        if re.search(r"OutOfMemory|StackOverflow|Parsing or semantic|SANY|Could not find|Unknown operator", text):
            raise Trouble("TLC trouble in %s:\n%s" % (judge, text[-3000:]))
        ls = [int(x) for x in re.findall(r"\bl = (\d+)", text)]
        i = max(ls) if ls else 1
        msg = " ".join(text[text.index("Error:"):].split())[:500]
        bad.append(dict(msg="record cannot be explained by the specification: " + msg, rec=json.loads(lines[min(i, len(lines)) - 1]), case=json.loads(inputs[min(i, len(lines)) - 1])))
    elif "No error has been found" not in text:
        raise Trouble("judge %s did not finish (rc %d):\n%s" % (judge, rc, text[-2000:]))
    res["gen"], res["dist"] = stats(text)
    with open(rec) as f:
        first = f.readline().strip()
    res["samples"] = [first[:600]]
    if not bad:
        shutil.rmtree(d)
    return res


def known():
    path = os.path.join(ROOT, "known_findings.json")
    return json.load(open(path))["findings"] if os.path.exists(path) else []


def matches(k, b):
    """A listed finding matches by its property, message pattern and a pattern on the record."""
    if not re.search(k["message"], b["msg"]):
        return False
    blob = json.dumps(b["rec"] if b["rec"] is not None else b["case"])
    return all(re.search(x, blob) for x in k.get("record", []))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--n", type=int)
    ap.add_argument("--only")
    a = ap.parse_args()
    prop, tier = a.prop, a.tier
    plan = PLAN[prop]
    work = os.path.join(ROOT, ".work", prop)
    if os.path.isdir(work):
        shutil.rmtree(work)
    os.makedirs(work)
    variants = plan.get("variants", ["sp"])
    bins = {v: build(v) for v in variants}
    log("harness built")
    judge = plan.get("judge", "Judge_" + prop)
    models, jobs, allbad = [], [], []
    if a.replay:
        rp = json.load(open(a.replay))
        jobs.append((bins[rp.get("variant", variants[0])], "replay", ("exec", [json.dumps(rp["case"])])))
    else:
        pool = cf.ThreadPoolExecutor(SHARDS)
        cases = {v: [] for v in variants}
        if a.only != "gen":
            for m in plan.get("models", []):
                if tier not in m.get("tiers", ["quick", "thorough"]):
                    continue
                c, st = run_model(m["name"], tier, work, m)
                models.append(st)
                for v in m.get("variants", variants):
                    cases[v] += c
                log("model", st)
            if plan.get("corpus"):
                for v in variants:
                    cases[v] += [x for x in open(os.path.join(ROOT, plan["corpus"])).read().split("\n") if x]
        chunk = plan.get("chunk", 1500)
        for v in variants:
            cs = list(dict.fromkeys(cases[v]))
            per = max(1, min(chunk, -(-len(cs) // SHARDS)))
            for i in range(0, len(cs), per):
                jobs.append((bins[v], "x%s%d" % (v, i), ("exec", cs[i:i + per])))
            n = a.n if a.n is not None else plan["gen"][tier]
            if a.only == "model":
                n = 0
            if len(variants) > 1:
                n = n // len(variants)
            per = max(1, min(chunk, -(-n // SHARDS)))
            for i in range(0, n, per):
                jobs.append((bins[v], "g%s%d" % (v, i), ("gen", i, min(per, n - i))))
    pool = cf.ThreadPoolExecutor(SHARDS)
    futs = [(j, pool.submit(shard, j[0], prop, judge, work, j[1], j[2])) for j in jobs]
    tot = dict(n=0, gen=0, dist=0)
    samples, notes, ncase, trouble = [], {}, 0, None
    for j, f in futs:
        try:
            r = f.result()
        except Trouble as e:
            trouble = e
            continue
        for k in tot:
            tot[k] += r[k]
        for k, v in r["notes"].items():
            notes[k] = notes.get(k, 0) + v
        for b in r["bad"]:
            b["variant"] = [v for v in variants if bins[v] == j[0]][0]
        allbad += r["bad"]
        if j[2][0] == "exec":
            ncase += r["n"]
        if len(samples) < 3:
            samples += r["samples"][:1]
    if trouble and not allbad:
        raise trouble
    log("judged", tot["n"], "records,", len(allbad), "rejected")
    for k in sorted(notes):
        log("note", k, notes[k])
    kn = [k for k in known() if k.get("property") == prop and not k.get("fixed")]
    hit, fresh = set(), []
    for b in allbad:
        ms = [i for i, k in enumerate(kn) if matches(k, b)]
        if ms:
            hit.add(ms[0])
        else:
            fresh.append(b)
    if not a.replay:
        for i in sorted(hit) if a.only or a.n is not None else range(len(kn)):
            print("KNOWN-FINDING: property=%s %s" % (prop, kn[i]["what"]))
        cov = dict(states=sum(m["distinct_states"] for m in models) + tot["dist"],
                   transitions=sum(m["states_generated"] for m in models) + tot["gen"],
                   traces_validated_against_impl=tot["n"], samples=samples,
                   cases_emitted_by_tlc=ncase, cases_generated=tot["n"] - ncase, models=models,
                   judge=judge, situations=notes, rejected=len(allbad), rejected_not_listed=len(fresh))
        if plan["level"] != "model_checking":
            cov.update(evaluations=tot["n"], distinct_nontrivial=tot["n"], rule=plan.get("rule", ""))
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        json.dump(dict(property=prop, tier=tier, seed=seed(), level=plan["level"], coverage=cov, wall_s=round(time.time() - T0, 1)),
                  open(os.path.join(ROOT, "evidence", prop + ".json"), "w"), indent=1)
    if fresh:
        seen = {}
        for b in fresh:
            key = re.sub(r"[0-9a-f]{6,}", "#", b["msg"])
            seen.setdefault(key, []).append(b)
        rdir = os.path.join(ROOT, ".work", "replay")
        os.makedirs(rdir, exist_ok=True)
        for key, bs in sorted(seen.items(), key=lambda kv: -len(kv[1]))[:12]:
            b = min(bs, key=lambda x: len(json.dumps(x["case"])))
            blob = dict(property=prop, variant=b["variant"], message=b["msg"], case=b["case"], record=b["rec"])
            path = os.path.join(rdir, "%s-%s.json" % (prop, hashlib.sha1(json.dumps(blob).encode()).hexdigest()[:10]))
            json.dump(blob, open(path, "w"))
            log("%d x %s" % (len(bs), b["msg"][:300]))
            print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
        return 1
    log("held")
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Trouble as e:
        print("TROUBLE:", e, flush=True)
        sys.exit(2)
    except subprocess.TimeoutExpired as e:
        print("TROUBLE: timeout", e, flush=True)
        sys.exit(2)
