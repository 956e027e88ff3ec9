#!/usr/bin/env python3
"""Runs the generated-input check of one property.

  check.py PROP [--tier quick|thorough]      (VERIF_SEED and VERIF_TIER are honoured)
  check.py PROP --replay FILE                 replays one recorded failure
  check.py --setup                            builds everything once

Exit 0: held on everything generated; 1: VIOLATION line printed; 2: the check itself failed.
"""
import argparse, glob, hashlib, json, os, resource, shutil, signal, struct, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(HERE, "harness")
TARGET = os.path.join(HERE, "target")
REPLAYS = os.path.join(HERE, "replays")
EVIDENCE = os.path.join(HERE, "evidence")
FINDINGS = os.path.join(HERE, "known-findings.json")
NWORKERS = 8

sys.path.insert(0, HERE)
from props import PROPS, VARIANTS  # noqa: E402


def log(*a):
    print(*a, flush=True)


def cargo_env():
    env = dict(os.environ)
    for k in list(env):
        if k.startswith(("CARGO_PROFILE", "RUSTFLAGS", "RUSTC", "CARGO_ENCODED", "CARGO_BUILD", "MIRIFLAGS")) or k == "CARGO_TARGET_DIR":
            del env[k]
    env["CARGO_NET_OFFLINE"] = "true"
    env["CARGO_TERM_COLOR"] = "never"
    env["CARGO_INCREMENTAL"] = "0"
    home = env.get("HOME") or "/root"
    env["HOME"] = home
    env["PATH"] = home + "/.cargo/bin:/root/.cargo/bin:" + env.get("PATH", "/usr/bin:/bin")
    env.setdefault("RUSTUP_TOOLCHAIN", "stable")
    env["RUST_BACKTRACE"] = "0"
    return env


def build(names):
    """Builds the variants in parallel; returns {variant: binary}."""
    procs = {}
    t0 = time.time()
    for n in names:
        v = VARIANTS[n]
        tdir = os.path.join(TARGET, n)
        cmd = ["cargo"] + v.get("toolchain", []) + ["build", "--offline", "--manifest-path", os.path.join(HARNESS, "Cargo.toml"),
               "--target-dir", tdir, "--features", v["features"]] + v["args"]
        env = cargo_env()
        env.update(v.get("env", {}))
        procs[n] = subprocess.Popen(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=HARNESS)
    bins = {}
    bad = False
    for n, p in procs.items():
        out, _ = p.communicate()
        if p.returncode != 0:
            log(f"ERROR: building variant {n} failed:\n{out[-4000:]}")
            bad = True
        bins[n] = os.path.join(TARGET, n, VARIANTS[n]["out"], "qcheck")
    if bad:
        sys.exit(2)
    return bins, time.time() - t0


def limits():
    os.setsid()
    gb = 1 << 30
    resource.setrlimit(resource.RLIMIT_AS, (6 * gb, 6 * gb))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def limits_noas():
    os.setsid()
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def worker_env(prop, variant):
    env = dict(os.environ)
    env["RUST_BACKTRACE"] = "0"
    env.update(VARIANTS[variant].get("run_env", {}))
    env.update(PROPS[prop].get("env", {}))
    return env


def preexec(variant):
    return limits_noas if VARIANTS[variant].get("noas") else limits


def cpu_of(pid):
    try:
        f = open(f"/proc/{pid}/stat").read().rsplit(")", 1)[1].split()
        return (int(f[11]) + int(f[12])) / os.sysconf("SC_CLK_TCK")
    except (OSError, IndexError):
        return None


class Outcome:
    def __init__(self, kind, info=None):
        self.kind = kind  # ok | fail | foreign | crash | hang | error
        self.info = info or {}


def run_once(binary, variant, prop, args, stall=40):
    """Runs one case in its own process and classifies how it ended."""
    with tempfile.TemporaryDirectory(prefix="qc") as d:
        fp = os.path.join(d, "fail.json")
        p = subprocess.Popen([binary, args[0], prop] + args[1:] + ["--fail", fp], stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                             preexec_fn=preexec(variant), env=worker_env(prop, variant))
        t0 = time.time()
        try:
            out, err = p.communicate(timeout=stall)
        except subprocess.TimeoutExpired:
            cpu = cpu_of(p.pid)
            os.killpg(p.pid, signal.SIGKILL)
            p.communicate()
            wall = time.time() - t0
            # a single-threaded case normally takes milliseconds: either it burnt the whole time
            # (endless loop) or none of it (deadlock); anything between is inconclusive
            if cpu is not None and (cpu > 0.5 * wall or cpu < 0.05 * wall + 0.5):
                return Outcome("hang", {"msg": f"the case did not end within {wall:.0f}s ({cpu:.1f}s of CPU used)", "classes": "HANG"})
            return Outcome("error", {"msg": "inconclusive stall"})
        if p.returncode == 0:
            try:
                return Outcome("ok", json.loads(out.decode().strip().splitlines()[-1]))
            except Exception:
                return Outcome("error", {"msg": "bad output: " + out.decode(errors="replace")[-500:]})
        if p.returncode in (77, 78):
            try:
                info = json.load(open(fp))
            except Exception:
                return Outcome("error", {"msg": "no failure record"})
            return Outcome("fail" if p.returncode == 77 else "foreign", info)
        if p.returncode < 0 and -p.returncode not in (signal.SIGKILL, signal.SIGTERM, signal.SIGINT):
            msg = f"the process died of {signal.Signals(-p.returncode).name}: {err.decode(errors='replace')[-1500:]}"
            return Outcome("crash", {"msg": msg, "classes": "PANIC"})
        return Outcome("error", {"msg": f"exit {p.returncode}: {err.decode(errors='replace')[-500:]}"})


class Shrinker:
    def __init__(self, binary, variant, prop, kind, tape, marks, budget):
        self.b, self.v, self.p, self.kind = binary, variant, prop, kind
        self.best, self.marks = tape, marks
        self.deadline = time.time() + budget
        self.runs = 0
        self.info = None

    def try_(self, tape):
        if time.time() > self.deadline or tape == self.best:
            return False
        self.runs += 1
        with tempfile.NamedTemporaryFile("w", suffix=".tape", prefix="qc", delete=False) as f:
            f.write(" ".join(map(str, tape)))
        try:
            o = run_once(self.b, self.v, self.p, ["exec", "--tape", f.name], stall=20)
        finally:
            os.unlink(f.name)
        if o.kind != self.kind:
            return False
        if o.kind == "fail":
            t = o.info["tape"][:len(tape)]
            # entries past the end of the tape read as zero
            self.best, self.marks, self.info = t, o.info["marks"], o.info
        else:
            self.best, self.info = tape, o.info
            self.marks = [m for m in self.marks if m < len(tape)]
        return True

    def spans(self):
        m = [x for x in self.marks if x < len(self.best)] + [len(self.best)]
        return list(zip(m, m[1:]))

    def run(self):
        changed = True
        while changed and time.time() < self.deadline:
            changed = False
            # remove runs of operations
            size = max(1, len(self.spans()) // 2)
            while size >= 1:
                i = 0
                while i < len(self.spans()):
                    sp = self.spans()[i:i + size]
                    t = self.best[:sp[0][0]] + self.best[sp[-1][1]:]
                    if len(t) < len(self.best) and self.try_(t):
                        changed = True
                    else:
                        i += size
                    if time.time() > self.deadline:
                        break
                size //= 2
            # drop the tail
            n = len(self.best)
            while n > 0 and self.try_(self.best[:n // 2]):
                n = len(self.best)
                changed = True
            # smaller values
            i = 0
            while i < len(self.best) and time.time() < self.deadline:
                x = self.best[i]
                if x:
                    for y in (0, x // 2, x - 1):
                        if y < x and self.try_(self.best[:i] + [y] + self.best[i + 1:]):
                            changed = True
                            break
                i += 1
            # remove single entries
            if len(self.best) < 400:
                i = len(self.best) - 1
                while i >= 0 and time.time() < self.deadline:
                    if i < len(self.best) and self.try_(self.best[:i] + self.best[i + 1:]):
                        changed = True
                    i -= 1
        return self.best


def known_findings(prop):
    try:
        data = json.load(open(FINDINGS))
    except OSError:
        return []
    return [f for f in data.get("findings", []) if f.get("property") == prop]


def violation(prop, variant, binary, kind, info, tape, marks, seed, idx):
    budget = 75
    runs = 0
    if tape is not None and kind in ("fail", "crash"):
        sh = Shrinker(binary, variant, prop, kind, tape, marks or [], budget)
        sh.run()
        runs = sh.runs
        tape = sh.best
        info = sh.info or info
        with tempfile.NamedTemporaryFile("w", suffix=".tape", prefix="qc", delete=False) as f:
            f.write(" ".join(map(str, tape)))
        o = run_once(binary, variant, prop, ["exec", "--tape", f.name, "--trace"])
        os.unlink(f.name)
        if o.kind == kind:
            info = o.info
    os.makedirs(REPLAYS, exist_ok=True)
    h = hashlib.sha1(json.dumps([tape, variant, idx]).encode()).hexdigest()[:10]
    path = os.path.join(REPLAYS, f"{prop}-{h}.json")
    json.dump({"property": prop, "variant": variant, "kind": kind, "classes": info.get("classes"), "message": info.get("msg"),
               "trace": info.get("trace", []), "tape": tape, "seed": seed, "case": idx, "shrink_runs": runs,
               "replay": f"python3 check.py {prop} --replay {path}"}, open(path, "w"), indent=1)
    log(f"property {prop} is violated ({info.get('classes')}): {info.get('msg')}")
    for line in info.get("trace", [])[-40:]:
        log("   " + line)
    log(f"VIOLATION property={prop} replay={path}")
    return path


def supervise(prop, bins, assign, seed, cases, secs, out):
    """Runs the workers; returns (result, data)."""
    workers = {}
    foreign = Foreign()
    odd = set()

    def start(i, frm):
        v = assign[i]
        p = subprocess.Popen([bins[v], "run", prop, "--seed", str(seed), "--worker", str(i), "--of", str(NWORKERS), "--from", str(frm),
                              "--cases", str(int(cases * VARIANTS[v].get("share", 1))), "--secs", str(max(1, int(deadline - time.time()))), "--out", out],
                             stdout=open(os.path.join(out, f"log.{i}"), "ab"), stderr=subprocess.STDOUT,
                             preexec_fn=preexec(v), env=worker_env(prop, v))
        workers[i] = {"p": p, "cur": None, "since": time.time(), "from": frm}

    def cur(i):
        try:
            return struct.unpack("<Q", open(os.path.join(out, f"cur.{i}"), "rb").read())[0]
        except (OSError, struct.error):
            return None

    def kill_all():
        for w in workers.values():
            try:
                os.killpg(w["p"].pid, signal.SIGKILL)
            except OSError:
                pass
        for w in workers.values():
            w["p"].wait()

    deadline = time.time() + secs
    for i in range(NWORKERS):
        start(i, i)
    stall = PROPS[prop].get("stall", 60)
    try:
        while workers:
            time.sleep(0.005 if foreign else 0.05)
            for i in list(workers):
                w = workers[i]
                rc = w["p"].poll()
                c = cur(i)
                if c != w["cur"]:
                    w["cur"], w["since"] = c, time.time()
                if rc is None:
                    if time.time() - w["since"] > stall:
                        os.killpg(w["p"].pid, signal.SIGKILL)
                        w["p"].wait()
                        del workers[i]
                        r = confirm(prop, bins, assign[i], seed, c, "hang")
                        if r or c is None or len(odd) > 5:
                            return r or ("error", "several cases stalled once but not again")
                        # a stalled machine
                        odd.add((i, c))
                        start(i, c)
                    continue
                del workers[i]
                if rc == 0:
                    continue
                if rc == 77:
                    info = json.load(open(os.path.join(out, f"fail.{i}.json")))
                    kill_all()
                    return "violation", (assign[i], "fail", info, info["tape"], info["marks"], info["idx"])
                if rc == 78:
                    info = json.load(open(os.path.join(out, f"fail.{i}.json")))
                    foreign.add(info, (info["idx"] - w["from"]) // NWORKERS + 1)
                    if time.time() < deadline:
                        start(i, info["idx"] + NWORKERS)
                    continue
                if rc == 2:
                    kill_all()
                    return "error", open(os.path.join(out, f"log.{i}"), errors="replace").read()[-2000:]
                if -rc == signal.SIGKILL:
                    kill_all()
                    return "error", "a worker was killed (out of memory?)"
                r = confirm(prop, bins, assign[i], seed, c, "crash")
                if r or c is None or len(odd) > 5:
                    return r or ("error", "several cases crashed once but not again")
                if (i, c) in odd:
                    # again at the same point of the same sequence of cases: the damage was done before
                    return "violation", (assign[i], "crash", {"msg": f"the process died of signal {-rc} in case {c}, each time the cases from {w['from']} on were run by one process", "classes": "PANIC"}, None, [], c)
                odd.add((i, c))
                start(i, w["from"])
    finally:
        kill_all()
    return "ok", foreign


class Foreign(list):
    """Cases ended by violations of other properties."""
    total = 0
    cases = 0

    def add(self, info, cases):
        self.total += 1
        self.cases += cases
        if len(self) < 50:
            self.append({"classes": info["classes"], "msg": info["msg"][:300], "idx": info["idx"]})


def confirm(prop, bins, variant, seed, idx, what):
    """A worker crashed or hung in case idx: does it do so again on its own?"""
    if idx is None:
        return None
    jt = tempfile.mktemp(prefix="qcj")
    o = run_once(bins[variant], variant, prop, ["one", "--seed", str(seed), "--idx", str(idx), "--journal-tape", jt])
    try:
        tape = list(map(int, open(jt).read().split()))
        os.unlink(jt)
    except OSError:
        tape = None
    if o.kind in ("crash", "hang"):
        return "violation", (variant, o.kind, o.info, tape, [], idx)
    if o.kind == "fail":
        return "violation", (variant, "fail", o.info, o.info["tape"], o.info["marks"], idx)
    log(f"note: case {idx} ({variant}) ended in a {what} once but not again: {o.kind} {o.info.get('msg')}")
    return None


def sample(bins, assign, prop, seed, idxs):
    out = []
    for i in idxs:
        v = assign[i % NWORKERS]
        o = run_once(bins[v], v, prop, ["one", "--seed", str(seed), "--idx", str(i), "--trace"])
        if o.kind == "ok":
            tr = o.info["trace"]
            out.append({"case": i, "variant": v, "steps": tr[:60], "truncated": len(tr) > 60})
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--cases", type=int)
    ap.add_argument("--secs", type=int)
    ap.add_argument("--replay")
    ap.add_argument("--setup", action="store_true")
    a = ap.parse_args()
    if a.setup:
        _, s = build([n for n in VARIANTS if not VARIANTS[n].get("thorough_only")])
        log(f"built in {s:.1f}s")
        return 0
    prop = a.prop
    P = PROPS[prop]
    t0 = time.time()
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    assign = P["workers"]
    if tier == "thorough" and "thorough_workers" in P:
        assign = P["thorough_workers"]
    if a.replay:
        r = json.load(open(a.replay))
        bins, _ = build([r["variant"]])
        with tempfile.NamedTemporaryFile("w", suffix=".tape", delete=False) as f:
            f.write(" ".join(map(str, r["tape"] or [])))
        o = run_once(bins[r["variant"]], r["variant"], prop, ["exec", "--tape", f.name, "--trace"])
        os.unlink(f.name)
        log(json.dumps(o.info, indent=1))
        if o.kind in ("fail", "crash", "hang"):
            log(f"VIOLATION property={prop} replay={a.replay}")
            return 1
        return 0 if o.kind == "ok" else 2
    bins, build_s = build(sorted(set(assign)))
    cases = a.cases or P["cases"][tier]
    secs = a.secs or (P.get("secs", 150) if tier == "quick" else 3000)
    out = tempfile.mkdtemp(prefix=f"qcheck-{prop}-")
    try:
        res, data = supervise(prop, bins, assign, a.seed, cases, secs, out)
        if res == "error":
            log(f"ERROR: {data}")
            return 2
        viol = 0
        rc = 0
        foreign = Foreign()
        if res == "violation":
            variant, kind, info, tape, marks, idx = data
            hit = [f for f in known_findings(prop) if f["match"] in (info.get("msg") or "")]
            if hit:
                log(f"KNOWN-FINDING: property={prop} {hit[0]['what']}")
            else:
                violation(prop, variant, bins[variant], kind, info, tape, marks, a.seed, idx)
                viol, rc = 1, 1
        else:
            foreign = data
        ev = evidence(prop, P, tier, a.seed, out, bins, assign, foreign, cases, build_s, time.time() - t0, viol)
        if foreign:
            log(f"note: {foreign.total} cases ended early by violations of other properties, e.g. {foreign[0]}")
        c = ev["coverage"]
        log(f"{prop} {tier} seed={a.seed}: {c['evaluations']} cases, {c['distinct_nontrivial']} distinct non-trivial, {ev['wall_s']}s, {'VIOLATED' if viol else 'held'}")
        return rc
    finally:
        shutil.rmtree(out, ignore_errors=True)


def evidence(prop, P, tier, seed, out, bins, assign, foreign, cases, build_s, wall, viol):
    n = nt = 0
    labels = {}
    samples = []
    complete = True
    by_variant = {}
    for f in glob.glob(os.path.join(out, "done.*.json")):
        d = json.load(open(f))
        n += d["cases"]
        nt += d["nontrivial"]
        complete &= d["complete"]
        samples += d["samples"]
        v = assign[int(os.path.basename(f).split(".")[1])]
        by_variant[v] = by_variant.get(v, 0) + d["cases"]
        for k, x in d["labels"].items():
            labels[k] = labels.get(k, 0) + x
    hs = set()
    for f in glob.glob(os.path.join(out, "hashes.*")):
        b = open(f, "rb").read()
        hs.update(struct.unpack(f"<{len(b) // 8}Q", b))
    written = sample(bins, assign, prop, seed, sorted(samples)[:3]) if not viol else []
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": n + foreign.cases, "distinct_nontrivial": len(hs), "rule": P["rule"], "samples": written,
            "nontrivial": nt, "cases_planned": cases, "all_planned_cases_run": complete and not viol,
            "cases_by_build": by_variant, "labels": dict(sorted(labels.items())),
            "ended_early_by_other_properties": foreign.total, "build_s": round(build_s, 1),
        },
        "assumptions": P.get("assumptions", []),
        "wall_s": round(wall, 1), "violations": viol,
    }
    os.makedirs(EVIDENCE, exist_ok=True)
    tmp = os.path.join(EVIDENCE, f".{prop}.tmp")
    json.dump(ev, open(tmp, "w"), indent=1)
    os.replace(tmp, os.path.join(EVIDENCE, f"{prop}.json"))
    return ev


if __name__ == "__main__":
    sys.exit(main())
