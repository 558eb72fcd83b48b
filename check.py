#!/usr/bin/env python3
"""Runs the check of one property: builds the harness against /repo's working tree, searches, shrinks.

    check.py ID                 (VERIF_SEED, VERIF_TIER from the environment)
    check.py ID --replay FILE   run one recorded case again
    check.py --build            only build (setup)
"""
import array, json, os, re, struct, subprocess, sys, tempfile, threading, time, shutil

HERE = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(HERE, "harness")
TARGET = os.path.join(HARNESS, "target")
TOOLCHAIN = "nightly-2025-07-01-x86_64-unknown-linux-gnu"
TRIPLE = "x86_64-unknown-linux-gnu"
FLAVOURS = ("guard", "asan")
HANG = 40  # seconds without a finished case


def env(flavour):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith(("CARGO_PROFILE", "CARGO_BUILD", "CARGO_ENCODED")):
            del e[k]
    e.update(RUSTUP_TOOLCHAIN=TOOLCHAIN, CARGO_NET_OFFLINE="true", RUSTC_ICE="0", RUSTC_WRAPPER="", CARGO_TERM_COLOR="never")
    e["RUSTFLAGS"] = "-Csymbol-mangling-version=v0" + (" -Zsanitizer=address" if flavour == "asan" else "")
    e["CARGO_TARGET_DIR"] = os.path.join(TARGET, flavour)
    e["ASAN_OPTIONS"] = "detect_leaks=0:allocator_may_return_null=1:detect_odr_violation=0:abort_on_error=0:exitcode=23:symbolize=0:quarantine_size_mb=64"
    return e


def binary(flavour):
    if flavour == "asan":
        return os.path.join(TARGET, "asan", TRIPLE, "debug", "vh")
    return os.path.join(TARGET, "guard", "release", "vh")


def build():
    res = {}

    def one(fl):
        # --locked would refuse a lock file that only differs in /repo's own version; offline is enough
        cmd = ["cargo", "build", "--offline", "-q", "--manifest-path", os.path.join(HARNESS, "Cargo.toml")]
        cmd += ["--features", "asan", "--target", TRIPLE] if fl == "asan" else ["--release"]
        p = subprocess.run(cmd, env=env(fl), cwd=HARNESS, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        res[fl] = p

    ts = [threading.Thread(target=one, args=(f,)) for f in FLAVOURS]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    for fl in FLAVOURS:
        if res[fl].returncode != 0:
            print(res[fl].stdout[-6000:])
            print(f"ERROR: the harness does not build against /repo ({fl} flavour)")
            sys.exit(2)


class Worker:
    def __init__(self, cid, flavour, seed, salt, cases, k, n, secs, tmp):
        self.flavour = flavour
        self.out = os.path.join(tmp, f"{flavour}{salt}.{k}.json")
        self.mirror = os.path.join(tmp, f"{flavour}{salt}.{k}.mirror")
        self.err = os.path.join(tmp, f"{flavour}{salt}.{k}.err")
        open(self.mirror, "wb").close()
        self.p = subprocess.Popen(
            [binary(flavour), "run", cid, str(seed), str(salt), str(cases), str(k), str(n), self.out, self.mirror, str(secs)],
            env=env(flavour), stdout=subprocess.DEVNULL, stderr=open(self.err, "wb"), cwd=tmp)
        self.progress = -1
        self.since = time.time()
        self.hung = False

    def read_mirror(self):
        try:
            b = open(self.mirror, "rb").read()
            done, n = struct.unpack_from("<II", b, 0)
            return done, list(struct.unpack_from(f"<{n}I", b, 8))
        except struct.error:
            return 0, []

    def poll(self):
        r = self.p.poll()
        if r is not None:
            return r
        try:
            with open(self.mirror, "rb") as f:
                b = f.read(4)
            done = struct.unpack("<I", b)[0] if len(b) == 4 else 0
        except OSError:
            done = 0
        if done != self.progress:
            self.progress, self.since = done, time.time()
        elif time.time() - self.since > HANG:
            self.hung = True
            self.p.kill()
            self.p.wait()
            return self.p.returncode
        return None

    def kill(self):
        if self.p.poll() is None:
            self.p.kill()
            self.p.wait()


def crash_message(flavour, code, err):
    m = re.findall(r"(ERROR: AddressSanitizer:[^\n]*|panicked at[^\n]*\n[^\n]*|unsafe precondition[^\n]*|thread caused non-unwinding[^\n]*|attempt to[^\n]*)", err)
    what = f"signal {-code}" if code < 0 else f"exit code {code}"
    return f"the process died ({what}, {flavour} build)" + (": " + " | ".join(x.replace("\n", " ") for x in m[:3]) if m else ": " + err[-200:].replace("\n", " "))


def replay(cid, flavour, choices, tmp, timeout=HANG):
    """(failed, message, trace)"""
    f = tempfile.NamedTemporaryFile("w", suffix=".case", dir=tmp, delete=False)
    f.write(",".join(map(str, choices)))
    f.close()
    try:
        p = subprocess.run([binary(flavour), "replay", cid, f.name], env=env(flavour), cwd=tmp, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
    except subprocess.TimeoutExpired:
        return True, f"the case does not finish within {timeout} s", []
    finally:
        os.unlink(f.name)
    out = p.stdout.decode(errors="replace").splitlines()
    tr = [l[2:] for l in out[1:] if l.startswith("  ")]
    if p.returncode == 0:
        return False, "", tr
    if p.returncode == 10:
        return True, out[0][5:] if out else "?", tr
    return True, crash_message(flavour, p.returncode, p.stderr.decode(errors="replace")), tr


def batch(cid, flavour, cands, tmp):
    """Index of the first failing candidate, or None."""
    k = min(8, max(1, len(cands) // 4 + 1))
    parts = [list(range(i, len(cands), k)) for i in range(k)]
    procs = []
    for part in parts:
        inp = "\n".join(",".join(map(str, cands[i])) if cands[i] else "0" for i in part) + "\n"
        f = tempfile.TemporaryFile("w+", dir=tmp)
        f.write(inp)
        f.seek(0)
        o = tempfile.TemporaryFile("w+b", dir=tmp)
        procs.append((part, subprocess.Popen([binary(flavour), "batch", cid], env=env(flavour), cwd=tmp, stdin=f, stdout=o, stderr=subprocess.DEVNULL), o))
    best = None
    end = time.time() + HANG
    for part, p, o in procs:
        try:
            p.wait(timeout=max(0.1, end - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
        if p.returncode == 0:
            continue
        o.seek(0)
        at = re.findall(rb"@(\d+)", o.read())
        if at:
            i = part[int(at[-1])]
            if best is None or i < best:
                best = i
    return best


def shrink(cid, flavour, choices, spans, tmp, budget):
    end = time.time() + budget
    cur = list(choices)

    def attempt(cands):
        nonlocal cur
        seen, uniq = {tuple(cur)}, []
        for c in cands:
            t = tuple(c)
            if t not in seen:
                seen.add(t)
                uniq.append(c)
        if not uniq:
            return False
        i = batch(cid, flavour, uniq, tmp)
        if i is None:
            return False
        cur = uniq[i]
        return True

    # shortest failing prefix, then whole operations, then chunks, then values
    while time.time() < end:
        n = len(cur)
        if not attempt([cur[: n * k // 16] for k in range(1, 16)]):
            break
    s = sorted(x for x in spans if x < len(cur)) + [len(cur)]
    if len(s) > 2:
        ops = [cur[: s[0]]] + [cur[a:b] for a, b in zip(s, s[1:])]
        size = max(1, len(ops) // 2)
        while time.time() < end and size >= 1:
            cands, metas = [], []
            for i in range(1, len(ops), size):
                m = ops[:i] + ops[i + size:]
                metas.append(m)
                cands.append([c for o in m for c in o])
            if not cands:
                break
            i = batch(cid, flavour, cands, tmp)
            if i is None:
                if size == 1:
                    break
                size //= 2
            else:
                ops = metas[i]
                cur = cands[i]
                size = min(size, max(1, len(ops) // 2))
    progress = True
    while progress and time.time() < end:
        progress = False
        for size in (8, 4, 2, 1):
            while time.time() < end and attempt([cur[:i] + cur[i + size:] for i in range(len(cur) - size, -1, -1)]):
                progress = True
        while time.time() < end and attempt([cur[:i] + [0] + cur[i + 1:] for i in range(len(cur)) if cur[i]]):
            progress = True
        while time.time() < end and attempt([cur[:i] + [v] + cur[i + 1:] for i in range(len(cur)) for v in sorted({cur[i] // 2, cur[i] - 1} - {cur[i]}) if cur[i] > 0]):
            progress = True
    return cur


def known_findings():
    """property -> list of (pattern, text)"""
    res = {}
    path = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(path):
        for l in open(path):
            m = re.match(r"known: property=(\S+) case=(\S+) (.*)", l)
            if m:
                res.setdefault(m[1], []).append((m[2], m[3].strip()))
    return res


def plan(cid, tier):
    """(cases per flavour, seconds per phase) of the property's search."""
    cfg = json.load(open(os.path.join(HERE, "plan.json")))
    c = cfg["checks"].get(cid, {})
    d = cfg["default"]
    if tier == "thorough":
        return c.get("thorough", d["thorough"]), cfg["seconds"]["thorough"]
    return c.get("quick", d["quick"]), cfg["seconds"]["quick"]


def main():
    if sys.argv[1:] == ["--build"]:
        build()
        return
    cid = sys.argv[1]
    seed = int(os.environ.get("VERIF_SEED") or 1)
    tier = os.environ.get("VERIF_TIER") or "quick"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    t0 = time.time()
    build()
    tmp = tempfile.mkdtemp(prefix="vh.")
    try:
        if "--replay" in sys.argv:
            r = json.load(open(sys.argv[sys.argv.index("--replay") + 1]))
            failed, msg, tr = replay(cid, r["flavour"], r["choices"], tmp)
            print("\n".join(tr))
            print("FAIL " + msg if failed else "PASS")
            if failed:
                print(f"VIOLATION property={cid} replay={sys.argv[-1]}")
            sys.exit(1 if failed else 0)
        search(cid, seed, tier, t0, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def search(cid, seed, tier, t0, tmp):
    cases, secs = plan(cid, tier)
    workers = []
    for salt, fl in enumerate(FLAVOURS):
        n = 4
        for k in range(n):
            workers.append(Worker(cid, fl, seed, salt, cases[fl], k, n, secs, tmp))
    failure, stalled = None, 0
    running = list(workers)
    while running:
        time.sleep(0.05)
        for w in list(running):
            r = w.poll()
            if r is None:
                continue
            running.remove(w)
            if r == 0:
                continue
            if r == 10:
                f = json.load(open(w.out))["failure"]
                failure = (w.flavour, f["choices"], f["spans"], f["message"])
            elif r == -9 and not w.hung:
                print("ERROR: a worker was killed from outside")
                for v in workers:
                    v.kill()
                sys.exit(3)
            elif r in (2, 101):
                print(open(w.err, errors="replace").read()[-2000:])
                print("ERROR: the harness itself failed")
                for v in workers:
                    v.kill()
                sys.exit(3)
            else:
                _, choices = w.read_mirror()
                err = open(w.err, errors="replace").read()
                if w.hung and not replay(cid, w.flavour, choices, tmp, 3 * HANG)[0]:
                    # slow machine, not an endless loop: this worker's search ends here
                    stalled += 1
                    continue
                msg = f"the case does not finish within {HANG} s" if w.hung else crash_message(w.flavour, r, err)
                failure = (w.flavour, choices, [], msg)
        if failure:
            break
    for w in workers:
        w.kill()
    violations = 0
    cov = {"evaluations": 0, "distinct_nontrivial": 0, "rule": "", "samples": []}
    hist, distinct, steps, per = {}, set(), 0, {}
    for w in workers:
        if not os.path.exists(w.out):
            continue
        d = json.load(open(w.out))
        cov["evaluations"] += d["done"]
        per[w.flavour] = per.get(w.flavour, 0) + d["done"]
        steps += d["steps"]
        h = array.array("Q")
        h.frombytes(open(w.out + ".h", "rb").read())
        distinct.update(h)
        for k, v in d["hist"].items():
            hist[k] = hist.get(k, 0) + v
        cov["rule"] = d.get("rule", cov["rule"])
        if len(cov["samples"]) < 4:
            cov["samples"] += [{"build": w.flavour, "case": s} for s in d["samples"][:1]]
    cov["distinct_nontrivial"] = len(distinct)
    cov["operations"] = steps
    cov["workers_stalled"] = stalled
    cov["evaluations_by_build"] = per
    cov["classes"] = dict(sorted(hist.items(), key=lambda x: -x[1]))
    code = 0
    lines = []
    if failure:
        violations = 1
        fl, choices, spans, msg = failure
        again, msg2, _ = replay(cid, fl, choices, tmp)
        note = ""
        if again:
            choices = shrink(cid, fl, choices, spans, tmp, 60 if tier == "quick" else 200)
            ok, m, tr = replay(cid, fl, choices, tmp)
            if ok:
                msg = m
        else:
            tr = []
            note = "did not fail again when replayed alone"
        rd = os.path.join(HERE, "evidence", "replays")
        os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, f"{cid}.json")
        if not tr:
            # crashes lose their trace: get it from the last lines printed
            tr = stream(cid, fl, choices, tmp)
        json.dump({"property": cid, "flavour": fl, "choices": choices, "message": msg, "trace": tr, "note": note,
                   "rerun": f"python3 check.py {cid} --replay {path}"}, open(path, "w"), indent=1)
        for l in tr:
            lines.append("  " + l)
        lines.append(f"  => {msg}")
        lines.append(f"VIOLATION property={cid} replay={path}")
        cov["samples"].append({"build": fl, "failing": tr, "message": msg})
        code = 1
    kf = known_findings().get(cid, [])
    for case, text in kf:
        lines.append(f"KNOWN-FINDING: property={cid} {text}")
    if not cov["samples"]:
        cov["samples"] = ["(no case finished)"]
    ev = {
        "property": cid, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
        "assumptions": [
            "the harness's own allocator, element types and list model are right",
            "x86_64 Linux, the pinned nightly toolchain; one thread (the crates have no synchronisation)",
        ],
        "wall_s": round(time.time() - t0, 2), "violations": violations,
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", f"{cid}.json"), "w"), indent=1)
    print("\n".join(lines) if lines else f"{cid}: held on {cov['evaluations']} cases ({cov['distinct_nontrivial']} distinct non-trivial, {steps} operations), {ev['wall_s']} s")
    sys.exit(code)


def stream(cid, fl, choices, tmp):
    f = os.path.join(tmp, "stream.case")
    open(f, "w").write(",".join(map(str, choices)))
    try:
        p = subprocess.run([binary(fl), "replay", cid, f, "-v"], env=env(fl), cwd=tmp, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=HANG)
        err = p.stderr
    except subprocess.TimeoutExpired as e:
        err = e.stderr or b""
    return [l[3:] for l in err.decode(errors="replace").splitlines() if l.startswith(">> ")]


main()
