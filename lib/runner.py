"""Runs a harness' exhaustive enumeration over all cores, replays violations before reporting them, writes the evidence file."""
import json, mmap, os, shutil, signal, struct, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KEYLEN = 3500
SLOT = 16 + KEYLEN + 4  # struct Slot, padded to 8
SHM = 16 + 64 * SLOT


def known_for(cid):
    keys = []
    p = VERIF + "/known_findings.txt"
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("KNOWN property=%s " % cid):
                key, _, text = line.split(" key=", 1)[1].partition(" :: ")
                keys.append((key.strip(), text.strip()))
    return keys


os.environ.setdefault("ASAN_OPTIONS", "hard_rss_limit_mb=3000")


class Result:
    def __init__(self):
        self.cases = self.transitions = self.validated = self.enumerated = 0
        self.states, self.outcomes = set(), set()
        self.samples, self.fails, self.notes = [], [], {}
        self.capped, self.finished = False, True


def scratch_base():
    b = VERIF + "/.cache/run"
    os.makedirs(b, exist_ok=True)
    return b


def run_pool(exe, thorough, budget, case_timeout, known, workers=None, env=None, extra=()):
    """All cases, over worker processes. Crash and hang of a case count as failures of that case."""
    workers = workers or os.cpu_count() or 8
    d = tempfile.mkdtemp(dir=scratch_base())
    res = Result()
    try:
        shm = d + "/shm"
        with open(shm, "wb") as f:
            f.truncate(SHM)
        fd = open(shm, "r+b")
        mm = mmap.mmap(fd.fileno(), SHM)
        procs = {}
        for w in range(workers):
            cmd = [exe, "--shm", shm, "--worker", str(w), "--out", f"{d}/r{w}", "--budget", str(budget)] + (["--thorough"] if thorough else []) + list(extra)
            for k, _ in known:
                cmd += ["--known", k]
            lg = open(f"{d}/log{w}", "wb")
            procs[w] = subprocess.Popen(cmd, stdout=lg, stderr=subprocess.STDOUT, cwd=d, env=env, start_new_session=True)
        pending = dict(procs)

        def slot(w):
            off = 16 + w * SLOT
            st, done = struct.unpack_from("QQ", mm, off)
            raw = mm[off + 16:off + 16 + KEYLEN]
            return st, done, raw[:raw.index(b"\0")].decode("latin1") if b"\0" in raw else ""
        while pending:
            time.sleep(0.02 if len(pending) else 0)
            now = time.monotonic_ns()
            for w, p in list(pending.items()):
                rc = p.poll()
                if rc is not None:
                    del pending[w]
                    try:
                        os.killpg(p.pid, signal.SIGKILL)
                    except OSError:
                        pass
                    if os.path.exists(f"{d}/r{w}"):
                        continue
                    tail = open(f"{d}/log{w}", "rb").read()[-3000:].decode("latin1")
                    res.fails.append((slot(w)[2], f"worker ended abnormally (status {rc})", "crash", tail))
                    struct.pack_into("Q", mm, 8, 1)
                else:
                    st, done, key = slot(w)
                    if st and now - st > case_timeout * 1e9:
                        # same clock as the worker's steady_clock
                        os.killpg(p.pid, signal.SIGKILL)
                        p.wait()
                        del pending[w]
                        res.fails.append((key, f"no answer within {case_timeout} s", "hang", ""))
                        struct.pack_into("Q", mm, 8, 1)
        for w in procs:
            rp = f"{d}/r{w}"
            if not os.path.exists(rp):
                continue
            j = json.load(open(rp))
            res.cases += j["cases"]
            res.transitions += j["transitions"]
            res.validated += j["validated"]
            res.enumerated = max(res.enumerated, j["enumerated"])
            res.capped |= j["capped"]
            res.finished &= j["finished"]
            res.samples += j["samples"][:2]
            for k, m in j["fails"]:
                res.fails.append((k, m, "fail", ""))
            for k, v in j["notes"].items():
                res.notes[k] = res.notes.get(k, 0) + v
            for name, s in (("states", res.states), ("outcomes", res.outcomes)):
                b = open(f"{rp}.{name}", "rb").read()
                s.update(struct.unpack(f"{len(b) // 8}Q", b))
        mm.close()
        fd.close()
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return res


def replay(exe, key, thorough, timeout, env=None, extra=()):
    d = tempfile.mkdtemp(dir=scratch_base())
    try:
        cmd = [exe, "--only", key, "--out", d + "/r"] + (["--thorough"] if thorough else []) + list(extra)
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=d, env=env, start_new_session=True)
        try:
            out, _ = p.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.communicate()
            return "hang", f"no answer within {timeout} s"
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        if os.environ.get("VH_SHOW"):
            print(out.decode("latin1"))
        if not os.path.exists(d + "/r"):
            t = out.decode("latin1")
            i = max(t.find("ERROR: "), t.find("runtime error: "))
            return "crash", f"ended abnormally (status {p.returncode}) " + (t[i:i + 900] if i >= 0 else t[-900:])
        j = json.load(open(d + "/r"))
        if j["cases"] == 0:
            return "nocase", "case not enumerated"
        if j["fails"]:
            return "fail", j["fails"][0][1]
        return "ok", ""
    finally:
        shutil.rmtree(d, ignore_errors=True)


def matches(key, known):
    for k, t in known:
        if k == key or (k.endswith("*") and key.startswith(k[:-1])):
            return (k, t)
    return None


def write_evidence(cid, tier, res, wall, meta, violations):
    cov = {
        "states": len(res.states),
        "transitions": res.transitions,
        "traces_validated_against_impl": res.validated,
        "cases": res.cases,
        "distinct_outcomes": len(res.outcomes),
        "exhaustive": bool(res.finished and not res.capped),
        "bounds": meta.get("bounds", ""),
        "state_is": meta.get("state_is", "hash of the observed result of one executed case/step on the real code"),
        "samples": res.samples[:12],
        "counters": res.notes,
    }
    if res.capped:
        cov["capped_at_case"] = res.enumerated
    ev = {"property": cid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking", "coverage": cov,
          "assumptions": meta.get("assumptions", []), "wall_s": round(wall, 2), "violations": violations}
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    p = f"{VERIF}/evidence/{cid}.json"
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.rename(p + ".tmp", p)


def finish(cid, tier, t0, res, meta, exe, replayer, known):
    """Decide, replay, report. replayer(key, timeout) -> (kind, message)."""
    listed = {}
    new = []
    for f in res.fails:
        m = matches(f[0], known)
        if m:
            listed[m] = f
        else:
            new.append(f)
    for k, t in known:
        hit = [v for kk, v in listed.items() if kk == (k, t)]
        if hit:
            print(f"KNOWN-FINDING: property={cid} {t}")
    violation = None
    unreplayed = []
    for key, msg, kind, tail in sorted(new, key=lambda f: (f[2] != "fail", len(f[0]), f[0]))[:6]:
        to = meta.get("case_timeout", 60) * (4 if kind == "hang" else 2)
        k1 = replayer(key, to)
        k2 = replayer(key, to) if k1[0] not in ("ok", "nocase") and k1[0] != "hang" else k1
        if k1[0] in ("fail", "crash", "hang") and k2[0] == k1[0]:
            violation = (key, k1[1] or msg, k1[0])
            break
        unreplayed.append((key, msg, kind, k1, k2, tail))
    if violation is None and unreplayed:
        # does not fail alone: the failure depends on the cases run before it in the same process (leftover state)
        key, msg, kind, k1, k2, tail = unreplayed[0]
        again = meta["rerun"]() if "rerun" in meta else None
        if again is not None and any(matches(f[0], known) is None for f in again.fails):
            violation = ("@whole-run " + key, "fails in two runs of the enumeration, though not alone: " + msg + tail[-500:], kind)
    wall = time.time() - t0
    write_evidence(cid, tier, res, wall, meta, 1 if violation else 0)
    n = f"cases={res.cases} states={len(res.states)} transitions={res.transitions} outcomes={len(res.outcomes)} wall={wall:.1f}s" + (" CAPPED" if res.capped else "")
    if violation:
        os.makedirs(VERIF + "/out", exist_ok=True)
        rp = f"{VERIF}/out/{cid}.replay"
        with open(rp, "w") as f:
            f.write(f"property={cid}\ntier={tier}\ncase={violation[0]}\nkind={violation[2]}\nmessage={violation[1]}\nreplay with: /verif/bin/check {cid} {tier} --replay {rp}\n")
        print(f"{cid}: {n}")
        print(f"case: {violation[0][:600]}\nmessage: {violation[1][:1500]}")
        print(f"VIOLATION property={cid} replay={rp}", flush=True)
        return 1
    if unreplayed:
        print(f"{cid}: DIVERGENCE: a failure did not reproduce on replay: {[(u[0][:200], u[1][:300], u[2], u[3], u[5][-600:]) for u in unreplayed][:2]}")
        return 2
    print(f"{cid}: held. {n}")
    return 0
