#!/usr/bin/env python3
"""Runs the monitors of one property against /repo's current working tree.

usage: check.py <property id> [--tier quick|thorough] [--seed N] [--seconds S] [--cases N]
       check.py --build        (build everything, used by setup_cmd)

Exit 0: the property held on everything explored.  Exit 1 and a VIOLATION line:
it did not.  Exit 2: the check itself could not run.
"""
import hashlib, json, os, re, shutil, struct, subprocess, sys, tempfile, time
from pathlib import Path
from collections import Counter

HERE = Path(__file__).resolve().parent
REPO = Path(os.environ.get("NK_REPO", "/repo"))
sys.path.insert(0, str(HERE))
from plan import PLAN  # noqa: E402

WORKERS = 8


def source_hash():
    h = hashlib.sha256()
    files = sorted(list((REPO / "src").glob("*.[ch]")) + list((REPO / "src" / "interp").glob("*.[ch]"))
                   + [p for p in (HERE / "harness").iterdir() if p.is_file()])
    for f in files:
        h.update(str(f).encode() + b"\0")
        h.update(f.read_bytes())
    return h.hexdigest()[:16]


def build(targets):
    root = HERE / "build"
    root.mkdir(exist_ok=True)
    b = root / source_hash()
    olds = sorted([p for p in root.iterdir() if p.is_dir() and p != b and re.fullmatch(r"[0-9a-f]{16}", p.name)], key=lambda p: p.stat().st_mtime)
    for p in olds[:-3]:
        shutil.rmtree(p, ignore_errors=True)
    b.mkdir(exist_ok=True)
    r = subprocess.run(["make", "-s", "-j%d" % WORKERS, "-C", str(HERE / "harness"), "B=%s" % b, "REPO=%s" % REPO] + [str(b / t) for t in targets],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        sys.stdout.write(r.stdout.decode("utf-8", "replace")[-6000:])
        print("BUILD FAILED")
        sys.exit(2)
    return b


def known_findings(prop):
    out = []
    p = HERE / "known_findings.txt"
    if p.exists():
        for line in p.read_text().splitlines():
            m = re.match(r"finding: property=(\S+) match=/(.*)/ :: (.*)$", line)
            if m and m.group(1) == prop:
                out.append((re.compile(m.group(2), re.S), m.group(3)))
    return out


def environment(b):
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=0:max_malloc_fill_size=0"
    env["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=77"
    env["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=66:second_deadlock_stack=1"
    env["MSAN_OPTIONS"] = "poison_in_malloc=0:poison_in_free=0:halt_on_error=1:exitcode=77:allocator_may_return_null=1"
    env["NK_CLI_MSAN"] = str(b / "ninkasi-msan")
    env["NK_CLI"] = str(b / "ninkasi")
    env["NK_CLI_FAST"] = str(b / "ninkasi-fast")
    env["NK_TESTS"] = str(REPO / "test")
    return env


def read_status(path):
    try:
        d = open(path, "rb").read()
        case, done, failures, hang = struct.unpack("<QQQQ", d[:32])
        phase = d[32:288].split(b"\0")[0].decode("utf-8", "replace")
        text = d[288:].split(b"\0")[0].decode("utf-8", "replace")
        return dict(case=case, done=done, hang=hang, phase=phase, text=text)
    except Exception:
        return None


def san_summary(log):
    m = re.findall(r"(SUMMARY: .*|.*runtime error: .*|.*Assertion.*failed.*|FATAL: .*)", log)
    if m:
        s = m[0].strip() if "runtime error" in m[0] or "Assertion" in m[0] else m[-1].strip()
        s = re.sub(r"/\S*/", "", s)
        return re.sub(r"0x[0-9a-f]+", "ADDR", s)[:300]
    return log.strip().splitlines()[-1][:200] if log.strip() else ""


class Run:
    def __init__(self, b, binary, engine, seed, cases, seconds, thorough, cpu, scratch):
        self.b, self.binary, self.engine, self.seed = b, binary, engine, seed
        self.cases, self.seconds, self.thorough, self.cpu, self.scratch = cases, seconds, thorough, cpu, Path(scratch)
        self.fails, self.feat, self.samples, self.hashes = [], Counter(), [], set()
        self.evals = self.ncases = 0
        self.inconclusive = []

    def cmd(self, out, frm, to, step, sec, cpu=None):
        c = [str(self.b / self.binary), self.engine, "--seed", str(self.seed), "--from", str(frm), "--to", str(to), "--step", str(step),
             "--out", str(out), "--scratch", str(out) + ".d", "--cpu", str(cpu or self.cpu)]
        if sec:
            c += ["--max-seconds", "%.1f" % sec]
        if self.thorough:
            c.append("--thorough")
        return c

    def one(self, case):
        return "%s %s --seed %d --case %d%s -v" % (self.b / self.binary, self.engine, self.seed, case, " --thorough" if self.thorough else "")

    def harvest(self, out):
        j = Path(str(out) + ".json")
        if j.exists():
            d = json.loads(j.read_text())
            self.evals += d["evals"]
            self.ncases += d["cases"]
            for k, v in d["feat"].items():
                self.feat[k] = max(self.feat[k], v) if k.startswith("max_") else self.feat[k] + v
            self.samples += d["samples"]
        h = Path(str(out) + ".hash")
        if h.exists():
            raw = h.read_bytes()
            self.hashes.update(struct.unpack("<%dQ" % (len(raw) // 8), raw))
        f = Path(str(out) + ".fail")
        if f.exists():
            for line in f.read_text().splitlines():
                try:
                    d = json.loads(line)
                except ValueError:
                    continue
                self.fails.append((d["case"], d["sig"], d["detail"]))

    def go(self):
        env = environment(self.b)
        t0 = time.time()
        procs = []
        serial = [0]

        def start(w, frm):
            left = self.seconds - (time.time() - t0) if self.seconds else 0
            if self.seconds and left < 1:
                return
            serial[0] += 1
            out = self.scratch / ("%s.%d.%d" % (self.engine, w, serial[0]))
            os.makedirs(str(out) + ".d", exist_ok=True)
            log = open(str(out) + ".log", "wb")
            p = subprocess.Popen(self.cmd(out, frm, self.cases, WORKERS, left), stdout=log, stderr=log, stdin=subprocess.DEVNULL, env=env, cwd=str(out) + ".d", start_new_session=True)
            procs.append((p, w, out, time.time()))

        for w in range(min(WORKERS, self.cases)):
            start(w, w)
        crashes = confirmations = 0
        found = None
        while procs:
            time.sleep(0.05)
            # A violation decides the check: give the others a moment, then stop.
            if found is None and (self.fails or any(Path(str(o) + ".fail").exists() and os.path.getsize(str(o) + ".fail") for _, _, o, _ in procs)):
                found = time.time()
            if found is not None and time.time() - found > 20:
                for p, _, o, _ in procs:
                    os.killpg(p.pid, 9)
                    p.wait()
                    self.harvest(o)
                break
            for item in list(procs):
                p, w, out, ts = item
                rc = p.poll()
                limit = (self.seconds or 1200) + self.cpu + 90
                if rc is None and time.time() - t0 > limit:
                    os.killpg(p.pid, 9)
                    p.wait()
                    rc = -99
                if rc is None:
                    continue
                procs.remove(item)
                try:
                    os.killpg(p.pid, 9)
                except Exception:
                    pass
                self.harvest(out)
                if rc in (0, 1) and Path(str(out) + ".json").exists():
                    shutil.rmtree(str(out) + ".d", ignore_errors=True)
                    continue
                st = read_status(str(out) + ".status") or dict(case=-1, phase="?", text="", hang=0)
                log = open(str(out) + ".log", "rb").read().decode("utf-8", "replace")
                self.evals += 1
                if rc in (98, -99) and (self.fails or confirmations >= 3):
                    self.inconclusive.append(st["case"])
                elif rc in (98, -99):
                    # A slow case is only a hang if it is one on its own, too.
                    confirmations += 1
                    o2 = self.scratch / ("hang.%s.%d" % (self.engine, serial[0]))
                    os.makedirs(str(o2) + ".d", exist_ok=True)
                    try:
                        r2 = subprocess.run(self.cmd(o2, st["case"], st["case"] + 1, 1, 0, self.cpu * 3), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL,
                                            env=env, timeout=self.cpu * 3 + 120, cwd=str(o2) + ".d").returncode
                    except subprocess.TimeoutExpired:
                        r2 = 98
                    if r2 == 98:
                        self.fails.append((st["case"], "does not return: " + st["phase"], st["text"]))
                    else:
                        self.harvest(o2)
                        self.inconclusive.append(st["case"])
                elif rc in (-9, -15) and not log.strip():
                    self.inconclusive.append(st["case"])
                else:
                    self.fails.append((st["case"], "crash (exit %d) during %s: %s" % (rc, st["phase"], san_summary(log)), log[:6000] + "\n--- script\n" + st["text"]))
                crashes += 1
                if crashes <= 12 and st["case"] >= 0 and found is None:
                    start(w, st["case"] + WORKERS)
        return self


def main():
    a = sys.argv[1:]
    if "--build" in a:
        build(["nkmon", "nkmon-tsan", "nkmon-msan", "ninkasi", "ninkasi-msan", "ninkasi-fast"])
        print("built")
        return 0
    prop = a[0]
    opt = lambda n, d: a[a.index(n) + 1] if n in a else d
    tier = opt("--tier", os.environ.get("VERIF_TIER", "quick"))
    seed = int(opt("--seed", os.environ.get("VERIF_SEED", "1")))
    if tier not in ("quick", "thorough"):
        tier = "quick"
    plan = PLAN[prop]
    t0 = time.time()
    b = build(sorted({r[0] for r in plan["runs"]} | set(plan.get("needs", []))))
    scratch = Path(tempfile.mkdtemp(prefix="nk-%s-" % prop, dir="/tmp"))
    runs = []
    try:
        for k, (binary, engine, qc, qs, tc, ts) in enumerate(plan["runs"]):
            cases, secs = (qc, qs) if tier == "quick" else (tc, ts)
            cases, secs = int(opt("--cases", cases)), float(opt("--seconds", secs))
            runs.append(Run(b, binary, engine, seed + 7919 * k, cases, secs, tier == "thorough", plan.get("cpu", 40), scratch).go())
            if runs[-1].fails:
                break
    finally:
        subprocess.run(["chmod", "-R", "u+rwx", str(scratch)], stderr=subprocess.DEVNULL)
        shutil.rmtree(scratch, ignore_errors=True)
    known = known_findings(prop)
    seen_known, bad = Counter(), []
    for r in runs:
        for case, sig, detail in r.fails:
            for rx, what in known:
                if rx.search(sig + "\n" + detail):
                    seen_known[what] += 1
                    break
            else:
                bad.append((r, case, sig, detail))
    for _, what in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, what))
    evals = sum(r.evals for r in runs)
    hashes = set().union(*[r.hashes for r in runs]) if runs else set()
    feat = Counter()
    for r in runs:
        for k, v in r.feat.items():
            feat[k] = max(feat[k], v) if k.startswith("max_") else feat[k] + v
    samples = [s for r in runs for s in r.samples[:1]][:6]
    cov = dict(evaluations=evals, distinct_nontrivial=len(hashes), rule=plan["rule"], samples=samples, cases=sum(r.ncases for r in runs),
               observed={k: feat[k] for k in sorted(feat)}, known_findings_seen=dict(seen_known),
               inconclusive_cases=[c for r in runs for c in r.inconclusive][:20], violations=len(bad))
    (HERE / "evidence").mkdir(exist_ok=True)
    (HERE / "evidence" / (prop + ".json")).write_text(json.dumps(dict(property=prop, tier=tier, seed=seed, level=plan["level"], coverage=cov, wall_s=round(time.time() - t0, 2)), indent=1))
    print("%s: %d cases, %d evaluations, %d distinct non-trivial, %d failures, %.1f s" % (prop, cov["cases"], evals, len(hashes), len(bad), time.time() - t0))
    if bad:
        rd = HERE / "build" / "replay"
        rd.mkdir(parents=True, exist_ok=True)
        shown = Counter()
        for r, case, sig, detail in bad:
            shown[sig] += 1
            if shown[sig] > 1 or len(shown) > 5:
                continue
            f = rd / ("%s-%s-%d.txt" % (prop, r.engine, case))
            f.write_text("property %s\nwhat: %s\nreplay: ASAN_OPTIONS=detect_leaks=0 MSAN_OPTIONS=poison_in_malloc=0:poison_in_free=0 NK_CLI=%s NK_CLI_MSAN=%s %s\n\n%s\n" % (prop, sig, r.b / "ninkasi", r.b / "ninkasi-msan", r.one(case), detail))
            print("  " + sig + "\n    " + "\n    ".join(detail.splitlines()[:6])[:900])
            print("VIOLATION property=%s replay=%s" % (prop, f))
        return 1
    if cov["cases"] == 0 or evals == 0 or not hashes:
        print("nothing was observed: check is broken")
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
