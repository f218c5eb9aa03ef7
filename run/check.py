#!/usr/bin/env python3
"""Seeded deterministic-simulation check of one property.

usage: check.py PROPERTY [--tier quick|thorough] [--seconds N] [--scenario S]
       check.py PROPERTY --replay FILE [--trace]
       check.py --setup

exit 0: held; exit 1 + "VIOLATION property=<id> replay=<path>": broken;
exit 3: error of the check itself.
"""
import argparse, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
EVID = os.path.join(VERIF, "evidence")
sys.path.insert(0, os.path.join(VERIF, "run"))
from config import CHECKS, SECONDS, WATCHDOG  # noqa: E402

CXX = "g++"
ENGINE_FLAGS = ["-std=c++17", "-O2", "-g", "-Wall", "-Wextra"]
INSTR_FLAGS = ["-std=c++17", "-O1", "-g", "-fsanitize=thread", "-fno-omit-frame-pointer"]


class CheckError(Exception):
    pass


class InterfaceError(CheckError):
    """the library compiles, but no longer accepts the scenario's use of its public interface"""


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:20]


def repo_files():
    src, hdr = [], []
    for root, _dirs, files in os.walk(os.path.join(REPO, "threadpp")):
        for f in files:
            p = os.path.join(root, f)
            if f.endswith((".cpp", ".cc", ".cxx")):
                src.append(p)
            elif f.endswith((".h", ".hpp", ".hh", ".inl", ".ipp")):
                hdr.append(p)
    return sorted(src), sorted(hdr)


def compile_obj(src, flags, key, name):
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, f"{name}-{key}.o")
    if os.path.exists(out):
        return out
    tmp = f"{out}.{os.getpid()}.{abs(hash(src)) % 99999}.tmp"
    r = sh([CXX, *flags, "-c", src, "-o", tmp])
    if r.returncode != 0:
        raise CheckError(f"compilation of {src} failed:\n{r.stdout[-4000:]}")
    os.replace(tmp, out)
    return out


def build(scenario_src=None):
    """returns the path of the scenario binary (or None for set-up only)"""
    eng = os.path.join(VERIF, "engine", "sim.cpp")
    engh = os.path.join(VERIF, "engine", "sim.h")
    src, hdr = repo_files()
    if not src:
        raise CheckError(f"no sources under {REPO}/threadpp")
    jobs = [(eng, ENGINE_FLAGS, digest([eng, engh], " ".join(ENGINE_FLAGS)), "engine")]
    libkey = digest(src + hdr, " ".join(INSTR_FLAGS) + REPO)
    for s in src:
        rel = os.path.relpath(s, REPO).replace("/", "_")
        jobs.append((s, INSTR_FLAGS + ["-I" + REPO], libkey, "lib_" + rel))
    if scenario_src:
        hs = os.path.join(VERIF, "harness", scenario_src)
        hh = glob.glob(os.path.join(VERIF, "harness", "*.hpp"))
        k = digest([hs, engh] + hh + src + hdr, " ".join(INSTR_FLAGS) + REPO)
        jobs.append((hs, INSTR_FLAGS + ["-Wall", "-Wextra", "-I" + REPO], k, "sc_" + scenario_src))
    with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        futs = [ex.submit(compile_obj, *j) for j in jobs]
    objs = [f.result() for f in futs[:1 + len(src)]]
    if not scenario_src:
        return None
    try:
        objs.append(futs[-1].result())
    except CheckError as e:
        raise InterfaceError(str(e)) from None
    key = digest(objs, "link")
    exe = os.path.join(BUILD, f"bin_{scenario_src}-{key}")
    if not os.path.exists(exe):
        tmp = f"{exe}.{os.getpid()}.tmp"
        r = sh([CXX, "-no-pie", "-g", "-Wl,-z,now", *objs, "-o", tmp, "-ldl", "-lpthread"])
        if r.returncode != 0:
            raise CheckError(f"link failed:\n{r.stdout[-4000:]}")
        os.replace(tmp, exe)
    return exe


# --------------------------------------------------------------------------
# replay helpers
# --------------------------------------------------------------------------
def load_entries(path):
    scen, ents = None, []
    for line in open(path):
        if line.startswith("#"):
            continue
        if line.startswith("scenario "):
            scen = line.split()[1]
            continue
        p = line.split()
        if len(p) == 3:
            ents.append((p[0], int(p[1]), int(p[2])))
    return scen, ents


def write_entries(path, scen, ents, header=()):
    with open(path, "w") as f:
        for h in header:
            f.write("# " + h + "\n")
        f.write(f"scenario {scen}\n")
        for s in "WSF":
            for e in sorted(x for x in ents if x[0] == s):
                f.write(f"{e[0]} {e[1]} {e[2]}\n")


def run_replay(exe, path, norm=None, trace=False, timeout=200):
    cmd = [exe, "--replay", path, "--watchdog", str(WATCHDOG)]
    if norm:
        cmd += ["--normalized", norm]
    if trace:
        cmd += ["--trace"]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout,
                       errors="replace")
    m = re.search(r"^RESULT (\w+) class=(\S+) hash=(\w+) steps=(\d+)$", r.stdout, re.M)
    if not m:
        raise CheckError(f"replay produced no result:\n{r.stdout[-2000:]}")
    return dict(ok=m.group(1) == "ok", cls=m.group(2), hash=m.group(3), steps=int(m.group(4)), out=r.stdout)


class Batch:
    """one long-lived process replaying candidate files (forks per run)"""

    def __init__(self, exe, tmp, cpu):
        self.p = subprocess.Popen([exe, "--replay-batch", "--watchdog", str(WATCHDOG)], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, text=True)
        self.path = os.path.join(tmp, f"cand{cpu}")

    def run(self, scen, ents):
        write_entries(self.path, scen, ents)
        self.p.stdin.write(self.path + "\n")
        self.p.stdin.flush()
        line = self.p.stdout.readline().split()
        if len(line) < 3:
            return None
        return line[2] if line[1] == "violation" else "ok"

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(timeout=20)
        except Exception:
            self.p.kill()


def minimise(exe, tmp, scen, ents, cls, budget):
    """ddmin over the non-default choices, then shrink values"""
    b = Batch(exe, tmp, "0")
    t0 = time.time()
    tries = 0

    def bad(c):
        nonlocal tries
        tries += 1
        return b.run(scen, c) == cls

    def ddmin(cur):
        n = 2
        while len(cur) >= 1 and time.time() - t0 < budget:
            step = max(1, (len(cur) + n - 1) // n)
            reduced = False
            i = 0
            while i < len(cur) and time.time() - t0 < budget:
                cand = cur[:i] + cur[i + step:]
                if bad(cand):
                    cur = cand
                    reduced = True
                    n = max(2, n - 1)
                else:
                    i += step
            if step == 1 and not reduced:
                break
            if not reduced:
                n = min(len(cur), n * 2)
            elif len(cur) > 0:
                n = max(2, min(n, len(cur)))
        return cur

    try:
        for st in "FWS":  # whole streams first
            cand = [e for e in ents if e[0] != st]
            if len(cand) < len(ents) and bad(cand):
                ents = cand
        ents = ddmin(list(ents))
        for i in range(len(ents)):
            if time.time() - t0 > budget:
                break
            for v in (1, ents[i][2] // 2):
                if 0 < v < ents[i][2]:
                    cand = list(ents)
                    cand[i] = (ents[i][0], ents[i][1], v)
                    if bad(cand):
                        ents = cand
                        break
    finally:
        b.close()
    return ents, tries


def symbolise(exe, text):
    pcs = sorted(set(re.findall(r"0x([0-9a-f]{6})\b", text)))
    if not pcs:
        return text
    # recorded values are return addresses
    addrs = ["0x%x" % (int(p, 16) - 1) for p in pcs]
    r = sh(["addr2line", "-C", "-f", "-s", "-e", exe, *addrs])
    lines = r.stdout.splitlines()
    names = {}
    for i, p in enumerate(pcs):
        if 2 * i + 1 < len(lines):
            fn = re.sub(r"<.*", "", lines[2 * i])[:60]
            loc = lines[2 * i + 1].split(" ")[0]
            names[p] = f"{fn}[{loc}]"
    return re.sub(r"0x([0-9a-f]{6})\b", lambda m: names.get(m.group(1), m.group(0)), text)


# --------------------------------------------------------------------------
# known findings
# --------------------------------------------------------------------------
def known_findings(prop):
    out = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) scenario=(\S+) class=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3), m.group(4)))
    return out


# --------------------------------------------------------------------------
def explore(exe, prop, seed, seconds, tmp, only=None, workers=None):
    ncpu = os.cpu_count() or 4
    try:
        cpus = sorted(os.sched_getaffinity(0))
    except AttributeError:
        cpus = list(range(ncpu))
    n = workers or len(cpus)
    procs = []
    for i in range(n):
        cmd = [exe, "--seed", str(seed), "--first", str(i), "--stride", str(n), "--seconds", str(seconds), "--cpu",
               str(cpus[i % len(cpus)]), "--violation", f"{tmp}/viol{i}", "--out", f"{tmp}/out{i}", "--hashfile",
               f"{tmp}/hash{i}", "--watchdog", str(WATCHDOG)]
        if only:
            cmd += ["--scenario", only]
        procs.append(subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE))
    grace = None
    while True:
        alive = [p for p in procs if p.poll() is None]
        if not alive:
            break
        if any(p.poll() == 1 for p in procs) and grace is None:
            grace = time.time() + 1.0
        if grace and time.time() > grace:
            for p in alive:
                p.kill()
        time.sleep(0.05)
    viols, outs = [], []
    for i, p in enumerate(procs):
        err = p.stderr.read().decode(errors="replace")
        if p.returncode not in (0, 1, -9):
            raise CheckError(f"worker {i} ended with {p.returncode}: {err[-1500:]}")
        if p.returncode == -9 and not grace:
            raise CheckError(f"worker {i} was killed")
        if p.returncode in (0, 1):
            o = json.load(open(f"{tmp}/out{i}"))
            outs.append((i, o))
            if o["violations"]:
                viols.append((o["violation"]["run"], i, o["violation"]))
    viols.sort(key=lambda v: v[:2])
    return viols, outs


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seconds", type=float)
    ap.add_argument("--scenario")
    ap.add_argument("--replay")
    ap.add_argument("--trace", action="store_true")
    ap.add_argument("--no-minimise", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    if a.setup:
        build()
        print("engine and library objects built")
        return 0
    cfg = CHECKS[a.prop]
    seed = int(os.environ.get("VERIF_SEED") or "1")
    try:
        exe = build(cfg["src"])
    except InterfaceError:
        return does_not_compile(a, cfg, seed, t0)
    if a.replay:
        r = run_replay(exe, a.replay, trace=a.trace)
        print(symbolise(exe, r["out"]))
        return 0 if r["ok"] else 1
    t_build = time.time() - t0
    seconds = a.seconds or cfg.get("seconds", {}).get(a.tier) or SECONDS[a.tier]
    tmp = tempfile.mkdtemp(prefix=f"sim_{a.prop}_")
    try:
        return check(a, cfg, exe, seed, seconds, tmp, t0, t_build)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def does_not_compile(a, cfg, seed, t0):
    """a use of the public interface that the property covers is not accepted any more"""
    try:
        build(cfg["src"])
        raise CheckError("compilation failed once and succeeded when repeated")
    except InterfaceError as e:
        out = str(e)
    print(out[-3500:])
    if a.replay:
        return 1
    os.makedirs(os.path.join(EVID, "replays"), exist_ok=True)
    path = os.path.join(EVID, "replays", f"{a.prop}-does-not-compile.txt")
    with open(path, "w") as f:
        f.write(f"# property {a.prop}\n# class does-not-compile\n"
                f"# replay with: python3 run/check.py {a.prop} --replay {path}\n{out}\n")
    write_evidence(a, cfg, seed, 0, [], "", t0, time.time() - t0, 0, 1)
    print(f"VIOLATION property={a.prop} replay={path}")
    return 1


def determinism_selftest(exe, seed, only):
    """the same seeds in two fresh processes must give identical event traces"""
    outs = []
    for _ in range(2):
        cmd = [exe, "--hashes", "--seed", str(seed), "--max-runs", "24", "--seconds", "10", "--keep-going", "--watchdog",
               str(WATCHDOG)]
        if only:
            cmd += ["--scenario", only]
        outs.append(subprocess.run(cmd, stdout=subprocess.PIPE, text=True, errors="replace").stdout)
    a = [l for l in outs[0].splitlines() if l.startswith("H ")]
    b = [l for l in outs[1].splitlines() if l.startswith("H ")]
    n = min(len(a), len(b))  # in the time they had
    if not n or a[:n] != b[:n]:
        raise CheckError("determinism self-test failed: same seed gave different traces")
    return n


def check(a, cfg, exe, seed, seconds, tmp, t0, t_build):
    prop = a.prop
    selftest = determinism_selftest(exe, seed, a.scenario)
    viols, outs = explore(exe, prop, seed, seconds, tmp, a.scenario)
    known = known_findings(prop)
    confirmed = error = None
    for run, i, v in viols:
        try:
            path, scen = confirm(a, cfg, exe, seed, tmp, run, i, v, known)
        except CheckError as e:
            # not reported unless it reproduces; perhaps another one does
            print(f"run {run}: {e}")
            error = error or e
            continue
        if path:
            confirmed = path
            break
    if error and not confirmed:
        raise error
    write_evidence(a, cfg, seed, seconds, outs, tmp, t0, t_build, selftest, 1 if confirmed else 0)
    if confirmed:
        print(f"VIOLATION property={prop} replay={confirmed}")
        return 1
    return 0


def confirm(a, cfg, exe, seed, tmp, run, i, v, known):
    """the gates every violation has to pass; returns its minimised replay file"""
    prop = a.prop
    if v["class"] == "engine-error":
        raise CheckError(f"engine error in run {run}: {v['msg']}")
    raw = f"{tmp}/viol{i}"
    # gate 1: same seed again in a fresh process
    cmd = [exe, "--seed", str(seed), "--first", str(run), "--max-runs", "1", "--seconds", "600", "--violation",
           f"{tmp}/again", "--out", f"{tmp}/again.json", "--watchdog", str(WATCHDOG)]
    if a.scenario:
        cmd += ["--scenario", a.scenario]
    subprocess.run(cmd)
    again = json.load(open(f"{tmp}/again.json"))
    if not again["violations"] or again["violation"]["class"] != v["class"] or (
            again["violation"]["hash"] != v["hash"]):
        raise CheckError(f"run {run} of seed {seed} did not reproduce from its seed")
    if v["overflow"]:
        raise CheckError(f"run {run}: choice log overflow")
    # gate 2: replay of the recorded choices in a fresh process
    r = run_replay(exe, raw)
    if r["cls"] != v["class"] or (r["hash"] != v["hash"] and v["class"] != "hang"):
        raise CheckError(f"run {run} of seed {seed} did not reproduce from its recorded choices "
                         f"({r['cls']} {r['hash']} vs {v['class']} {v['hash']})")
    scen, ents = load_entries(raw)
    n0 = len(ents)
    tries = 0
    if not a.no_minimise and v["class"] != "hang":
        ents, tries = minimise(exe, tmp, scen, ents, v["class"], cfg.get("min_budget", 60))
    os.makedirs(os.path.join(EVID, "replays"), exist_ok=True)
    cls = re.sub(r"[^a-z0-9A-Z-]", "_", v["class"])
    path = os.path.join(EVID, "replays", f"{prop}-{cls}-s{seed}-r{run}.txt")
    # gate 3: the minimised choices (or, should they behave differently, all of them) reproduce twice
    for ents in (ents, load_entries(raw)[1]):
        write_entries(path, scen, ents, [
            f"property {prop}", f"class {v['class']}", f"seed {seed} run {run}",
            f"non-default choices: {len(ents)} (recorded {n0}, {tries} minimisation runs)",
            f"replay with: python3 run/check.py {prop} --replay {path} --trace"])
        r1 = run_replay(exe, path)
        r2 = run_replay(exe, path)
        if not r1["ok"] and r1["cls"] == v["class"] and r1["hash"] == r2["hash"]:
            break
    else:
        raise CheckError(f"minimised replay {path} does not reproduce")
    kf = [k for k in known if k[0] == scen and k[1] == v["class"]]
    if kf:
        print(f"KNOWN-FINDING: property={prop} {kf[0][2]}")
        return None, scen
    msg = symbolise(exe, r1["out"])
    print(f"scenario {scen}, seed {seed}, run {run}: {v['class']}; {len(ents)} non-default choices after "
          f"minimisation (recorded {n0})")
    print(msg[-3500:])
    return path, scen


def write_evidence(a, cfg, seed, seconds, outs, tmp, t0, t_build, selftest, nviol):
    tot = {k: 0 for k in ("runs", "steps", "switches", "simtime_ns", "accesses", "threads")}
    scen, counters, samples = {}, {}, []
    hashes, sites = set(), bytearray(8192)
    wall = 0.0
    for i, o in outs:
        for k in tot:
            tot[k] += o[k]
        wall = max(wall, o["wall"])
        for k, v in o["scenarios"].items():
            scen[k] = scen.get(k, 0) + v
        for k, v in o["counters"].items():
            c = counters.setdefault(k, [0, 0])
            c[0] += v[0]
            c[1] += v[1]
        samples += o["samples"][:2]
        try:
            data = open(f"{tmp}/hash{i}", "rb").read()
            for j in range(8192):
                sites[j] |= data[j]
            body = data[8192:]
            hashes.update(body[j:j + 8] for j in range(0, len(body), 8))
        except OSError:
            pass
    faults = {k[6:]: v[0] for k, v in sorted(counters.items()) if k.startswith("fault:")}
    probes = {k[6:]: v[1] for k, v in sorted(counters.items()) if k.startswith("probe:")}
    stats = {k[5:]: v[0] for k, v in sorted(counters.items()) if k.startswith("stat:")}
    ev = {
        "property": a.prop,
        "tier": a.tier if a.tier in ("quick", "thorough") else "quick",
        "seed": seed,
        "level": cfg.get("level", "exploration"),
        "coverage": {
            "evaluations": tot["runs"],
            "distinct_nontrivial": len(hashes),
            "rule": "One evaluation is one simulated execution of a scenario, a pure function of (VERIF_SEED, run "
                    "number): workload, schedule, time and faults are drawn from that seed. It counts as non-trivial "
                    "when it has at least one context switch and reached the situation the property is about ("
                    + cfg["nontrivial"] + "); distinct = different hash of the complete event trace (every "
                    "scheduling point, switch, fault and recorded observation in order).",
            "samples": samples[:10],
            "seeds_per_hour": int(tot["runs"] / wall * 3600) if wall > 0 else 0,
            "scheduler_steps": tot["steps"],
            "context_switches": tot["switches"],
            "simulated_time_s": round(tot["simtime_ns"] / 1e9, 3),
            "memory_accesses_checked": tot["accesses"],
            "simulated_threads": tot["threads"],
            "distinct_preemption_sites": sum(bin(b).count("1") for b in sites),
            "runs_per_scenario": scen,
            "faults_injected": faults,
            "runs_reaching_probe": probes,
            "engine_statistics": stats,
            "determinism_selftest_runs": selftest,
            "real_code": "all of threadpp (compiled from the /repo working tree), libstdc++ std::thread/mutex/"
                         "condition_variable/function/shared_ptr, the property's workload",
            "simulated": "pthread threads/mutexes/condition variables/once, futex, clocks, sleeping, malloc/new, "
                         "memory-model visibility (sequentially consistent execution plus happens-before race "
                         "detection)",
        },
        "assumptions": cfg.get("assumptions", []) + [
            "interleavings are explored at synchronisation operations, atomics and sampled plain accesses under "
            "sequential consistency; weak-memory reorderings are only covered through the race detector",
            "seeded search: absence of a violation is evidence, not proof",
        ],
        "wall_s": round(time.time() - t0, 2),
        "violations": nviol,
        "build_s": round(t_build, 2),
        "explore_s": round(wall, 2),
    }
    os.makedirs(EVID, exist_ok=True)
    path = os.path.join(EVID, f"{a.prop}.json")
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(path + ".tmp", path)
    print(f"{a.prop}: {tot['runs']} simulated executions, {len(hashes)} distinct non-trivial, "
          f"{tot['simtime_ns'] / 1e9:.1f} s simulated, faults {sum(faults.values())}, wall {ev['wall_s']} s")


if __name__ == "__main__":
    try:
        sys.exit(main())
    except CheckError as e:
        print(f"check error: {e}", file=sys.stderr)
        sys.exit(3)
