"""Build and run the monitored workloads of one property, decide, write the evidence file."""
import concurrent.futures as cf
import fcntl
import glob
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
sys.path.insert(0, os.path.join(VERIF, "lib"))
from props import PROPS  # noqa: E402

EXCL = re.compile(r"_test\.cpp$|_test_|/test/|/tests/|mock|fake|/doc/|/qnx|qnx/|_qnx|performance_bench|test_resources|"
                  r"/example|test_type|_main\.cpp$|/rust/|/test_doubles/|benchmark|^_build/")
GROUPS = {
    "mp": ["score/message_passing/**/*.cpp"],
    "mem": ["score/memory/shared/**/*.cpp"],
    "com": ["score/mw/com/**/*.cpp"],
    "svc": ["score/mw/service/**/*.cpp"],
}
KEEP_FAKE = re.compile(r"^$")
CFG = {
    # -O1 keeps the code close to what ships while the sanitizers stay cheap
    "asan": "-O1 -g1 -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize-recover=all",
    "tsan": "-O1 -g1 -fno-omit-frame-pointer -fsanitize=thread",
    "plain": "-O2 -g1",
}
SANENV = {
    "ASAN_OPTIONS": "abort_on_error=0:exitcode=67:detect_leaks=0:allocator_may_return_null=1:handle_abort=0:"
                    "detect_stack_use_after_return=1:strict_string_checks=1:new_delete_type_mismatch=0",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=67",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=67:second_deadlock_stack=1:history_size=4",
}


def group_sources(groups):
    out = []
    for g in groups:
        for pat in GROUPS[g]:
            for f in glob.glob(os.path.join(REPO, pat), recursive=True):
                rel = os.path.relpath(f, REPO)
                if not EXCL.search(rel):
                    out.append(rel)
    return sorted(set(out))


class Target:
    """One executable: harness sources + repository sources, for one sanitizer configuration."""

    def __init__(self, name, src, cfg="asan", groups=("mp", "mem", "com"), flags="", shim=True, libs=""):
        self.name, self.src, self.cfg, self.groups = name, [src] if isinstance(src, str) else list(src), cfg, groups
        self.flags, self.shim, self.libs = flags, shim, libs
        self.exe = os.path.join(BUILD, cfg, "bin", name)

    def hint_file(self):
        return os.path.join(VERIF, "lib", "hints", os.path.basename(self.src[0]) + ".txt")

    def hinted(self):
        p = self.hint_file()
        if not os.path.exists(p):
            return None
        fs = [l.strip() for l in open(p) if l.strip()]
        return [f for f in fs if os.path.exists(os.path.join(REPO, f))]


# sources that do not share a translation unit with others (same names in unnamed namespaces)
SOLO = re.compile(r"service_instance_id\.cpp|service_type_deployment\.cpp|message_passing_service_instance\.cpp")


def chunks(files):
    """Group sources so that each group holds a similar amount of code; big and unfriendly ones stay alone."""
    out, cur, size = [], [], 0
    for f in sorted(files):
        n = os.path.getsize(os.path.join(REPO, f))
        if SOLO.search(f):
            out.append([f])
            continue
        if cur and (size + n > 60000 or len(cur) >= 10):
            out.append(cur)
            cur, size = [], 0
        cur.append(f)
        size += n
    if cur:
        out.append(cur)
    # the longest first, so that the build does not end with one of them
    return sorted(out, key=lambda c: -sum(os.path.getsize(os.path.join(REPO, f)) for f in c))


def ninja_text(targets, full):
    lines = ["ninja_required_version = 1.8", "builddir = " + BUILD]
    for c, f in CFG.items():
        base = f"clang++ -std=c++17 -w -pthread {f} -I{REPO} -I{VERIF}/shim -I{VERIF}/harness"
        lines += [f"rule cxx_{c}", f"  command = {base} $flags -MD -MF $out.d -c $in -o $out", "  depfile = $out.d",
                  "  deps = gcc", f"rule link_{c}", f"  command = clang++ -pthread {f} $in -o $out $libs"]
        lines += [f"rule ucxx_{c}", f"  command = python3 {VERIF}/lib/uc.py $out $out.d $in -- {base}",
                  "  depfile = $out.d", "  deps = gcc"]
        lines += [f"rule lib_{c}", "  command = rm -f $out && llvm-ar-18 rcs $out $in" if shutil.which("llvm-ar-18")
                  else "  command = rm -f $out && ar rcs $out $in"]
    done = set()

    def obj(cfg, path, flags=""):
        tag = "" if not flags else "_" + hashlib.sha1(flags.encode()).hexdigest()[:6]
        o = os.path.join(BUILD, cfg, "obj", path.strip("/").replace("/", "_") + tag + ".o")
        if o not in done:
            done.add(o)
            lines.extend([f"build {o}: cxx_{cfg} {path}", f"  flags = {flags}"])
        return o

    def unity(cfg, files):
        out = []
        for chunk in chunks(files):
            if len(chunk) == 1:
                out.append(obj(cfg, os.path.join(REPO, chunk[0])))
                continue
            h = hashlib.sha1(" ".join(chunk).encode()).hexdigest()[:10]
            o = os.path.join(BUILD, cfg, "obj", f"unity_{h}.o")
            if o not in done:
                done.add(o)
                lines.append(f"build {o}: ucxx_{cfg} " + " ".join(os.path.join(REPO, f) for f in chunk))
            out.append(o)
        return out

    libs = {}
    for t in targets:
        objs = [obj(t.cfg, os.path.join(VERIF, "harness", s), t.flags) for s in t.src]
        if t.shim:
            objs += [obj(t.cfg, f) for f in sorted(glob.glob(os.path.join(VERIF, "shim", "*.cpp")))]
        hinted = None if full else t.hinted()
        if hinted is not None:
            objs += unity(t.cfg, hinted)
        elif t.groups:
            key = (t.cfg, tuple(t.groups))
            if key not in libs:
                lib = os.path.join(BUILD, t.cfg, "lib_" + "_".join(t.groups) + ".a")
                os_ = [obj(t.cfg, os.path.join(REPO, f)) for f in group_sources(t.groups)]
                lines.append(f"build {lib}: lib_{t.cfg} " + " ".join(os_))
                libs[key] = lib
            objs.append(libs[key])
        lines += [f"build {t.exe}: link_{t.cfg} " + " ".join(objs), f"  libs = {t.libs}"]
    lines.append("default " + " ".join(t.exe for t in targets))
    return "\n".join(lines) + "\n"


def build(targets, verbose=False):
    targets = list({t.exe: t for t in targets}.values())
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        for full in (False, True):
            h = hashlib.sha1((repr([t.name for t in targets]) + str(full)).encode()).hexdigest()[:8]
            nf = os.path.join(BUILD, f"build_{h}.ninja")
            open(nf, "w").write(ninja_text(targets, full))
            r = subprocess.run(["ninja", "-f", nf, "-j", str(os.cpu_count() or 8)], stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True)
            if r.returncode == 0:
                return True, ""
            if verbose:
                print(r.stdout[-6000:])
        return False, r.stdout[-6000:]
    finally:
        lock.close()


def make_hints(t):
    """Development aid: record which repository sources a target links against (see hints/)."""
    ok, out = build_full([t])
    if not ok:
        print(out)
        return False
    nf = os.path.join(BUILD, "hint.ninja")
    text = ninja_text([t], True)
    m = re.search(r"build " + re.escape(t.exe) + r": link_\S+ (.*)", text)
    ins = m.group(1).split()
    mp = os.path.join(BUILD, "hint.map")
    subprocess.run(["clang++", "-pthread", *CFG[t.cfg].split(), *ins, "-o", "/dev/null", "-Wl,-Map=" + mp, *t.libs.split()])
    mtext = open(mp).read()
    names = {}
    for f in group_sources(t.groups):
        names[os.path.join(REPO, f).strip("/").replace("/", "_") + ".o"] = f
    used = sorted({names[m.group(1)] for m in re.finditer(r"\((\S+?\.o)\)", mtext) if m.group(1) in names})
    os.makedirs(os.path.dirname(t.hint_file()), exist_ok=True)
    open(t.hint_file(), "w").write("\n".join(used) + "\n")
    print(t.name, len(used), "sources")
    return True


def build_full(ts):
    os.makedirs(BUILD, exist_ok=True)
    nf = os.path.join(BUILD, "build_full.ninja")
    open(nf, "w").write(ninja_text(ts, True))
    r = subprocess.run(["ninja", "-f", nf, "-k", "0"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode == 0, r.stdout[-8000:]


class Job:
    def __init__(self, target, args="", runs=1, thorough=None, timeout=240, weight=2, env=None, cmd=None):
        self.target, self.args, self.runs = target, args, runs
        self.thorough = thorough if thorough is not None else runs * 10
        self.timeout, self.weight, self.env, self.cmd = timeout, weight, env or {}, cmd


def classify(rc, err):
    """-> (verdict, key, message); verdict in ok, violation, inconclusive"""
    m = re.search(r"VIOL key=(\S+) msg=(.*)", err)
    if m:
        return "violation", m.group(1), m.group(2)[:2000]
    m = re.search(r"(WARNING|ERROR): (\w+Sanitizer): ([^\n]*)", err)
    if m:
        kind = re.sub(r"\(pid=\d+\)|0x[0-9a-f]+.*| on .*", "", m.group(3)).strip().replace(" ", "-")
        fr = re.search(r"#\d+ (?:0x[0-9a-f]+ in )?.*?(%s/score/[^:\s]+)" % re.escape(REPO), err)
        where = os.path.relpath(fr.group(1), REPO) if fr else "?"
        if m.group(2) != "AddressSanitizer" or "stack-overflow" in kind or "heap" in kind or True:
            return "violation", f"san:{m.group(2)}:{kind}:{where}", m.group(3)
    m = re.search(r"(\S+?):\d+:\d+: runtime error: ([^\n]*)", err)
    if m:
        kind = re.sub(r"0x[0-9a-f]+|-?\d+", "N", m.group(2)).replace(" ", "-")[:80]
        where = os.path.relpath(m.group(1), REPO) if m.group(1).startswith(REPO) else os.path.basename(m.group(1))
        return "violation", f"san:UBSan:{kind}:{where}", m.group(2)
    if rc == 99 or "INCONCLUSIVE" in err:
        m = re.search(r"INCONCLUSIVE (.*)", err)
        return "inconclusive", "inconclusive", (m.group(1) if m else "")[:500]
    m = re.search(r"VERIF-CONTRACT (\S+?):\d+:? ?(.*)", err)
    if m and rc != 0:
        f = m.group(1)
        f = os.path.relpath(f, REPO) if f.startswith(REPO) else os.path.basename(f)
        return "violation", "contract:" + f, m.group(2)[:500]
    if rc < 0:
        return "violation", f"signal:{-rc}", err[-800:]
    if rc != 0:
        return "violation", f"exit:{rc}", err[-800:]
    return "ok", "", ""


def run_one(job, seed, scratch, idx):
    out = os.path.join(scratch, f"out_{idx}.json")
    sc = os.path.join(scratch, f"s_{idx}")
    os.makedirs(sc, exist_ok=True)
    env = dict(os.environ)
    env.update(SANENV)
    env.update(job.env)
    env["VERIF_OUT"] = out
    env["VERIF_SCRATCH"] = sc
    env["VERIF_HARNESS"] = os.path.join(VERIF, "harness")
    wd = max(10, job.timeout - 20)
    if job.cmd:
        cmd = job.cmd.format(verif=VERIF, repo=REPO, seed=seed, scratch=sc, out=out, args=job.args).split()
    else:
        cmd = [job.target.exe, "--seed", str(seed), "--watchdog", str(wd), *job.args.split()]
    t0 = time.time()
    with tempfile.TemporaryFile() as log:
        p = subprocess.Popen(cmd, env=env, cwd=sc, stdin=subprocess.DEVNULL, stdout=log, stderr=subprocess.STDOUT,
                             start_new_session=True)
        late = ""
        try:
            rc = p.wait(timeout=job.timeout)
        except subprocess.TimeoutExpired:
            rc, late = 99, "\nINCONCLUSIVE watchdog (timeout)"
        try:
            os.killpg(p.pid, signal.SIGKILL)  # the processes it may have left behind
        except (ProcessLookupError, PermissionError):
            pass
        p.wait()
        log.seek(0)
        err = log.read(64 << 20).decode(errors="replace") + late
    verdict, key, msg = classify(rc, err)
    res = {}
    if os.path.exists(out):
        try:
            res = json.load(open(out))
        except ValueError:
            pass
    if verdict == "ok" and not res:
        verdict, key, msg = "inconclusive", "inconclusive", "no report written"
    shutil.rmtree(sc, ignore_errors=True)
    return {"verdict": verdict, "key": key, "msg": msg, "cmd": cmd, "rc": rc, "err": err[-20000:], "res": res,
            "seed": seed, "wall": time.time() - t0, "job": job}


def known_findings(prop):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


def run_check(prop, spec, tier, seed):
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix=f"vf_{prop}_", dir=os.environ.get("TMPDIR", "/tmp"))
    os.chmod(scratch, 0o755)
    try:
        return _run_check(prop, spec, tier, seed, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def _run_check(prop, spec, tier, seed, scratch, t0):
    jobs = spec["jobs"]
    targets = []
    for j in jobs:
        if j.target is not None and j.target not in targets:
            targets.append(j.target)
    if targets:
        ok, out = build(targets)
        if not ok:
            print(out)
            print(f"ERROR property={prop}: the workload does not build against {REPO}")
            return 3
    tb = time.time()
    work = []
    for ji, j in enumerate(jobs):
        n = j.runs if tier == "quick" else j.thorough
        for i in range(n):
            s = int(hashlib.sha1(f"{seed}/{prop}/{ji}/{i}".encode()).hexdigest()[:12], 16)
            work.append((j, s, f"{ji}_{i}"))
    # weights: how many cores a run keeps busy
    cores = os.cpu_count() or 8
    results = []
    import threading
    sem = {"free": cores}
    cond = threading.Condition()
    stop = threading.Event()

    def go(w):
        j, s, idx = w
        need = min(j.weight, cores)
        with cond:
            while sem["free"] < need:
                cond.wait()
            sem["free"] -= need
        try:
            if stop.is_set():
                return None
            r = run_one(j, s, scratch, idx)
            if r["verdict"] == "inconclusive":
                # re-run once, with the same choices, before saying anything about a hang
                r2 = run_one(j, s, scratch, idx + "r")
                if r2["verdict"] == "inconclusive" and "watchdog" in r["msg"] and "watchdog" in r2["msg"]:
                    r2["verdict"], r2["key"] = "violation", "hang"
                    r2["msg"] = "no progress until the watchdog fired, twice: " + r2["msg"]
                r = r2
            if r["verdict"] == "violation":
                known = any(re.fullmatch(k, r["key"]) for k, _ in known_findings(prop))
                if not known:
                    stop.set()
            return r
        finally:
            with cond:
                sem["free"] += need
                cond.notify_all()

    with cf.ThreadPoolExecutor(max_workers=cores) as ex:
        for r in ex.map(go, work):
            if r is not None:
                results.append(r)
    evals, counters, distinct, samples = 0, {}, set(), []
    for r in results:
        evals += r["res"].get("evals", 0)
        for k, v in r["res"].get("counters", {}).items():
            counters[k] = counters.get(k, 0) + v
        distinct.update(r["res"].get("distinct", []))
        for s in r["res"].get("samples", []):
            if len(samples) < 12:
                samples.append(s)
    viol = [r for r in results if r["verdict"] == "violation"]
    inc = [r for r in results if r["verdict"] == "inconclusive"]
    kf = known_findings(prop)
    new, seen_known = [], {}
    for r in viol:
        hit = [(k, d) for k, d in kf if re.fullmatch(k, r["key"])]
        if hit:
            seen_known[hit[0][0]] = hit[0][1]
        else:
            new.append(r)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": PROPS[prop]["level"],
        "coverage": {
            "evaluations": evals, "distinct_nontrivial": len(distinct), "rule": PROPS[prop]["rule"],
            "samples": samples, "observed": counters, "executions": len(results),
            "inconclusive_executions": len(inc), "workloads": sorted({(r["job"].target.name if r["job"].target else "script") + " " + r["job"].args for r in results}),
        },
        "assumptions": PROPS[prop]["assumptions"] + [PROPS[prop]["note"]],
        "wall_s": round(time.time() - t0, 1), "violations": len(new),
    }
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    print(f"{prop} {tier} seed={seed}: {len(results)} executions, {evals} evaluations, {len(distinct)} distinct, "
          f"{len(inc)} inconclusive; build {tb - t0:.0f}s, total {time.time() - t0:.0f}s")
    for k, d in kf:
        print(f"KNOWN-FINDING: property={prop} {d}")
    if new:
        d = os.path.join(VERIF, "replay")
        os.makedirs(d, exist_ok=True)
        seen = set()
        for r in new:
            if r["key"] in seen:
                continue
            seen.add(r["key"])
            path = os.path.join(d, f"{prop}_{re.sub(r'[^A-Za-z0-9]+', '_', r['key'])[:60]}_{r['seed']}.txt")
            with open(path, "w") as f:
                f.write(f"property {prop}\nkey {r['key']}\nmessage {r['msg']}\nreplay: {' '.join(r['cmd'])}\n"
                        f"exit {r['rc']}\n\n{r['err']}\n")
            print(f"  key={r['key']} msg={r['msg'][:400]}")
            print(f"VIOLATION property={prop} replay={path}")
        return 1
    if len(inc) > len(results) // 2 or evals == 0:
        for r in inc[:3]:
            print("  inconclusive:", r["msg"], r["err"][-600:])
        print(f"ERROR property={prop}: not enough executions gave a verdict")
        return 3
    for name, least in spec.get("need", {}).items():
        if counters.get(name, 0) < least:
            print(f"ERROR property={prop}: monitor saw only {counters.get(name, 0)} of '{name}', needs {least}")
            return 3
    return 0
