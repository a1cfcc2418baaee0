#!/usr/bin/env python3
"""Builds the harness binaries a property needs from /repo's working tree, runs its case families in parallel,
judges the outcome and writes the evidence file.

  check.py C01 [--tier quick|thorough]     decide one property
  check.py --setup                         build every binary
  check.py --all                           every property in turn (development)
"""
import sys, os, json, hashlib, subprocess, time, fcntl, re, mmap, struct, signal, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from targets import T, CONFIGS
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
HARN = os.path.join(VERIF, "harness")
EVID = os.path.join(VERIF, "evidence")
NCPU = os.cpu_count() or 4
STALL_S = int(os.environ.get("VERIF_STALL", "100"))

def sha(path):
    try:
        with open(path, "rb") as f: return hashlib.sha256(f.read()).hexdigest()
    except OSError: return "missing"
_cpu = None
def cpu_id():
    global _cpu
    if _cpu is None:
        t = ""
        try:
            for l in open("/proc/cpuinfo"):
                if l.startswith(("model name", "flags")): t += l
                if l.strip() == "" : break
        except OSError: pass
        _cpu = hashlib.sha256(t.encode()).hexdigest()
    return _cpu

class BuildError(Exception): pass

def parse_dep(path):
    txt = open(path).read().replace("\\\n", " ")
    txt = txt.split(":", 1)[1]
    return [p for p in txt.split() if p]

def up_to_date(stamp, cmd):
    try: s = json.load(open(stamp))
    except Exception: return False
    if s.get("cmd") != cmd or s.get("cpu") != cpu_id() or not os.path.exists(s["out"]): return False
    return all(sha(p) == h for p, h in s["deps"].items())

def compile_one(out, cmd, dep):
    """run a compile step unless nothing it read has changed"""
    stamp = out + ".json"
    if up_to_date(stamp, cmd): return False
    tmp = out + ".tmp"
    r = subprocess.run([c if c != "@OUT@" else tmp for c in cmd], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode: raise BuildError("$ " + " ".join(cmd) + "\n" + r.stdout[-6000:])
    os.replace(tmp, out)
    deps = {p: sha(p) for p in parse_dep(dep)}
    json.dump(dict(cmd=cmd, cpu=cpu_id(), out=out, deps=deps), open(stamp, "w"))
    return True

def system_dep(p): return p.startswith("/usr/")

def build(names, verbose=False):
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, "lock"), "w"); fcntl.flock(lock, fcntl.LOCK_EX)
    t0 = time.time()
    try:
        cfgs = sorted({T[n]["cfg"] for n in names})
        inc = ["-I" + REPO, "-I" + HARN]
        def pch(cfg):
            c = CONFIGS[cfg]
            d = os.path.join(BUILD, "pch_" + cfg); os.makedirs(d, exist_ok=True)
            hdr = os.path.join(HARN, "mon.hpp")
            if c["cxx"].startswith("clang"):
                out = os.path.join(d, "mon.pch")
                cmd = [c["cxx"]] + c["flags"] + inc + ["-x", "c++-header", hdr, "-MD", "-MF", out + ".d", "-MT", "x", "-o", "@OUT@"]
                compile_one(out, cmd, out + ".d")
            # g++: no precompiled header
        def mainobj(cfg):
            c = CONFIGS[cfg]
            out = os.path.join(BUILD, "main_%s.o" % cfg)
            cmd = [c["cxx"]] + c["flags"] + inc + ["-c", os.path.join(HARN, "main.cpp"), "-MD", "-MF", out + ".d", "-MT", "x", "-o", "@OUT@"]
            compile_one(out, cmd, out + ".d")
        with ThreadPoolExecutor(NCPU) as ex:
            list(ex.map(pch, cfgs)); list(ex.map(mainobj, cfgs))
        built = []
        def one(n):
            t = T[n]; c = CONFIGS[t["cfg"]]
            obj = os.path.join(BUILD, n + ".o")
            pre = []
            if c["cxx"].startswith("clang"):
                pre = ["-include-pch", os.path.join(BUILD, "pch_" + t["cfg"], "mon.pch")]
            cmd = [c["cxx"]] + c["flags"] + inc + pre + t["defs"] + ["-c", os.path.join(HARN, t["src"]), "-MD", "-MF", obj + ".d", "-MT", "x", "-o", "@OUT@"]
            t1 = time.time()
            ch = compile_one(obj, cmd, obj + ".d")
            exe = os.path.join(BUILD, n)
            mo = os.path.join(BUILD, "main_%s.o" % t["cfg"])
            lcmd = [c["cxx"]] + [f for f in c["flags"] if not f.startswith(("-W", "-w"))] + [obj, mo] + t["libs"] + ["-lpthread", "-o", "@OUT@"]
            dep = exe + ".ld"
            open(dep, "w").write("x: %s %s" % (obj, mo))
            if compile_one(exe, lcmd, dep) or ch: built.append((n, round(time.time() - t1, 1)))
        with ThreadPoolExecutor(NCPU) as ex:
            list(ex.map(one, names))
        if built: print("built %s in %.1fs" % (", ".join("%s(%ss)" % b for b in built), time.time() - t0))
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN); lock.close()
    return time.time() - t0

# ------------------------------------------------------------------------------------------------
def known_findings():
    """lines:  property=<id> family=<f> key=<k> :: text     (open findings)
               fixed: property=<id> <commit> <text>         (suppress nothing)"""
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"property=(\S+) family=(\S+) key=(\S+) case=(\S+) :: (.*)", l)
            if m: out.append(m.groups())
    return out

def san_env():
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=66:allocator_may_return_null=1:hard_rss_limit_mb=5000:quarantine_size_mb=64:detect_stack_use_after_return=0:detect_odr_violation=0:handle_abort=1"
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=66"
    e["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=66:second_deadlock_stack=1:history_size=4"
    e["LC_ALL"] = "C"
    return e

def classify(rc, err):
    """-> (kind, family, key, case, message); kind in ok, viol, error"""
    if rc == 0: return ("ok",)
    if rc == 2: return ("error", "harness error: " + err[-500:])
    m = re.search(r"MON-VIOLATION family=(\S+) key=(\S+) case=(\d+) (.*)", err)
    if rc == 77 and m: return ("viol", m.group(2), m.group(4)[:600])
    m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", err)
    if m: return ("viol", "asan-" + m.group(1), tail_report(err, m.start()))
    m = re.search(r"WARNING: ThreadSanitizer: ([^\n(]+)", err)
    if m: return ("viol", "tsan-" + m.group(1).strip().replace(" ", "-"), tail_report(err, m.start()))
    m = re.search(r"ThreadSanitizer:DEADLYSIGNAL|ERROR: ThreadSanitizer: (\S+)", err)
    if m: return ("viol", "tsan-crash", tail_report(err, m.start()))
    m = re.search(r"\S+: runtime error: ([^\n]+)", err)
    if m: return ("viol", "ubsan-" + re.sub(r"[^a-z]+", "-", re.sub(r"0x[0-9a-f]+|'[^']*'|\d+", "", m.group(1).lower()))[:60].strip("-"), tail_report(err, m.start()))
    m = re.search(r"hard rss limit exhausted", err)
    if m: return ("viol", "memory-explosion", "resident memory limit reached")
    if rc == -9: return ("killed", "killed (memory or external)")
    return ("viol", "crash-%s" % (("signal%d" % -rc) if rc < 0 else "exit%d" % rc), err[-600:])

def short_frame(l):
    l = re.sub(r"^\s+", "", l)
    m = re.match(r"#(\d+) 0x[0-9a-f]+ in (.*) (\S+:\d+)", l)
    if not m: return l[:160]
    return "#%s %s %s" % (m.group(1), re.sub(r"<.*", "<>", m.group(2))[:60], m.group(3).replace(REPO, "").replace(HARN, "harness"))
def tail_report(err, pos):
    lines = [l for l in err[pos:].splitlines() if l.strip()]
    keep = [lines[0][:120]] if lines else []
    m = re.search(r"(\S+): (\S+:\d+): .*(Assertion .*)", err[:pos])
    if m: keep.insert(0, "%s %s" % (m.group(2), m.group(3)))
    keep += [short_frame(l) for l in lines[1:] if "/seq/" in l or "harness/" in l][:7]
    return " | ".join(keep)

def read_crumb(path):
    try:
        b = open(path, "rb").read(280)
        fam = b[:128].split(b"\0")[0].decode()
        cid, step, beat = struct.unpack_from("<QQQ", b, 128)
        op = b[152:280].split(b"\0")[0].decode("latin1")
        return fam, cid, step, beat, op
    except Exception: return None

class Job:
    def __init__(s, exe, fam, lo, hi, trace=False):
        s.exe, s.fam, s.lo, s.hi, s.trace = exe, fam, lo, hi, trace
class Runner:
    def __init__(s, prop, tier, seed):
        s.prop, s.tier, s.seed = prop, tier, seed
        s.dir = tempfile.mkdtemp(prefix="vchk_%s_" % prop)
        s.n = 0
        s.procs = {}
        s.stop = False
    def cleanup(s): shutil.rmtree(s.dir, ignore_errors=True)
    def run(s, job, stall=STALL_S):
        """-> (rc, stderr, crumb, statsfile, hung)"""
        s.n += 1; n = s.n
        base = os.path.join(s.dir, "j%d" % n)
        cmd = [job.exe, "--family", job.fam, "--lo", str(job.lo), "--hi", str(job.hi), "--seed", str(s.seed),
               "--tier", "1" if s.tier == "thorough" else "0", "--crumb", base + ".crumb", "--stats", base + ".stats"]
        if job.trace: cmd.append("--trace")
        with open(base + ".err", "wb") as ef:
            p = subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=ef, env=san_env(), cwd=s.dir, start_new_session=True)
            s.procs[n] = p
            last, t_last, hung = None, time.time(), False
            while True:
                try:
                    rc = p.wait(timeout=0.02 if time.time() - t_last < 0.1 else 0.2); break
                except subprocess.TimeoutExpired: pass
                c = read_crumb(base + ".crumb")
                k = (c[1], c[3]) if c else None
                if k != last: last, t_last = k, time.time()
                if s.stop or time.time() - t_last > stall:
                    hung = not s.stop
                    try: os.killpg(p.pid, signal.SIGKILL)
                    except OSError: pass
                    rc = p.wait(); break
            del s.procs[n]
        with open(base + ".err", "rb") as f:
            f.seek(0, 2); size = f.tell(); f.seek(max(0, size - 400000)); err = f.read().decode("latin1")
        return rc, err, read_crumb(base + ".crumb"), base + ".stats", hung

def parse_stats(path, agg):
    b = open(path, "rb").read()
    i = b.index(b"BITS\n")
    for l in b[:i].decode("latin1").splitlines():
        w = l.split(" ", 1)
        if w[0] in ("evaluations", "ops"): agg[w[0]] += int(w[1])
        elif w[0] == "counter":
            k, v = w[1].rsplit(" ", 1); agg["counters"][k] = agg["counters"].get(k, 0) + int(v)
        elif w[0] == "sample" and len(agg["samples"]) < 12: agg["samples"].append(w[1][:400])
    bits = b[i + 5:]; h = len(bits) // 2
    agg["cases"] |= int.from_bytes(bits[:h], "little")
    agg["states"] |= int.from_bytes(bits[h:], "little")

def check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    os.makedirs(EVID, exist_ok=True)
    rd = os.path.join(EVID, "replays"); os.makedirs(rd, exist_ok=True)
    for f in os.listdir(rd):
        if f.startswith(prop + "_"): os.unlink(os.path.join(rd, f))
    names = [n for n in T if prop in T[n]["props"]]
    if not names: print("no harness for", prop); return 2
    try: build_s = build(names)
    except BuildError as e:
        print("BUILD ERROR\n" + str(e)); return 2
    fams = []
    for n in names:
        exe = os.path.join(BUILD, n)
        out = subprocess.run([exe, "--list"], stdout=subprocess.PIPE, text=True, env=san_env()).stdout
        for l in out.splitlines():
            f, q, th = l.split()
            if f.split("/")[0] == prop: fams.append((exe, f, int(th if tier == "thorough" else q)))
    if not fams: print("no family for", prop); return 2
    jobs = []
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    only = os.environ.get("VERIF_FAMILY")
    if only: fams = [f for f in fams if re.search(only, f[1])]
    per = max(1, min(8, 96 // len(fams)))
    for exe, f, n in fams:
        n = max(1, int(n * scale))
        k = min(n, per)
        for i in range(k): jobs.append(Job(exe, f, n * i // k, n * (i + 1) // k))
    # interleave: first chunk of every family first
    jobs.sort(key=lambda j: (j.lo != 0))
    known = known_findings()
    agg = dict(evaluations=0, ops=0, counters={}, samples=[], cases=0, states=0)
    R = Runner(prop, tier, seed)
    viol, knownhit, errors, notes = [], {}, [], []
    famtime = {}
    import threading
    lk = threading.Lock()
    maxviol = int(os.environ.get("VERIF_MAXVIOL", "1"))
    def work(job):
        while not R.stop:
            t1 = time.time()
            rc, err, cr, st, hung = R.run(job)
            with lk: famtime[job.fam] = famtime.get(job.fam, 0) + time.time() - t1
            if R.stop and rc != 77 and rc != 66: return
            if rc == 0:
                with lk: parse_stats(st, agg)
                try: os.unlink(st)
                except OSError: pass
                return
            case = cr[1] if cr else job.lo
            if hung:
                rc2, err2, cr2, st2, hung2 = R.run(Job(job.exe, job.fam, case, case + 1, True), stall=STALL_S + 50)
                if R.stop and not hung2: return
                if hung2: v = ("viol", "hang", "case does not finish: no progress for %d s, twice; last operation %s" % (STALL_S, cr2[4] if cr2 else "?")); err = err2
                elif rc2 == 0:
                    with lk: notes.append("slow case %s/%d completed on retry" % (job.fam, case))
                    v = None
                else: v = classify(rc2, err2); err = err2
            else: v = classify(rc, err)
            if v and v[0] == "killed":
                rc2, err2, cr2, st2, hung2 = R.run(Job(job.exe, job.fam, case, case + 1, False))
                if rc2 == 0:
                    with lk: notes.append("killed case %s/%d completed on retry" % (job.fam, case))
                    v = None
                else:
                    v = classify(rc2, err2)
                    if v[0] == "killed": v = ("error", "case %s/%d killed twice" % (job.fam, case))
            if v is None: pass
            elif v[0] == "error":
                with lk: errors.append("%s case %d: %s" % (job.fam, case, v[1]))
                return
            else:
                kf = next((k for k in known if k[0] == prop and re.fullmatch(k[1], job.fam) and re.fullmatch(k[2], v[1]) and (k[3] == "*" or k[3] == str(case))), None)
                if kf:
                    with lk: knownhit[kf] = knownhit.get(kf, 0) + 1; agg["evaluations"] += 1
                else:
                    # confirm and record the history of the failing case
                    rc3, err3, cr3, st3, hung3 = (None,) * 5
                    if v[1] != "hang":
                        sv, R.stop = R.stop, False
                        rc3, err3, cr3, st3, hung3 = R.run(Job(job.exe, job.fam, case, case + 1, True))
                        R.stop = sv
                    with lk:
                        viol.append((job, case, v, err, rc3, err3))
                        if len(viol) >= maxviol: R.stop = True
            # continue after the failing case
            if case + 1 >= job.hi: return
            job = Job(job.exe, job.fam, case + 1, job.hi)
    with ThreadPoolExecutor(NCPU) as ex:
        list(ex.map(work, jobs))
    R.cleanup()
    wall = time.time() - t0
    distinct = bin(agg["cases"]).count("1")
    cov = dict(evaluations=agg["evaluations"], distinct_nontrivial=distinct,
               rule="cases are generated from VERIF_SEED, family name and case number; a case is non-trivial when it recorded more than 3 operations, and distinct when the digest of its operations and arguments differs (counted in a %d-bit table, so collisions undercount)" % (1 << 20),
               samples=agg["samples"][:12] or ["none"],
               recorded_operations=agg["ops"], distinct_observed_states=bin(agg["states"]).count("1"),
               observed={k: agg["counters"][k] for k in sorted(agg["counters"])},
               families={f: n for _, f, n in fams}, binaries={n: dict(config=T[n]["cfg"]) for n in names},
               known_findings_seen=["%s %s" % (k[1], k[2]) for k in knownhit], notes=notes[:20], build_s=round(build_s, 1))
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration", coverage=cov, wall_s=round(wall, 2), violations=len(viol),
              assumptions=["only executions that were produced are judged", "sanitizer and monitor reports are judged on the inputs and schedules listed in coverage"])
    with open(os.path.join(EVID, prop + ".json"), "w") as f: json.dump(ev, f, indent=1)
    for k, n in knownhit.items(): print("KNOWN-FINDING: property=%s %s key=%s %s" % (prop, k[1], k[2], k[4]))
    for n in notes: print("note:", n)
    if os.environ.get("VERIF_TIMES"):
        for f, t in sorted(famtime.items(), key=lambda x: -x[1])[:15]: print("  %7.1fs %s" % (t, f))
    print("%s %s: %d cases, %d distinct, %d operations, %d states, %.1fs (build %.1fs)" % (prop, tier, agg["evaluations"], distinct, agg["ops"], cov["distinct_observed_states"], wall, build_s))
    if viol:
        for i, (job, case, v, err, rc3, err3) in enumerate(viol):
            path = os.path.join(rd, "%s_%d.txt" % (prop, i))
            with open(path, "w") as f:
                f.write("property %s\nfamily %s\ncase %d\nseed %d\nkey %s\nmessage %s\n" % (prop, job.fam, case, seed, v[1], v[2]))
                f.write("replay: %s --family %s --lo %d --hi %d --seed %d --tier %d --trace   (after: python3 tools/check.py --setup)\n" % (job.exe, job.fam, case, case + 1, seed, tier == "thorough"))
                f.write("re-executed alone: %s\n" % ("fails again" if rc3 not in (0, None) else ("not reproduced (depends on schedule or process state)" if rc3 == 0 else "hang")))
                f.write("\n---- report\n" + err[-20000:] + "\n\n---- history of the failing case\n" + (err3 or "")[-60000:])
            print("  %s case %d: %s :: %s" % (job.fam, case, v[1], v[2]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if errors:
        for e in errors[:5]: print("ERROR", e)
        return 2
    expected = sum(n for _, _, n in fams)
    if agg["evaluations"] < expected * scale * 0.9 - 2:
        print("ERROR only %d of %d cases were observed" % (agg["evaluations"], expected)); return 2
    return 0

def main():
    a = sys.argv[1:]
    if a and a[0] == "--setup":
        try: build(sorted(T))
        except BuildError as e: print(str(e)); return 1
        return 0
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        i = a.index("--tier"); tier = a[i + 1]; del a[i:i + 2]
    if a and a[0] == "--all":
        props = sorted({p for t in T.values() for p in t["props"]})
        rcs = {p: check(p, tier) for p in props}
        print({p: r for p, r in rcs.items() if r}); return max(rcs.values())
    return check(a[0], tier)

if __name__ == "__main__": sys.exit(main())
