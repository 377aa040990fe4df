#!/usr/bin/env python3
"""Runs the check of one property: builds the monitors from /repo's working tree, runs the workloads under them,
and judges what was observed.   check.py C06 [quick|thorough] [--group G --index I] [--keep]
Exit 0: held on everything explored.  1: VIOLATION.  2/3: the check itself failed (no verdict)."""
import argparse, concurrent.futures as cf, hashlib, json, os, re, shutil, signal, subprocess, sys, time
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, "tools"))
sys.path.insert(0, V)
import gencfg
from checks_def import CHECKS
REPO = os.environ.get("VERIF_REPO", "/repo")
NCPU = min(8, os.cpu_count() or 8)
H5I, H5L = "/usr/include/hdf5/serial", "/usr/lib/x86_64-linux-gnu/hdf5/serial"
MPIENV = dict(OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1", OMPI_MCA_rmaps_base_oversubscribe="1",
              OMPI_MCA_btl="self,vader", OMPI_MCA_plm="isolated", OMPI_MCA_hwloc_base_binding_policy="none",
              OMPI_MCA_btl_vader_single_copy_mechanism="none", OMPI_MCA_mpi_yield_when_idle="1")
_mpi = {}
def mpi(kind):
    if kind not in _mpi:
        _mpi[kind] = subprocess.check_output(["mpicxx", "--showme:" + kind], text=True).split()
    return _mpi[kind]

class HarnessError(Exception): pass

def features(u):
    f = u.get("feat", []); f = f.split(",") if isinstance(f, str) else list(f)
    return [x for x in ["GMP"] + f if x != "NOGMP" and not (x == "GMP" and "NOGMP" in f)]

def flags(u, cfgdir):
    prof = u.get("profile", "plain")
    f = ["-std=c++17", "-w", "-DNDEBUG", "-I" + cfgdir, "-I" + REPO + "/include", "-I" + V + "/harness"]
    feat = features(u)
    if "MPI" in feat: f += mpi("compile")
    if "HDF5" in feat: f += ["-I" + H5I]
    if "VTK" in feat: f += ["-I/usr/include/vtk-9.1"]
    if prof == "plain": f += ["-O1", "-D_GLIBCXX_ASSERTIONS", "-g0"]
    elif prof == "fast": f += ["-O0", "-g0"]
    elif prof == "asan": f += ["-O1", "-g1", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS", "-fsanitize=address,undefined", "-fsanitize=float-cast-overflow", "-fno-sanitize=vptr,alignment,null,object-size", "-fsanitize-recover=all"]
    elif prof == "tsan": f += ["-O1", "-g1", "-fsanitize=thread"]
    elif prof == "memcheck": f += ["-O1", "-g1", "-fno-omit-frame-pointer"]
    return f + [path(x) for x in u.get("cflags", [])]

def libs(u):
    feat, l = features(u), []
    if u.get("profile") == "asan": l += ["-fsanitize=address,undefined"]
    if u.get("profile") == "tsan": l += ["-fsanitize=thread"]
    if "MPI" in feat: l += mpi("link")
    if "NETCDF" in feat: l += ["-lnetcdf"]
    if "HDF5" in feat: l += ["-L" + H5L, "-lhdf5_serial"]
    if "TBB" in feat: l += ["-ltbb"]
    if "PNG" in feat: l += ["-lpng"]
    l += u.get("libs", [])
    return l + ["-lgmpxx", "-lgmp", "-lpthread", "-ldl"]

def path(s): return s.replace("$REPO", REPO).replace("$V", V)

def compile_one(src, u, cfgdir, wd, cache, obj):
    cxx = u.get("cxx", "g++")
    src = path(src)
    if src.endswith(".c"):
        cxx, fl = "gcc", [x for x in flags(u, cfgdir) if not x.startswith("-std")]
    else: fl = flags(u, cfgdir)
    pre = subprocess.run([cxx, "-E", "-P"] + fl + [src], capture_output=True)
    if pre.returncode: raise HarnessError("preprocessing %s failed:\n%s" % (src, pre.stderr.decode()[-3000:]))
    key = hashlib.sha256(pre.stdout + repr([cxx] + [x for x in fl if not x.startswith("-I")]).encode()).hexdigest()
    co = os.path.join(cache, key + ".o")
    if os.path.exists(co):
        shutil.copyfile(co, obj); return
    r = subprocess.run([cxx] + fl + ["-c", src, "-o", obj], capture_output=True, cwd=wd)
    if r.returncode: raise HarnessError("compiling %s failed:\n%s" % (src, r.stderr.decode()[:1500]))
    try:
        shutil.copyfile(obj, co + ".%d" % os.getpid()); os.replace(co + ".%d" % os.getpid(), co)
    except OSError: pass

def build_unit(u, wd, cache, pool):
    cfgdir = os.path.join(wd, "cfg-" + u["name"])
    gencfg.gen(cfgdir + "/ftk/config.hh", REPO, set(features(u)))
    exe = os.path.join(wd, u["name"])
    objs, futs = [], []
    for i, s in enumerate(u["src"]):
        o = "%s.%d.o" % (exe, i); objs.append(o)
        futs.append(pool.submit(compile_one, s, u, cfgdir, wd, cache, o))
    def link():
        for f in futs: f.result()
        r = subprocess.run([u.get("cxx", "g++")] + objs + ["-o", exe] + libs(u), capture_output=True)
        if r.returncode: raise HarnessError("linking %s failed:\n%s" % (u["name"], r.stderr.decode()[:4000]))
        return exe
    return link

FRAME = re.compile(r"#\d+ (?:0x[0-9a-f]+ in )?(.*?) (/\S+?):(\d+)")
def frame_key(block):
    """first frame inside the code under test: file and function without template arguments or line numbers"""
    for m in FRAME.finditer(block):
        if "/include/ftk/" in m.group(2) or "/repo/" in m.group(2):
            fn = m.group(1)
            while True:
                n = re.sub(r"<[^<>]*>", "", fn)
                if n == fn: break
                fn = n
            fn = re.sub(r"\(.*", "", fn).split()[-1] if fn else "?"
            return os.path.basename(m.group(2)) + ":" + fn
    return "?"

VGERR = re.compile(r"(Conditional jump or move depends on uninitialised|Use of uninitialised value|Invalid (?:read|write) of size|Invalid free|Mismatched free|Syscall param|Source and destination overlap|Jump to the invalid address)")
def memcheck_reports(t):
    """errors whose innermost frame outside of the system's libraries is in the code under test"""
    out = []
    for blk in re.split(r"^==\d+== *\n", t, flags=re.M):
        m = VGERR.search(blk)
        if not m: continue
        for fr in re.finditer(r"(?:at|by) 0x[0-9A-F]+: (.*) \((/\S+?):\d+\)", blk):
            if "/harness/" in fr.group(2): break
            if "/include/ftk/" in fr.group(2):
                fn = fr.group(1)
                while True:
                    n = re.sub(r"<[^<>]*>", "", fn)
                    if n == fn: break
                    fn = n
                fn = (re.sub(r"\(.*", "", fn).split() or ["?"])[-1]
                out.append(("memcheck:%s:%s:%s" % (m.group(1).split()[0], os.path.basename(fr.group(2)), fn), re.sub(r"^==\d+== ?", "", blk, flags=re.M)[:2500]))
                break
    return out

def sanitizer_reports(base, u_prof=None):
    out = []
    d, b = os.path.split(base)
    for f in sorted(os.listdir(d)):
        if not f.startswith(b + "."): continue
        t = open(os.path.join(d, f), errors="replace").read()
        # UBSan lines
        for m in re.finditer(r"^(\S+?):(\d+):(\d+): runtime error: (.*)$", t, re.M):
            file, msg = m.group(1), m.group(4)
            end = t.find("runtime error", m.end()); blk = t[m.start(): (end if end > 0 else m.start() + 3000)]
            kind = re.sub(r"(0x)?[0-9a-f]*\d[0-9a-fx.e+-]*", "N", msg)[:60]
            if "/external/" in file or "/usr/" in file and "/include/ftk" not in blk: pass
            out.append(("ubsan:%s:%s" % (os.path.basename(file), kind), blk[:2500]))
        for m in re.finditer(r"ERROR: (AddressSanitizer|LeakSanitizer): ?(\S+)(.*?)(?=\n=================|\Z)", t, re.S):
            out.append(("%s:%s:%s" % (m.group(1)[:4].lower() + "san", m.group(2).rstrip(":"), frame_key(m.group(0))), m.group(0)[:2500]))
        if u_prof == "memcheck": out += memcheck_reports(t)
        for m in re.finditer(r"WARNING: ThreadSanitizer: (.*?) \(pid=.*?\)(.*?)(?=\n==================|\Z)", t, re.S):
            out.append(("tsan:%s:%s" % (m.group(1), frame_key(m.group(2))), m.group(0)[:3500]))
    return out

def run_job(job, wd, timeout, attempt=0):
    """one process of one unit; returns (records, problems)"""
    u, exe, tag, args, np = job["u"], job["exe"], job["tag"], job["args"], job["np"]
    out = os.path.join(wd, tag + ".out%d" % attempt)
    scratch = os.path.join(wd, tag + ".d%d" % attempt); os.makedirs(scratch, exist_ok=True)
    env = dict(os.environ); env.update(u.get("env", {}))
    san = os.path.join(wd, tag + ".san%d" % attempt)
    env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=99:detect_stack_use_after_return=0:allocator_may_return_null=1:log_path=" + san + env.pop("VH_ASAN", "")
    env["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=0:log_path=" + san
    env["TSAN_OPTIONS"] = "halt_on_error=0:exitcode=0:report_thread_leaks=0:history_size=4:second_deadlock_stack=1:suppressions=" + V + "/harness/tsan.supp:log_path=" + san
    env["TMPDIR"] = scratch
    cmd = [exe] + args + ["--out", out, "--dir", scratch]
    if u.get("profile") == "memcheck":
        cmd = ["valgrind", "-q", "--error-limit=no", "--leak-check=no", "--num-callers=40", "--fullpath-after=", "--fair-sched=yes", "--log-file=" + san + ".%p"] + cmd
    if np or u.get("tools"): env.update(MPIENV)
    if np:
        cmd = ["mpiexec", "-n", str(np)] + cmd
    lg = open(out + ".log", "wb")
    p = subprocess.Popen(cmd, stdout=lg, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, cwd=scratch, env=env, start_new_session=True)
    hung = False
    try: rc = p.wait(timeout=timeout)
    except subprocess.TimeoutExpired:
        hung, rc = True, -9
    try: os.killpg(p.pid, signal.SIGKILL)
    except OSError: pass
    p.wait(); lg.close()
    recs, state, alldone = [], [], True
    outs = [out] if not np else [out + "." + str(r) for r in range(np)]
    for o in outs:
        done = False
        if os.path.exists(o):
            for l in open(o, errors="replace"):
                try: r = json.loads(l)
                except ValueError: continue
                if r["t"] == "done": done = True
                else: recs.append(r)
        if not done: alldone = False
        if os.path.exists(o + ".state"):
            b = open(o + ".state", "rb").read()
            g = b[:128].split(b"\0")[0].decode(errors="replace"); idx = int.from_bytes(b[128:136], "little", signed=True)
            n = b[136:136 + 1024].split(b"\0")[0].decode(errors="replace")
            state.append((g, idx, n, done))
    tail = subprocess.run(["tail", "-c", "1500", out + ".log"], capture_output=True).stdout.decode(errors="replace")
    probs = []
    st = next((s for s in state if not s[3]), state[0] if state else ("?", -1, "", False))
    for k, blk in sanitizer_reports(san, u.get("profile")):
        probs.append(dict(key=k, group=st[0], index=st[1], msg=blk))
    if hung:
        probs.append(dict(key="hang:" + st[0], group=st[0], index=st[1], msg="no progress within %ds; note: %s; log tail: %s" % (timeout, st[2], tail[-600:]), hang=True))
    elif not alldone and not any(p_["key"].startswith(("addrsan",)) for p_ in probs):
        if not state: raise HarnessError("%s did not start (rc %s): %s" % (tag, rc, tail))
        if rc == 3: raise HarnessError("%s: harness error: %s" % (tag, tail))
        probs.append(dict(key="crash:" + st[0], group=st[0], index=st[1], msg="process ended (rc %s) inside this case; note: %s; log tail: %s" % (rc, st[2], tail)))
    elif rc not in (0, 99) :
        probs.append(dict(key="exit:" + st[0], group=st[0], index=st[1], msg="exit status %s after all cases; log tail: %s" % (rc, tail)))
    shutil.rmtree(scratch, ignore_errors=True)
    return recs, probs

def load_known(pid):
    known = {}
    fn = os.path.join(V, "known-findings.txt")
    if os.path.exists(fn):
        for l in open(fn):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l.strip())
            if m and m.group(1) == pid: known[m.group(2)] = m.group(3)
    return known

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id"); ap.add_argument("tier", nargs="?", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--group"); ap.add_argument("--index"); ap.add_argument("--unit"); ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    chk = CHECKS[a.id]
    bd = os.path.join(V, "build"); cache = os.path.join(bd, "cache"); rep = os.path.join(bd, "replay")
    wd = os.path.join(bd, "%s-%d" % (a.id, os.getpid()))
    for d in (cache, rep, wd, os.path.join(V, "evidence")): os.makedirs(d, exist_ok=True)
    try:
        code = execute(a, chk, tier, seed, t0, wd, cache, rep)
    except HarnessError as e:
        print("CHECK ERROR property=%s: %s" % (a.id, e)); code = 2
    finally:
        if not a.keep: shutil.rmtree(wd, ignore_errors=True)
        trim(cache)
    sys.exit(code)

def trim(cache):
    try:
        fs = sorted((os.path.getmtime(os.path.join(cache, f)), os.path.join(cache, f)) for f in os.listdir(cache))
        tot = sum(os.path.getsize(f) for _, f in fs)
        for _, f in fs:
            if tot < 1.5e9: break
            tot -= os.path.getsize(f); os.unlink(f)
    except OSError: pass

def execute(a, chk, tier, seed, t0, wd, cache, rep):
    units = [u for u in chk["units"] if not a.unit or u["name"] == a.unit]
    if tier == "quick": units = [u for u in units if not u.get("thorough_only")]
    timeout = chk.get("timeout", 150) * (8 if tier == "thorough" else 1)
    recs, probs = [], []
    exes = {}
    build = cf.ThreadPoolExecutor(NCPU); link = cf.ThreadPoolExecutor(NCPU * 2); runp = cf.ThreadPoolExecutor(chk.get("par", NCPU))
    byname = {}
    def built(u):
        k = json.dumps([u["src"], u.get("profile"), u.get("feat"), u.get("cflags"), u.get("libs")])
        if k not in byname: byname[k] = link.submit(build_unit(u, wd, cache, build))
        return byname[k]
    def jobs_of(u, exe):
        js = []
        n = u.get("shards", 1) if tier == "quick" else u.get("tshards", max(u.get("shards", 1), NCPU if not u.get("np") else 1))
        if a.group and a.index is not None: n = 1
        for np in (u.get("np") if tier == "quick" else u.get("tnp", u.get("np"))) or [0]:
            for arg in u.get("args", [""]):
                for s in range(n):
                    args = ["--seed", str(seed), "--tier", tier, "--shard", str(s), "--nshards", str(n)]
                    if arg: args += ["--arg", arg]
                    if a.group: args += ["--group", a.group]
                    if a.index is not None: args += ["--index", a.index]
                    js.append(dict(u=u, exe=exe, tag="%s-%s-%d-%d" % (u["name"], re.sub(r"\W", "_", arg), np, s), args=args, np=np))
        return js
    def job(j):
        t1 = time.time(); r, p = run_job(j, wd, timeout)
        if os.environ.get("VH_TIMES"): print("  %7.1fs %s" % (time.time() - t1, j["tag"]), flush=True)
        if any(x.get("hang") for x in p):     # inconclusive once; only a hang that repeats is reported
            r2, p2 = run_job(j, wd, timeout, 1)
            if not any(x.get("hang") for x in p2): r, p = r2, p2
        for x in r + p: x["unit"] = j["u"]["name"]; x["np"] = j["np"]
        return r, p
    def unit(u):
        tools = {"VH_EXE_" + d["name"]: built(d) for d in u.get("tools", [])}     # programs the harness starts
        exe = built(u).result()
        if tools: u["env"] = dict(u.get("env", {}), **{k: f.result() for k, f in tools.items()})
        fs = [runp.submit(job, j) for j in jobs_of(u, exe)]
        return [f.result() for f in fs]
    allu = cf.ThreadPoolExecutor(len(units) or 1)
    futs = [allu.submit(unit, u) for u in units]
    err = None
    for f in futs:
        try:
            for r, p in f.result(): recs += r; probs += p
        except HarnessError as e: err = err or e
    if "post" in chk:
        r, p = chk["post"](recs, tier, seed); recs += r; probs += p
    # a sanitizer-only check leaves the values to the checks of the other properties
    viols = [r for r in recs if r["t"] == "viol" and not chk.get("san_only")] + probs
    if err and not viols: raise err
    known = load_known(a.id)
    ev, cnt, nt, st, samples = {}, {}, set(), set(), []
    for r in recs:
        t = r["t"]
        if t == "evals": ev[r["group"]] = ev.get(r["group"], 0) + r["n"]
        elif t == "count": cnt[r["k"]] = cnt.get(r["k"], 0) + r["n"]
        elif t == "hashes": nt.update(r["h"])
        elif t == "states": st.update(r["h"])
        elif t == "sample":
            g = r["msg"].split(":")[0]
            if len(samples) < 24 and sum(x.split(":")[0] == g for x in samples) < 2: samples.append(r["msg"])
    nviol = sum(1 for v in viols if v["key"] not in known)
    total = sum(ev.values())
    full = not (a.group or a.unit)
    if full:
        evd = dict(property=a.id, tier=tier, seed=seed, level=chk.get("level", "exploration"),
                   coverage=dict(evaluations=total, distinct_nontrivial=len(nt), rule=chk["rule"], samples=samples or ["none"],
                                 cases_by_group=ev, observed=cnt, distinct_states_observed=len(st)),
                   assumptions=chk.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=nviol)
        fn = os.path.join(V, "evidence", a.id + ".json")
        json.dump(evd, open(fn + ".tmp", "w"), indent=1); os.replace(fn + ".tmp", fn)
    bykey = {}
    for v in viols: bykey.setdefault(v["key"], v)
    bad = 0
    for k, v in bykey.items():
        if k in known:
            print("KNOWN-FINDING: property=%s %s" % (a.id, known[k])); continue
        bad += 1
        if bad > int(os.environ.get("VH_MAXV", 12)): continue
        rp = os.path.join(rep, "%s-%s.json" % (a.id, hashlib.sha1(k.encode()).hexdigest()[:10]))
        json.dump(dict(property=a.id, key=k, unit=v.get("unit"), np=v.get("np"), group=v.get("group"), index=v.get("index"), seed=seed, tier=tier, witness=v["msg"],
                       replay="VERIF_SEED=%d python3 check.py %s %s --unit %s --group '%s' --index %s" % (seed, a.id, tier, v.get("unit"), v.get("group"), v.get("index"))), open(rp, "w"), indent=1)
        print("VIOLATION property=%s replay=%s" % (a.id, rp))
        print("   key=%s unit=%s group=%s index=%s\n   %s" % (k, v.get("unit"), v.get("group"), v.get("index"), v["msg"][:1200].replace("\n", "\n   ")))
    if bad: return 1
    if full:
        for g, m in chk.get("min", {}).items():
            if cnt.get(g, 0) < m: raise HarnessError("observed too little: %s = %d < %d (inconclusive)" % (g, cnt.get(g, 0), m))
        if total == 0 or not nt: raise HarnessError("no case was run")
    print("OK property=%s tier=%s seed=%d evaluations=%d distinct_nontrivial=%d states=%d wall=%.1fs %s" % (a.id, tier, seed, total, len(nt), len(st), time.time() - t0, json.dumps(cnt)))
    return 0
if __name__ == "__main__": main()
