#!/usr/bin/env python3
"""Driver: builds the library from /repo's working tree together with one
explicit-state suite, explores the suite's bounded space completely on 8
shards, confirms every violation by re-execution, and writes the evidence.

  run.py ID [--tier quick|thorough]      decide one property
  run.py --replay FILE                   re-run one recorded violation
  run.py --all [--tier T]                every property, summary table
"""
import concurrent.futures as cf, fcntl, glob, json, os, re, shutil, struct, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SPFFL_REPO", "/repo")
NSH = int(os.environ.get("MC_SHARDS", "8"))
SHARDS = 4 * NSH - 1  # several per worker, for balance
# property -> harness source; "+fast" adds a build without AddressSanitizer but
# with a checking allocator, used for the large enumerations.
SUITES = json.load(open(os.path.join(VERIF, "mc", "suites.json")))

CXX = "g++"
BASEFLAGS = ["-std=c++20", "-w", "-pipe"]
LIBFLAGS = ["-O1", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer"]
SUITEFLAGS = ["-O1", "-g1", "-fsanitize=address"]
ASAN = ("detect_leaks=0:abort_on_error=0:exitcode=98:quarantine_size_mb=8:thread_local_quarantine_size_kb=64:"
        "hard_rss_limit_mb=3000:max_malloc_fill_size=512:malloc_fill_byte=189:detect_odr_violation=0:allocator_may_return_null=0:"
        "handle_abort=1:malloc_context_size=6")


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def compile_many(jobs):
    def one(j):
        r = sh(j)
        return (r.returncode, " ".join(j), r.stdout)
    with cf.ThreadPoolExecutor(NSH) as ex:
        for rc, c, o in ex.map(one, jobs):
            if rc:
                raise BuildError(c + "\n" + o[-4000:])


def lib_sources():
    return sorted(glob.glob(REPO + "/spffl/**/*.cpp", recursive=True))


def modes(prop):
    return ["fast", "asan"] if "+fast" in SUITES[prop] else ["asan"]


def build_suite(prop, d, which=None):
    """Compiles /repo's library and the suite; returns {mode: executable}."""
    src = SUITES[prop].split("+")[0]
    cli = "+cli" in SUITES[prop]
    jobs, objs, pch = [], {}, []
    for mode in which or modes(prop):
        san = mode == "asan"
        lf = LIBFLAGS if san else ["-O1", "-g1"]
        sf = SUITEFLAGS if san else ["-O1", "-g1"]
        os.mkdir(f"{d}/{mode}")
        inc = ["-include", f"{d}/{mode}/pch.h"]
        shutil.copy(VERIF + "/mc/pch.h", f"{d}/{mode}/pch.h")
        pch.append([CXX, *BASEFLAGS, *lf, "-x", "c++-header", f"{d}/{mode}/pch.h", "-o", f"{d}/{mode}/pch.h.gch"])
        def add(name, flags, s):
            o = f"{d}/{mode}/{name}.o"
            objs.setdefault(mode, []).append(o)
            jobs.append([CXX, *BASEFLAGS, *flags, "-c", s, "-o", o])
        m = re.search(r"\+parts(\d+)", SUITES[prop])
        for i in range(int(m[1]) if m else 1):  # a long suite is compiled in pieces
            add(f"suite{i}", [*sf, "-I" + REPO, "-I" + VERIF + "/mc", "-DMC_PROP_" + prop, f"-DMC_PART={i}"], VERIF + "/mc/" + src)
        add("mc", ["-O1"], VERIF + "/mc/mc.cpp")
        if not san:
            add("alloc", ["-O2"], VERIF + "/mc/alloc.cpp")
        for i, s in enumerate(lib_sources()):
            add(f"l{i}", [*lf, *inc, "-I" + REPO], s)
        if cli:  # the command-line tool, its main() renamed, in the same process
            add("cli", [*sf, "-I" + REPO, "-I" + VERIF + "/mc"], VERIF + "/mc/cli.cpp")
            for i, s in enumerate(sorted(glob.glob(REPO + "/cli/spiff/*.cpp"))):
                add(f"c{i}", [*lf, *inc, "-I" + REPO, "-I" + REPO + "/cli/spiff", "-Dmain=spiff_main"], s)
    compile_many(pch)
    compile_many(jobs)
    exes = {}
    for mode in objs:
        exes[mode] = f"{d}/{mode}/suite"
        r = sh([CXX, *(["-fsanitize=address"] if mode == "asan" else []), *(["-Wl,--wrap=exit"] if cli else []), *objs[mode], "-o", exes[mode]])
        if r.returncode:
            raise BuildError("link\n" + r.stdout[-4000:])
    return exes


CURFMT = "512s128s6qi4xq768s"


def read_cur(path):
    try:
        b = open(path, "rb").read()
        u, l, a0, a1, a2, a3, a4, a5, n, no, t = struct.unpack(CURFMT, b[:struct.calcsize(CURFMT)])
    except Exception:
        return None
    z = lambda x: x.split(b"\0")[0].decode("latin1")
    at = z(l) + "".join(f" {v}" for v in (a0, a1, a2, a3, a4, a5)[:n])
    if z(t):
        at += " " + z(t)
    return {"unit": z(u), "at": at, "no": no}


def parse_out(path):
    rs = []
    if os.path.exists(path):
        for line in open(path, errors="replace"):
            try:
                rs.append(json.loads(line))
            except ValueError:
                pass
    return rs


def summarize_crash(err, rc):
    m = re.search(r"ERROR: AddressSanitizer: ([^\n]*)", err)
    if m:
        head = re.sub(r"0x[0-9a-f]+", "0x..", m.group(1))
        fr = re.findall(r"#\d+ 0x[0-9a-f]+ in ([^\n]*)", err)
        fr = [f for f in fr if "spffl" in f][:2]
        return "memory error: " + head.split(" on ")[0] + " " + " / ".join(re.sub(r"\(.*", "", f) for f in fr)
    return f"abnormal end (status {rc}) " + err.strip()[-300:]


def launch(exe, prop, tier, d, tag, extra, timeout, unitcpu):
    out, cur, err = f"{d}/{tag}.out", f"{d}/{tag}.cur", f"{d}/{tag}.err"
    for p in (out, cur):
        if os.path.exists(p): os.unlink(p)
    sc = f"{d}/{tag}.tmp"
    shutil.rmtree(sc, ignore_errors=True)
    os.mkdir(sc)
    env = dict(os.environ, ASAN_OPTIONS=ASAN, LC_ALL="C")
    with open(err, "wb") as ef:
        try:
            p = subprocess.run([exe, "--prop", prop, "--tier", tier, "--out", out, "--cur", cur, "--unitcpu", str(unitcpu), "--mode", os.path.basename(os.path.dirname(exe)), *extra],
                               stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=ef, timeout=timeout, env=env, cwd=sc)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            rc = "timeout"
    recs = parse_out(out)
    try:
        with open(err, "rb") as ef:
            et = ef.read(200000).decode("latin1")
    except OSError:
        et = ""
    return rc, recs, read_cur(cur), et


def run_shard(exe, prop, tier, d, mode, i, n, budget, unitcpu):
    """One shard, restarted after a crash so that the rest is still explored."""
    res = {"fails": [], "units": 0, "states": 0, "trans": 0, "samples": [], "cpu": 0, "rss": 0, "incomplete": None, "space": 0}
    skip, restarts = -1, 0
    while True:
        left = budget - time.time()
        if left < 5:
            res["incomplete"] = "wall budget"
            return res
        rc, recs, cur, err = launch(exe, prop, tier, d, f"{mode}{i}", ["--shard", str(i), "--nshards", str(n), "--skip", str(skip)], left, unitcpu)
        done = None
        for r in recs:
            if r["t"] == "fail":
                res["fails"].append({"unit": r["unit"], "at": r["at"], "msg": r["msg"], "mode": mode})
            elif r["t"] == "done":
                done = r
        if done:
            for k, kk in (("units", "units"), ("states", "states"), ("trans", "trans")):
                res[k] += done[kk]
            res["cpu"] += done["cpu"]; res["rss"] = max(res["rss"], done["rss_mb"]); res["space"] = done["unit_space"]
            res["samples"] += done["samples"]
            if done["gave_up"]:
                res["incomplete"] = "stopped after many violations"
            return res
        if rc == "timeout":
            res["incomplete"] = "wall budget (last: %s)" % (cur,)
            return res
        if cur is None or cur["no"] < 0:
            res["incomplete"] = f"suite did not start (status {rc}): {err[-500:]}"
            return res
        hang = any(r["t"] == "hang" for r in recs)
        msg = f"no termination within {unitcpu}s of CPU" if hang else summarize_crash(err, rc)
        res["fails"].append({"unit": cur["unit"], "at": cur["at"], "msg": msg, "crash": not hang, "hang": hang, "mode": mode})
        res["units"] += 1
        skip, restarts = cur["no"], restarts + 1
        if restarts > (2 if hang else 8):
            res["incomplete"] = "stopped after repeated crashes"
            return res


def known_findings(prop):
    out = []
    p = VERIF + "/known_findings.txt"
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) <<(.*?) :: (.*?)>> (.*)", line.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3), m.group(4)))
    return out


def match_known(kf, f):
    for k in kf:
        if k[0] == f["unit"] and (k[1] == f["at"] or (k[1].endswith("*") and f["at"].startswith(k[1][:-1]))):
            return k
    return None


def confirm(exes, prop, tier, d, f, n, unitcpu):
    """Re-executes the unit alone: a reported violation must reproduce."""
    rc, recs, cur, err = launch(exes[f["mode"]], prop, tier, d, f"c{n}", ["--only", f["unit"]], 900, unitcpu)
    for r in recs:
        if r["t"] == "fail" and r["at"] == f["at"]:
            return True
    if any(r["t"] == "done" for r in recs):
        return False
    return bool(f.get("crash") or f.get("hang"))


def check_cpp(prop, tier, d, budget):
    exes = build_suite(prop, d)
    unitcpu = 40 if tier == "quick" else 1200
    with cf.ThreadPoolExecutor(NSH) as ex:
        tasks = [(m, i) for m in exes for i in range(SHARDS)]
        rs = list(ex.map(lambda t: run_shard(exes[t[0]], prop, tier, d, t[0], t[1], SHARDS, budget, unitcpu), tasks))
    fails = [f for r in rs for f in r["fails"]]
    conf, unconf = [], []
    kf = known_findings(prop)
    fresh = [f for f in fails if not match_known(kf, f)]
    if os.environ.get("MC_DUMP"):
        json.dump(fails, open(os.environ["MC_DUMP"], "w"))
    todo = fresh[:6]
    with cf.ThreadPoolExecutor(NSH) as ex:
        oks = list(ex.map(lambda t: confirm(exes, prop, tier, d, t[1], t[0], unitcpu), enumerate(todo)))
    for f, ok in zip(todo, oks):
        (conf if ok else unconf).append(f)
    samples = [s for r in rs for s in r["samples"][:1]][:8]
    return {"known_hits": [(match_known(kf, f), f) for f in fails if match_known(kf, f)], "violations": conf, "unconfirmed": unconf,
            "nfresh": len(fresh), "incomplete": [r["incomplete"] for r in rs if r["incomplete"]],
            "states": sum(r["states"] for r in rs), "trans": sum(r["trans"] for r in rs), "units": sum(r["units"] for r in rs),
            "space": sum(max([r["space"] for (m, i), r in zip(tasks, rs) if m == mode] + [0]) for mode in exes), "samples": samples, "rss": max(r["rss"] for r in rs), "cpu": sum(r["cpu"] for r in rs)}


def main_check(prop, tier):
    t0 = time.time()
    budget = t0 + (840 if tier == "quick" else 6 * 3600)
    d = tempfile.mkdtemp(prefix=f"mc-{prop}-")
    try:
        if SUITES[prop].endswith(".py"):
            sys.path.insert(0, VERIF + "/mc")
            mod = __import__(SUITES[prop][:-3])
            r = mod.check(prop, tier, d, budget, sys.modules[__name__])
        else:
            r = check_cpp(prop, tier, d, budget)
    except BuildError as e:
        print("ERROR: build failed:\n" + str(e))
        return 2
    finally:
        shutil.rmtree(d, ignore_errors=True)
    wall = round(time.time() - t0, 2)
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "model_checking",
          "coverage": {"states": r["states"], "transitions": r["trans"], "traces_validated_against_impl": r["units"],
                       "samples": r["samples"], "exhaustive": not r["incomplete"] and r["nfresh"] == 0,
                       "bounds": r.get("bounds", "see DESIGN.md, section " + prop + " (" + tier + ")"),
                       "explanation": "states = distinct model states/inputs reached in the bounded space; transitions = calls or call groups of the real implementation compared with the reference model; traces_validated = enumeration units (histories / input families) executed completely on the implementation.",
                       "rss_mb": r["rss"], "cpu_s": r["cpu"], "incomplete": r["incomplete"]},
          "assumptions": ["the harness's reference model is the mathematical definition",
                          "behaviour outside the stated bounds is not explored"],
          "wall_s": wall, "violations": len(r["violations"])}
    with open(f"{VERIF}/evidence/{prop}.json", "w") as f:
        json.dump(ev, f, indent=1)
    hit = {}
    for k, f in r["known_hits"]:
        hit.setdefault(k, f)
    for k in hit:
        print(f"KNOWN-FINDING: property={prop} {k[0]} :: {k[1]} {k[2]}")
    print(f"{prop} {tier}: {r['units']} of {r['space']} units, {r['states']} states, {r['trans']} transitions, "
          f"{len(r['violations'])} confirmed / {r['nfresh']} raw violations, {wall}s, cpu {r['cpu']}s, rss {r['rss']}MB")
    if r["violations"]:
        os.makedirs(VERIF + "/replays", exist_ok=True)
        for i, f in enumerate(r["violations"]):
            p = f"{VERIF}/replays/{prop}-{i}.json"
            with open(p, "w") as fh:
                json.dump(dict(f, property=prop, tier=tier), fh, indent=1)
            print(f"  {f['unit']} :: {f['at']}: {' '.join(f['msg'].split())}")
            print(f"VIOLATION property={prop} replay={p}")
        return 1
    if r["unconfirmed"]:
        for f in r["unconfirmed"]:
            print(f"UNCONFIRMED (not reproduced alone): {f['unit']} :: {f['at']}: {f['msg']}")
        return 2
    if r["incomplete"]:
        print("ERROR: exploration incomplete: " + "; ".join(r["incomplete"]))
        return 2
    return 0


def replay(path):
    f = json.load(open(path))
    prop, tier = f["property"], f["tier"]
    d = tempfile.mkdtemp(prefix=f"mc-{prop}-")
    try:
        if SUITES[prop].endswith(".py"):
            sys.path.insert(0, VERIF + "/mc")
            mod = __import__(SUITES[prop][:-3])
            bad = mod.replay(f, d, sys.modules[__name__])
        else:
            exe = build_suite(prop, d, [f["mode"]])[f["mode"]]
            rc, recs, cur, err = launch(exe, prop, tier, d, "r", ["--only", f["unit"]], 900, 1200)
            for r in recs:
                if r["t"] == "fail":
                    print(f"{r['unit']} :: {r['at']}: {r['msg']}")
            if not any(r["t"] == "done" for r in recs):
                print(cur, summarize_crash(err, rc)); print(err[:6000])
            bad = any(r["t"] == "fail" and r["at"] == f["at"] for r in recs) or not any(r["t"] == "done" for r in recs)
        print("reproduced" if bad else "not reproduced")
        return 1 if bad else 0
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    a = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        i = a.index("--tier"); tier = a[i + 1]; del a[i:i + 2]
    if a and a[0] == "--setup":
        # Nothing is prebuilt: every check compiles from /repo's working tree.
        r = sh([CXX, "--version"]); print(r.stdout.splitlines()[0]); sys.exit(r.returncode)
    if a and a[0] == "--replay":
        sys.exit(replay(a[1]))
    if a and a[0] == "--all":
        bad = 0
        for p in SUITES:
            rc = main_check(p, tier); bad |= rc != 0
            if rc: print(f"*** {p} exit {rc}")
        sys.exit(1 if bad else 0)
    sys.exit(main_check(a[0], tier))
