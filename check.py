#!/usr/bin/env python3
"""Runs the check of one property: check.py ID [--tier quick|thorough] [--seed N]
Replays a recorded violation:     check.py --replay FILE

Exit 0: the property held on everything explored. Exit 1: violated (VIOLATION
line). Exit 2: the check could not do its work (compile error, lost shard)."""
import argparse, json, os, re, shutil, signal, struct, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.environ.get("VP_BUILD", os.path.join(ROOT, "build"))
EVID = os.environ.get("VP_EVIDENCE", os.path.join(ROOT, "evidence"))
sys.path.insert(0, os.path.join(ROOT, "tools"))
sys.dont_write_bytecode = True
import props_cfg
NODE_INC = "/usr/include/node"
NCPU = os.cpu_count() or 4

COMMON = ["-std=gnu++17", "-g1", "-w", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS", "-U_FORTIFY_SOURCE"]
# The build includes these before each header; the headers do without them ("bare") in H01.
INCLUDES = [x for h in ("cstdint", "cstdio", "cstdlib", "type_traits", "utility", "iterator") for x in ("-include", h)]
FLAVOURS = {
    "asan": dict(cxx="g++", flags=["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
                                   "-ftrivial-auto-var-init=pattern"]),
    "tsan": dict(cxx="g++", flags=["-O1", "-fsanitize=thread"]),
    "clang-asan": dict(cxx="clang++", flags=["-O1", "-fsanitize=address,undefined", "-fno-sanitize=vptr", "-fno-sanitize-recover=all",
                                             "-ftrivial-auto-var-init=pattern"]),
    "opt": dict(cxx="g++", flags=["-O3"]),
    "valgrind": dict(cxx="g++", flags=["-O1"]),
    # Executed basic blocks are counted.
    "work": dict(cxx="g++", flags=["-O1", "-fno-builtin", "-fsanitize-coverage=trace-pc"]),
    # Units with "@clang" or "@ndebug" are made in another way than the rest of the program.
    "mixed": dict(cxx="g++", flags=["-O1"], clang="clang++", ndebug=["-O3", "-DNDEBUG"]),
}
ENV_SAN = {
    "ASAN_OPTIONS": "detect_leaks=0:handle_abort=1:exitcode=99:allocator_may_return_null=1:"
                    "max_malloc_fill_size=1048576:malloc_fill_byte=190:detect_stack_use_after_return=1:"
                    "hard_rss_limit_mb=3500:alloc_dealloc_mismatch=1:quarantine_size_mb=16:strict_string_checks=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:abort_on_error=1",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=66:handle_abort=1:hard_rss_limit_mb=6000:second_deadlock_stack=1:report_thread_leaks=0",
}

def run(cmd, timeout, env=None, cwd=None):
    """Runs a command in its own process group; returns (rc or None, output)."""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, cwd=cwd,
                         stdin=subprocess.DEVNULL, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError: pass
        out, _ = p.communicate()
        return None, out.decode("utf-8", "replace")

def make_config(dirname):
    """bcl-config.h as CMake makes it, with the C socket enabled."""
    tmpl = open(os.path.join(REPO, "include/bcl/bcl-config.h.in")).read()
    out = []
    for line in tmpl.splitlines():
        m = re.match(r"\s*#\s*cmakedefine(01)?\s+(\w+)(.*)", line)
        if m:
            on = m.group(2) == "BCL_C_SOCKET"
            if m.group(1): line = "#define %s %d" % (m.group(2), on)
            else: line = ("#define %s%s" % (m.group(2), m.group(3))) if on else "/* #undef %s */" % m.group(2)
        line = re.sub(r"@\w+@|\$\{\w+\}", "0", line)
        out.append(line)
    for sub in ("", "bcl"):
        d = os.path.join(dirname, sub); os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, "bcl-config.h"), "w") as f: f.write("\n".join(out) + "\n")

class CannotCheck(Exception): pass
class DoesNotCompile(Exception): pass

def generate_macros(dirname):
    """The headers of JSON with declarations as the generator writes them now."""
    d = os.path.join(dirname, "bcl"); shutil.copytree(os.path.join(REPO, "include/bcl"), d)
    script = os.path.join(REPO, "scripts/json_object_macro_gen.pl")
    if not os.path.exists(script) or not shutil.which("perl"): raise CannotCheck("there is no generator or no perl")
    p = subprocess.run(["perl", script], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=120, cwd=dirname)
    if p.returncode != 0 or not p.stdout: raise DoesNotCompile("the generator fails: %s" % p.stderr[-1000:])
    with open(os.path.join(d, "JsonObjectMacros.h"), "w") as f: f.write(p.stdout)
    return dirname

def make_locales(names, dirname):
    """Locales of the C library, for programs with LOCPATH."""
    os.makedirs(dirname, exist_ok=True)
    def one(n):
        # Some characters of a charset may have no name: a warning, status 1.
        rc, out = run(["localedef", "-c", "-i", n.split(".")[0], "-f", n.split(".")[1], "--no-archive", os.path.join(dirname, n)], 300)
        if not os.path.exists(os.path.join(dirname, n, "LC_NUMERIC")): raise CannotCheck("no locale %s:\n%s" % (n, out[-1000:]))
    with ThreadPoolExecutor(NCPU) as ex: list(ex.map(one, names))

def build(cfg, bdir, flavours):
    inc = os.path.join(bdir, "include"); make_config(inc)
    first = []
    if cfg.get("generated_macros"):
        # Declarations come from the generator instead of the header it made once.
        first = ["-I", generate_macros(os.path.join(bdir, "generated"))]
    if cfg.get("locales"): make_locales(cfg["locales"], os.path.join(bdir, "locales"))
    jobs = []
    for fl in flavours:
        F = FLAVOURS[fl]
        for src in cfg["src"]:
            path, *defs = src.replace("$REPO", REPO).split(" ")
            if not path.startswith("/"): path = os.path.join(ROOT, "harness", path)
            obj = os.path.join(bdir, "%s-%s.o" % (fl, re.sub(r"\W", "_", src)))
            how = [d[1:] for d in defs if d[0] == "@"]; defs = [d for d in defs if d[0] != "@"]
            cxx = F.get("clang", F["cxx"]) if "clang" in how else F["cxx"]
            flags = F.get("ndebug", F["flags"]) if "ndebug" in how else F["flags"]
            cmd = [cxx] + COMMON + ([] if cfg.get("bare") else INCLUDES) + flags + cfg.get("cxxflags", []) + (["-fPIC", "-I", NODE_INC] if cfg.get("node") else []) + defs + first + [
                "-I", os.path.join(REPO, "include"), "-I", inc, "-I", os.path.join(ROOT, "harness"),
                "-c", path, "-o", obj]
            jobs.append((fl, obj, cmd))
    with ThreadPoolExecutor(NCPU) as ex:
        res = list(ex.map(lambda j: run(j[2], 600), jobs))
    for (fl, obj, cmd), (rc, out) in zip(jobs, res):
        if rc == 1 and re.search(r": (fatal )?error: ", out):
            # Not for want of resources: the API the workload uses is broken.
            rc2, out2 = run(cmd, 600)
            if rc2 == 1 and ": error: " in out2: raise DoesNotCompile("%s: %s" % (fl, "\n".join(l[:300] for l in out2.splitlines() if ": error: " in l)[:3000]))
            rc = rc2
        if rc != 0:
            raise CannotCheck("the harness does not compile (%s):\n%s\n%s" % (fl, " ".join(cmd), out[-6000:]))
    bins = {}
    for fl in flavours:
        F = FLAVOURS[fl]
        exe = os.path.join(bdir, "h-" + fl)
        cmd = [F["cxx"]] + F["flags"] + (["-shared"] if cfg.get("node") else []) + ["-o", exe] + [o for f, o, _ in jobs if f == fl] + cfg.get("libs", []) + ["-lpthread"]
        rc, out = run(cmd, 300)
        if rc == 1 and re.search(r"undefined (reference|symbol)|multiple definition|duplicate symbol", out):
            # Not for want of resources: a function the API declares is missing.
            rc, out = run(cmd, 300)
            if rc == 1: raise DoesNotCompile("%s: %s" % (fl, "\n".join(l[:300] for l in out.splitlines() if re.search(r"undefined|multiple|duplicate", l))[:3000]))
        if rc != 0: raise CannotCheck("the harness does not link (%s):\n%s" % (fl, out[-4000:]))
        bins[fl] = exe
    return bins

LINE = re.compile(r"^VP-(FAIL|CRASH|HANG) family=(\S+) case=(\d+) seed=(\d+) key=(\S+) ?(.*)$", re.M)

def env_for(cfg):
    e = dict(os.environ); e.update(ENV_SAN); e["LC_ALL"] = "C"
    if cfg.get("locales"): e["LOCPATH"] = "locales"
    if cfg.get("quiet_process"):
        # The memory limit is watched by a thread of the sanitizer which opens descriptors.
        for k in e:
            if k.endswith("SAN_OPTIONS"): e[k] = re.sub(r"hard_rss_limit_mb=\d+:?", "", e[k])
    return e

def wrap(fl, exe, cfg):
    pre = list(cfg.get("wrap", []))
    if cfg.get("node"):
        # The workload is an addon of Node.js, which is not instrumented itself.
        if fl == "asan":
            libs = [subprocess.run(["g++", "-print-file-name=" + l], stdout=subprocess.PIPE, text=True).stdout.strip() for l in ("libasan.so", "libubsan.so")]
            pre += ["env", "LD_PRELOAD=" + ":".join(libs)]
        return pre + ["node", "--expose-gc", os.path.join(ROOT, "harness", "node", "driver.js"), exe]
    if fl == "valgrind":
        pre += ["valgrind", "-q", "--vgdb=no", "--error-exitcode=97", "--leak-check=no", "--soname-synonyms=somalloc=nouserintercepts", "--exit-on-first-error=yes", "--max-stackframe=8000000"]
    return pre + [exe]

def describe(out):
    """The first lines of a sanitizer report in the output of a run."""
    m = re.search(r"(==\d+==ERROR: AddressSanitizer|runtime error:|WARNING: ThreadSanitizer|Assertion|terminate called|hard rss limit|==\d+== (Invalid|Conditional|Use of|Mismatched|Syscall))", out)
    if m:
        s = out.rfind("\n", 0, m.start()) + 1
        return "\n".join(out[s:].splitlines()[:9])
    return "\n".join(out.splitlines()[-12:])

def load_known():
    known = []
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("known: "): known.append(json.loads(l[7:]))
    return known

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id", nargs="?"); ap.add_argument("--replay")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    if a.replay: return replay(a.replay)
    t0 = time.time()
    cfg = props_cfg.get(a.id)
    tier = "thorough" if a.tier == "thorough" else "quick"
    flavours = cfg.get("flavours_thorough", cfg["flavours"]) if tier == "thorough" else cfg["flavours"]
    bdir = os.path.join(BUILD, "%s-%d" % (a.id, os.getpid())); os.makedirs(bdir)
    os.makedirs(EVID, exist_ok=True)
    try:
        return check(a, cfg, tier, flavours, bdir, t0)
    except CannotCheck as e:
        print("ERROR: %s: %s" % (a.id, e)); return 2
    finally:
        if not a.keep: shutil.rmtree(bdir, ignore_errors=True)

def check(a, cfg, tier, flavours, bdir, t0):
    try: bins = build(cfg, bdir, flavours)
    except DoesNotCompile as e:
        if cfg.get("interference"): raise CannotCheck(str(e)) # the checks of what does not compile report it
        # The workload uses bcl only as its documentation and examples do: what
        # does not compile any more does not hold any more.
        rp = os.path.join(EVID, a.id + ".replay.json")
        pr = dict(kind="COMPILE", flavour=flavours[0], family="compile", case=0, seed=a.seed, key="compile", detail=str(e))
        with open(rp, "w") as f: json.dump(dict(property=a.id, tier=tier, problems=[pr]), f, indent=1)
        with open(os.path.join(EVID, a.id + ".json"), "w") as f:
            json.dump(dict(property=a.id, tier=tier, seed=a.seed, level=cfg.get("level", "exploration"),
                           coverage=dict(evaluations=0, distinct_nontrivial=0, rule=cfg["rule"], samples=[], compile_errors=str(e)[:500]),
                           assumptions=cfg.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=1), f, indent=1)
        print("The workload does not compile against this tree: %s" % e)
        print("VIOLATION property=%s replay=%s" % (a.id, rp))
        return 1
    tbuild = time.time() - t0
    budget = cfg.get("budget_thorough", 240) if tier == "thorough" else cfg.get("budget", 40)
    budget = float(os.environ.get("VP_BUDGET", budget))
    shards = cfg.get("shards", NCPU)
    jobs = []
    for fl in flavours:
        for pre in cfg["prefixes"]:
            if isinstance(pre, tuple):
                if fl not in pre[1]: continue
                pre = pre[0]
            for s in range(shards): jobs.append((fl, pre, s))
    # What is left of the time for the runs is shared by the rounds of shards.
    rounds = max(1, (len(jobs) * cfg.get("width", 1) + NCPU - 1) // NCPU)
    per = budget / rounds
    alarm = cfg.get("alarm", 60)
    def one(j):
        fl, pre, s = j
        out = os.path.join(bdir, "out-%s-%s-%d.json" % (fl, pre, s))
        scale = {"valgrind": 0.02}.get(fl, 1.0) * cfg.get("scale", {}).get(fl, 1.0)
        cmd = wrap(fl, bins[fl], cfg) + ["--prop", pre, "--seed", str(a.seed), "--out", out, "--shard", "%d/%d" % (s, shards),
              "--budget", "%.1f" % per, "--scale", str(scale), "--alarm", str(alarm * (5 if fl == "valgrind" else 1))]
        if tier == "thorough": cmd.append("--thorough")
        rc, o = run(cmd, per + 3 * alarm + 60, env_for(cfg), cwd=bdir)
        return fl, pre, s, cmd, rc, o, out
    with ThreadPoolExecutor(max(1, NCPU // cfg.get("width", 1))) as ex:
        results = list(ex.map(one, jobs))
    problems, errors = [], []
    merged = dict(evaluations=0, families={}, counters={}, sets={}, samples={}, flav={})
    distinct = set()
    for fl, pre, s, cmd, rc, o, out in results:
        found = LINE.findall(o)
        for kind, fam, case, seed, key, rest in found:
            problems.append(dict(kind=kind, flavour=fl, family=fam, case=int(case), seed=int(seed), key=key,
                                 detail=rest[:3000], report=describe(o) if kind == "CRASH" else ""))
        if not found and (rc != 0 or "VP-DONE" not in o):
            if rc is None or rc == -9:
                errors.append("shard %s/%s/%d ended without an answer (rc=%s)\n%s" % (fl, pre, s, rc, o[-1500:]))
            else:
                problems.append(dict(kind="CRASH", flavour=fl, family=pre + "?", case=0, seed=a.seed, key="exit-%s" % rc,
                                     detail="shard %d exited with %s" % (s, rc), report=describe(o)))
        if os.path.exists(out):
            try: r = json.load(open(out))
            except Exception as e:
                errors.append("bad report %s: %s" % (out, e)); continue
            merged["evaluations"] += r["evaluations"]
            merged["flav"][fl] = merged["flav"].get(fl, 0) + r["evaluations"]
            for k in ("families", "counters"):
                for n, v in r[k].items(): merged[k][n] = merged[k].get(n, 0) + v
            for n, v in r["sets"].items(): merged["sets"].setdefault(n, set()).update(v)
            for n, v in r["samples"].items():
                l = merged["samples"].setdefault(n, [])
                for x in v:
                    if len(l) < 2: l.append(x)
            if os.path.exists(out + ".hashes"):
                b = open(out + ".hashes", "rb").read()
                distinct.update(struct.unpack("<%dQ" % (len(b) // 8), b))
    # A hang has to show again, alone on the machine.
    confirmed = []
    for p in problems:
        if p["kind"] == "HANG":
            if any(q["kind"] == "HANG" for q in confirmed): continue
            rc, o = run(wrap(p["flavour"], bins[p["flavour"]], cfg) + ["--prop", p["family"], "--family", p["family"], "--case", str(p["case"]),
                        "--seed", str(a.seed), "--alarm", str(alarm)] + (["--thorough"] if tier == "thorough" else []), 3 * alarm, env_for(cfg), cwd=bdir)
            if rc == 0:
                errors.append("case %(family)s/%(case)d was too slow once" % p); continue
        confirmed.append(p)
    problems = confirmed
    post_info = {}
    if cfg.get("interference") and problems:
        # What fails in one thread, too, is not interference of threads but another defect.
        confirmed, single, seen = [], [], {}
        for p in problems:
            k = p["flavour"], p["family"], p["key"]
            if k not in seen and len(seen) < 24:
                rc, o = run(wrap(p["flavour"], bins[p["flavour"]], cfg) + ["--alone", "--prop", p["family"], "--family", p["family"], "--case", str(p["case"]),
                            "--seed", str(a.seed), "--alarm", str(alarm)] + (["--thorough"] if tier == "thorough" else []), 3 * alarm, env_for(cfg), cwd=bdir)
                seen[k] = rc == 0
            (confirmed if seen.get(k) else single).append(p)
        problems = confirmed
        for p in single[:3]: print("NOTE: %(family)s/%(case)d fails in one thread, too (%(key)s): no matter of this property" % p)
        post_info["failures_without_threads"] = len(single)
    if cfg.get("post"):
        import importlib
        mod, fn = cfg["post"].split(":")
        pp, post_info = getattr(importlib.import_module(mod), fn)(bdir, a.seed, tier)
        problems += pp
    # Every workload has to have been observed, or the check says nothing.
    if not problems:
        for n, least in cfg.get("require", {}).items():
            got = merged["counters"].get(n, len(merged["sets"].get(n, ())))
            if got < least: errors.append("only %d of at least %d '%s' observed" % (got, least, n))
        if merged["evaluations"] == 0: errors.append("nothing was executed")
    known = [k for k in load_known() if k["property"] == a.id]
    new, hit = [], set()
    for p in problems:
        for i, k in enumerate(known):
            if k.get("family") == p["family"] and k.get("key") == p["key"] and (not k.get("input") or k["input"] in p["detail"]):
                hit.add(i); break
        else: new.append(p)
    for i in sorted(hit): print("KNOWN-FINDING: property=%s %s" % (a.id, known[i]["what"]))
    cov = dict(evaluations=merged["evaluations"], distinct_nontrivial=len(distinct), rule=cfg["rule"],
               samples=[{"family": n, "case": x} for n, v in sorted(merged["samples"].items()) for x in v][:12],
               cases_per_family=merged["families"], executions_per_build=merged["flav"],
               observed=merged["counters"], distinct_observed={n: len(v) for n, v in merged["sets"].items()},
               build_s=round(tbuild, 1))
    cov.update(post_info)
    ev = dict(property=a.id, tier=tier, seed=a.seed, level=cfg.get("level", "exploration"), coverage=cov,
              assumptions=cfg.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(new))
    with open(os.path.join(EVID, a.id + ".json"), "w") as f: json.dump(ev, f, indent=1)
    if new:
        rp = os.path.join(EVID, a.id + ".replay.json")
        with open(rp, "w") as f:
            json.dump(dict(property=a.id, tier=tier, problems=new[:20]), f, indent=1)
        for p in new[:3]:
            print("%(kind)s [%(flavour)s] family=%(family)s case=%(case)d key=%(key)s %(detail)s" % p)
            if p.get("report"): print(p["report"])
        print("VIOLATION property=%s replay=%s" % (a.id, rp))
        return 1
    if errors:
        for e in errors: print("ERROR: %s: %s" % (a.id, e))
        return 2
    print("OK property=%s tier=%s evaluations=%d distinct=%d wall=%.1fs (build %.1fs)" % (
        a.id, tier, merged["evaluations"], len(distinct), time.time() - t0, tbuild))
    return 0

def replay(path):
    r = json.load(open(path)); cfg = props_cfg.get(r["property"])
    bdir = os.path.join(BUILD, "replay-%d" % os.getpid()); os.makedirs(bdir)
    bad = False
    try:
        bins = build(cfg, bdir, sorted({p["flavour"] for p in r["problems"]} & set(FLAVOURS)))
        for p in r["problems"]:
            if p["flavour"] not in bins: continue
            cmd = wrap(p["flavour"], bins[p["flavour"]], cfg) + ["--prop", p["family"], "--family", p["family"], "--case", str(p["case"]), "--seed", str(p["seed"])]
            if r["tier"] == "thorough": cmd.append("--thorough")
            rc, o = run(cmd, 300, env_for(cfg), cwd=bdir)
            print("replay %s/%d: rc=%s\n%s" % (p["family"], p["case"], rc, o[-5000:]))
            bad |= rc != 0
    except DoesNotCompile as e:
        print(e); return 1
    except CannotCheck as e:
        print(e); return 2
    finally:
        shutil.rmtree(bdir, ignore_errors=True)
    return 1 if bad else 0

if __name__ == "__main__": sys.exit(main())
