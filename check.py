#!/usr/bin/env python3
"""Builds and runs the check of one property against /repo's current working tree.

    check.py P01 [quick|thorough] [--replay FILE] [--scale X] [--only SUB] [--build-only]

Exit 0: held on everything explored.  Exit 1 and a VIOLATION line: broken.  Anything else: the check did not work.
"""
import array, atexit, concurrent.futures, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("REPO_DIR", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(V, "build"))
JOBS = os.cpu_count() or 4
INCS = ["-I" + V + "/shim", "-I" + V + "/harness"] + ["-I%s/%s" % (REPO, d) for d in ("SEUtils", "ModelFitting", "SEFramework", "SEImplementation", "SEMain")]
BASE = ["g++", "-std=c++17", "-O1", "-g1", "-w", "-pipe", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS", "-pthread", '-DSOURCEXTRACTORPLUSPLUS_VERSION_STRING="x"']
SAN = {"address": ["-fsanitize=address"], "undefined": ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"], "thread": ["-fsanitize=thread"], "none": []}
COMMON = ["-Wl,--as-needed"] + ["-l" + l for l in "boost_thread boost_filesystem boost_regex boost_program_options boost_date_time boost_system fftw3f fftw3 gsl gslcblas CCfits cfitsio wcs dl z".split()]
ALLDIRS = ("SEUtils", "ModelFitting", "SEFramework", "SEImplementation", "SEMain")


def die(msg):
    print("check error: " + msg, file=sys.stderr)
    sys.exit(2)


def sha(path, cache={}):
    if path not in cache:
        try:
            with open(path, "rb") as f:
                cache[path] = hashlib.sha1(f.read()).hexdigest()
        except OSError:
            cache[path] = "absent"
    return cache[path]


def compile_one(src, flags, objdir):
    """Compiles src unless an object made from the very same contents of every file it reads is there."""
    key = hashlib.sha1((src + " ".join(flags)).encode()).hexdigest()[:16]
    obj = os.path.join(objdir, os.path.basename(src) + "." + key + ".o")
    stamp = obj + ".stamp"
    if os.path.exists(stamp) and os.path.exists(obj):
        with open(stamp) as f:
            if all(sha(p) == h for h, p in (l.rstrip("\n").split(" ", 1) for l in f)):
                return obj, None
    tmp = "%s.%d.tmp" % (obj, os.getpid())
    dep = tmp + ".d"
    r = subprocess.run(flags + ["-MD", "-MF", dep, "-c", src, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        return obj, "compiling %s failed:\n%s" % (src, r.stdout[-4000:])
    with open(dep) as f:
        deps = [d for d in f.read().replace("\\\n", " ").split(":", 1)[1].split() if d.startswith((REPO, V, src))]
    os.unlink(dep)
    with open(tmp + ".stamp", "w") as f:
        f.writelines("%s %s\n" % (sha(d), d) for d in deps)
    if os.path.exists(stamp):
        os.unlink(stamp)
    os.replace(tmp, obj)
    os.replace(tmp + ".stamp", stamp)
    return obj, None


def parse_header(path):
    h = {"SRCS": [], "LIBS": [], "FLAGS": [], "SAN": ["address"], "RUN": [], "SCALE": []}
    with open(path) as f:
        for line in f:
            m = re.match(r"// (SRCS|LIBS|FLAGS|SAN|RUN|SCALE): *(.*)", line)
            if m:
                if m.group(1) == "SAN":
                    h["SAN"] = m.group(2).split()
                else:
                    h[m.group(1)] += m.group(2).split()
    return h


def program():
    """All of the program, less the parts whose libraries are not installed"""
    out = []
    for d in ALLDIRS:
        for root, _, files in os.walk(os.path.join(REPO, d, "src", "lib")):
            out += [os.path.relpath(os.path.join(root, f), REPO) for f in files if f.endswith(".cpp") and "Onnx" not in os.path.join(root, f)
                    and f not in ("MLSegmentation.cpp", "LevmarEngine.cpp", "ProgressNCurses.cpp")]
    return sorted(out)


def shell_flags(words):
    out = []
    for w in words:
        if w == "@python":
            out += subprocess.run(["python3-config", "--includes"], stdout=subprocess.PIPE, text=True).stdout.split()
        else:
            out.append(w.replace("@V", V).replace("@REPO", REPO))
    return out


def build(harness, tag, san=None):
    h = parse_header(harness)
    san = san or h["SAN"][0]
    objdir = os.path.join(BUILD, "obj")
    os.makedirs(objdir, exist_ok=True)
    flags = BASE + SAN[san] + shell_flags(h["FLAGS"]) + INCS
    names = [x for s in h["SRCS"] for x in (program() if s == "@program" else [s])]
    srcs = [os.path.join(REPO, s) for s in names if os.path.exists(os.path.join(REPO, s))]
    binary = os.path.join(BUILD, tag + "." + san)

    def compile_all(lst):
        objs, errs = [], []
        with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
            for o, e in ex.map(lambda s: compile_one(s, flags, objdir), lst):
                objs.append(o)
                if e:
                    errs.append(e)
        return objs, errs

    objs, errs = compile_all([harness] + srcs)
    if errs:
        die("\n".join(errs))

    def link(objs):
        return subprocess.run(["g++", "-pthread"] + SAN[san] + objs + ["-o", binary] + shell_flags(h["LIBS"]) + COMMON, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)

    r = link(objs)
    if r.returncode and "undefined reference" in r.stdout:
        # code may have moved between files: link what else of the repository compiles, as an archive
        have = set(srcs)
        more = []
        for d in ALLDIRS:
            for root, _, files in os.walk(os.path.join(REPO, d, "src", "lib")):
                more += [os.path.join(root, f) for f in files if f.endswith(".cpp") and os.path.join(root, f) not in have]
        objs2, _ = compile_all(sorted(more))
        objs2 = [o for o in objs2 if os.path.exists(o + ".stamp")]
        lib = binary + ".a"
        subprocess.run(["rm", "-f", lib])
        subprocess.run(["ar", "rcs", lib] + objs2, check=True)
        r = link(objs + [lib])
    if r.returncode:
        die("link failed:\n" + "\n".join(l for l in r.stdout.splitlines() if "undefined" in l)[:1500] + r.stdout[-500:])
    return binary, h


def known(prop):
    """Lines 'finding: property=P08 probe=NAME text' of known_findings.txt"""
    out = []
    p = os.path.join(V, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) probe=(\S+) (.*)", l)
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3).strip()))
    return out


def main():
    args = sys.argv[1:]
    opt = {}
    pos = []
    i = 0
    while i < len(args):
        if args[i] == "--build-only":
            opt["build-only"] = "1"
        elif args[i].startswith("--"):
            opt[args[i][2:]] = args[i + 1]
            i += 1
        else:
            pos.append(args[i])
        i += 1
    prop = pos[0]
    tier = pos[1] if len(pos) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(opt.get("seed", os.environ.get("VERIF_SEED", "1")) or 1)
    t0 = time.time()
    pyfile = os.path.join(V, "props", prop + ".py")
    scratch = tempfile.mkdtemp(prefix="verif")
    atexit.register(shutil.rmtree, scratch, True)
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", REPO_DIR=REPO,
               ASAN_OPTIONS="detect_leaks=0:exitcode=99:allocator_may_return_null=0:max_allocation_size_mb=4000:detect_odr_violation=0:handle_abort=1:detect_stack_use_after_return=0",
               PBT_SCRATCH=scratch, TMPDIR=scratch, UBSAN_OPTIONS="print_stacktrace=1:exitcode=98", TSAN_OPTIONS="exitcode=97:halt_on_error=1:report_signal_unsafe=0")
    outdir = os.path.join(BUILD, "run", prop)
    shutil.rmtree(outdir, ignore_errors=True)
    os.makedirs(outdir)
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    known_list = known(prop)
    if os.path.exists(pyfile):
        cmds = [(["python3-vt", "-B", pyfile, "--prop", prop, "--tier", tier, "--seed", str(seed), "--out", outdir], None)]
    else:
        cmds = []
        harnesses = sorted(os.path.join(V, "props", f) for f in os.listdir(os.path.join(V, "props")) if re.match(prop + r"(_\w+)?\.cpp$", f))
        if not harnesses:
            die("no harness for " + prop)
        for hf in harnesses:
            h = parse_header(hf)
            for san in h["SAN"]:
                binary, h = build(hf, os.path.basename(hf)[:-4], san)
                cmds.append(([binary, "--prop", prop, "--tier", tier, "--seed", str(seed)] + h["RUN"] + (["--scale", h["SCALE"][0]] if h["SCALE"] and tier == "quick" else []), os.path.basename(binary)))
    t_build = time.time() - t0
    if "build-only" in opt:
        return 0
    for k in ("scale", "only", "workers", "cap", "stats"):
        if k in opt:
            cmds = [(c + ["--" + k, opt[k]], t) for c, t in cmds]
    if "replay" in opt:
        rc = 0
        for c, t in cmds:
            r = subprocess.run(c + ["--replay", os.path.abspath(opt["replay"])], env=env)
            if r.returncode in (1, 97, 98, 99, -6, -7, -8, -11):
                rc = 1
        return rc
    cap = (420 if tier == "thorough" else 90)
    status, text, stats, hashes = 0, "", [], set()
    for c, tag in cmds:
        d = os.path.join(outdir, tag or "py")
        os.makedirs(d, exist_ok=True)
        c = [d if x == outdir else x for x in c]
        if tag:
            c += ["--out", d]
            if "cap" not in opt:
                c += ["--cap", str(cap / len(cmds))]
        r = subprocess.run(c, env=env, stdout=subprocess.PIPE, text=True)
        text += r.stdout
        for f in sorted(os.listdir(d)):
            p = os.path.join(d, f)
            if f.endswith(".json"):
                try:
                    stats += [dict(s, binary=tag) for s in json.load(open(p))]
                except ValueError:
                    pass
            elif f.endswith(".hashes"):
                a = array.array("Q")
                a.frombytes(open(p, "rb").read())
                hashes.update(a)
        if r.returncode == 1 and "VIOLATION property=" in r.stdout:
            status = 1
        elif tag and r.returncode in (97, 98, 99, -6, -7, -8, -11) and status != 1 and not os.listdir(d) and all(
                subprocess.run(c, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == r.returncode for _ in range(2)):
            # the code under test stops the program before the first case, each time: nothing it promises can hold
            status = 1
            f = os.path.join(d, prop + "-startup.replay")
            with open(f, "w") as o:
                o.write("# starting a program that contains the code under test fails\n" + " ".join(c) + "\nstatus %d\n" % r.returncode)
            text += "the program stops while it starts, status %d\nVIOLATION property=%s replay=%s\n" % (r.returncode, prop, f)
        elif r.returncode and status != 1:
            status = 2
            text += "the run of %s ended with status %d\n" % (tag, r.returncode)
            for f in sorted(os.listdir(d)):
                if f.endswith(".log"):
                    t = open(os.path.join(d, f), errors="replace").read().strip()
                    if t:
                        text += "--- %s\n%s\n" % (f, t[:1200])
                        break
    # known findings: the recorded input has to fail still, or the line is stale
    for probe, what in known_list:
        for c, tag in cmds:
            r = subprocess.run(c + ["--probe", probe], env=env, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
            if "PROBE-FAILS" in r.stdout:
                print("KNOWN-FINDING: property=%s %s: %s" % (prop, probe, what))
            elif "PROBE-HOLDS" in r.stdout:
                print("note: the known finding %s of %s no longer fails" % (probe, prop))
    # replays go where they outlive the next run of another check
    for f in re.findall(r"replay=(\S+)", text):
        if os.path.exists(f):
            dst = os.path.join(BUILD, "replays", os.path.basename(f))
            os.makedirs(os.path.dirname(dst), exist_ok=True)
            shutil.copy(f, dst)
            text = text.replace("replay=" + f, "replay=" + dst)
    merged = {}
    for s in stats:
        m = merged.setdefault((s["binary"] or "") + ":" + s["sub"], dict(sub=s["sub"], rule=s["rule"], evaluations=0, nontrivial=0, discarded=0, seconds=0.0, capped=False, labels={}, samples=[]))
        for k in ("evaluations", "nontrivial", "discarded"):
            m[k] += s[k]
        m["seconds"] = round(max(m["seconds"], s["seconds"]), 2)
        m["capped"] = m["capped"] or s["capped"]
        for k, v in s["labels"].items():
            m["labels"][k] = m["labels"].get(k, 0) + v
        m["samples"] = (m["samples"] + s["samples"])[:3]
    ev = sum(m["evaluations"] for m in merged.values())
    nt = len(hashes) if hashes else sum(m["nontrivial"] for m in merged.values())
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration", "wall_s": round(time.time() - t0, 2),
        "violations": len(set(re.findall(r"^VIOLATION .*$", text, re.M))),
        "coverage": {
            "evaluations": ev, "distinct_nontrivial": nt,
            "rule": "random structured cases from bounded choice sequences; a case counts when, per sub-property: " + " | ".join("%s: %s" % (m["sub"], m["rule"]) for m in merged.values()),
            "samples": [m["sub"] + ": " + s for m in merged.values() for s in m["samples"][:2]] or ["none"],
            "subs": merged, "build_s": round(t_build, 2)},
        "assumptions": ["repository sources compiled from %s at -O1 without -ffast-math, with sanitizer %s" % (REPO, sorted({t.rsplit('.', 1)[1] for _, t in cmds if t}) or "none")],
    }
    with open(os.path.join(V, "evidence", prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
        f.write("\n")
    sys.stdout.write(text)
    if opt.get("stats") or os.environ.get("PBT_STATS"):
        for k, m in merged.items():
            print("%-34s n=%-8d nt=%-8d disc=%-6d %6.2fs%s %s" % (k, m["evaluations"], m["nontrivial"], m["discarded"], m["seconds"], " CAPPED" if m["capped"] else "", m["labels"]))
    print("%s %s seed %d: %d cases, %d distinct non-trivial, build %.1f s, total %.1f s -> %s" % (prop, tier, seed, ev, nt, t_build, time.time() - t0, {0: "held", 1: "VIOLATED", 2: "error"}[status]))
    return status


if __name__ == "__main__":
    sys.exit(main())
