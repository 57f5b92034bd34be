#!/usr/bin/env python3
"""run.py <property> [quick|thorough] [--replay FILE] [--keep]

Builds the library under test from /repo's working tree (VERIF_REPO overrides), builds the
explorer for one property, runs it, compares what it found with known_findings.txt, writes
evidence/<property>.json, and prints a VIOLATION line for everything unlisted.
"""
import glob, hashlib, json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(HERE, "build"))
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
JOBS = int(os.environ.get("VERIF_JOBS", "8"))

sys.path.insert(0, HERE)
from registry import CHECKS, LIBS  # noqa: E402


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if r.returncode:
        sys.stderr.write("command failed: %s\n%s\n" % (" ".join(cmd), r.stdout.decode(errors="replace")[-6000:]))
        raise SystemExit(3)
    return r.stdout


def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:20]


def tree_hash():
    h = hashlib.sha256()
    for d in ("include", "src"):
        for root, dirs, files in sorted(os.walk(os.path.join(REPO, d))):
            dirs.sort()
            for f in sorted(files):
                if f.endswith((".c", ".h", ".in")):
                    p = os.path.join(root, f)
                    h.update(os.path.relpath(p, REPO).encode() + b"\0")
                    with open(p, "rb") as fh:
                        h.update(fh.read())
    return h.hexdigest()[:20]


def lib_sources():
    out = []
    for root, dirs, files in os.walk(os.path.join(REPO, "src")):
        rel = os.path.relpath(root, os.path.join(REPO, "src"))
        top = rel.split(os.sep)[0]
        if top in ("cli", "tools", "tests", "bench"):
            continue
        out += [os.path.join(root, f) for f in files if f.endswith(".c")]
    return sorted(out)


def gen_config(dest, defs):
    """config.h and version.c as cmake would generate them."""
    os.makedirs(os.path.join(dest, "passgen"), exist_ok=True)
    text = open(os.path.join(REPO, "include/passgen/config.h.in")).read()

    def cm(m):
        return "#define " + m.group(1) if m.group(1) in defs else "/* #undef %s */" % m.group(1)
    text = re.sub(r"#cmakedefine\s+(\w+)", cm, text)
    open(os.path.join(dest, "passgen/config.h"), "w").write(text)
    v = open(os.path.join(REPO, "src/version.c.in")).read()
    m = re.search(r"VERSION\s+(\d+)\.(\d+)\.(\d+)", open(os.path.join(REPO, "CMakeLists.txt")).read())
    for k, val in zip(("MAJOR", "MINOR", "PATCH"), m.groups()):
        v = v.replace("@PROJECT_VERSION_%s@" % k, val)
    v = re.sub(r"@\w+@", "", v)
    open(os.path.join(dest, "version.c"), "w").write(v)
    return [int(x) for x in m.groups()]


def gen_versions(dest, inc):
    """version.c as it would be for many version numbers of the project, with a table of them (C29)"""
    text = open(os.path.join(REPO, "src/version.c.in")).read()
    own = gen_config(os.path.join(dest, "own"), [])
    files, decl, rows = [], "", ""
    for a in (0, 1, 255):
        for b in (0, 1, 7, 255):
            for c in (0, 1, 7, 255):
                t = text
                for k, val in zip(("MAJOR", "MINOR", "PATCH"), (a, b, c)):
                    t = t.replace("@PROJECT_VERSION_%s@" % k, str(val))
                t = re.sub(r"@\w+@", "", t)
                n = "v%d_%d_%d_" % (a, b, c)
                names = ("passgen_version_get", "passgen_version_compatible", "passgen_is_debug")
                p = os.path.join(dest, n + ".c")
                open(p, "w").write("".join("#define %s %s%s\n" % (x, n, x) for x in names) + t)
                files.append(p)
                decl += "passgen_version %spassgen_version_get();\nbool %spassgen_version_compatible(passgen_version);\n" % (n, n)
                rows += "    {%d, %d, %d, %spassgen_version_get, %spassgen_version_compatible},\n" % (a, b, c, n, n)
    p = os.path.join(dest, "versions.c")
    open(p, "w").write("#include <passgen/version.h>\n" + decl +
                       "struct any { int major, minor, patch; passgen_version (*get)(); bool (*compatible)(passgen_version); };\n"
                       "const struct any any_versions[] = {\n" + rows + "};\n"
                       "const unsigned any_version_count = %d;\nconst int project_version[3] = {%d, %d, %d};\n" % (len(files), *own))
    return files + [p]


def build_lib(name, th):
    """returns (dir, archive or shared object, cflags for users)"""
    spec = LIBS[name]
    cc = spec.get("cc", "gcc")
    key = digest(th, name, json.dumps(spec, sort_keys=True), open(os.path.join(HERE, "run.py")).read())
    d = os.path.join(BUILD, "lib-%s-%s" % (name, key))
    so = spec.get("shared", False)
    out = os.path.join(d, "libpassgen_mc.so" if so else "libpassgen_mc.a")
    inc = ["-I", os.path.join(REPO, "include"), "-I", d]
    if os.path.exists(out):
        return d, out, inc
    tmp = d + ".tmp%d" % os.getpid()
    os.makedirs(tmp, exist_ok=True)
    gen_config(tmp, spec["config"])
    tinc = ["-I", os.path.join(REPO, "include"), "-I", tmp]
    srcs = lib_sources() + [os.path.join(tmp, "version.c")]
    objs = []
    jobs = []
    for s in srcs:
        o = os.path.join(tmp, re.sub(r"[^A-Za-z0-9]", "_", os.path.relpath(s, REPO)) + ".o")
        objs.append(o)
        jobs.append([cc, "-w", "-Werror=implicit-function-declaration"] + spec["cflags"] + tinc + ["-c", s, "-o", o])
    with ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(sh, jobs))
    tout = os.path.join(tmp, os.path.basename(out))
    if so:
        sh([cc, "-shared"] + spec.get("ldflags", []) + ["-o", tout] + objs + ["-lm"])
    else:
        sh(["ar", "rcs", tout] + objs)
    if os.path.exists(d):
        shutil.rmtree(d, ignore_errors=True)
    os.rename(tmp, d)
    return d, out, inc


def build_bin(b, th):
    libdir, lib, inc = build_lib(b["lib"], th)
    spec = LIBS[b["lib"]]
    srcs = [os.path.join(HERE, s) for s in b["srcs"]]
    deps = sorted(glob.glob(os.path.join(HERE, "mc", "*")) + srcs)
    key = digest(th, json.dumps(b, sort_keys=True), json.dumps(spec, sort_keys=True),
                 *[open(p, "rb").read() for p in deps])
    d = os.path.join(BUILD, "bin-%s-%s" % (b["name"], key))
    out = os.path.join(d, b["name"])
    if os.path.exists(out):
        return out
    tmp = d + ".tmp%d" % os.getpid()
    os.makedirs(tmp, exist_ok=True)
    san = spec.get("san", [f for f in spec["cflags"] if f.startswith("-fsanitize")])
    objs, jobs = [], []
    repo_c = [os.path.join(REPO, s) for s in b.get("repo_srcs", [])]
    if b.get("versions"):
        repo_c += gen_versions(tmp, inc)
    for s in srcs + repo_c:
        o = os.path.join(tmp, re.sub(r"[^A-Za-z0-9]", "_", s) + ".o")
        objs.append(o)
        if s.endswith(".c"):
            fl = spec["cflags"] if s in repo_c else [f for f in spec["cflags"]]
            jobs.append(["gcc", "-w"] + fl + b.get("cflags", []) + (b.get("repo_cflags", []) if s in repo_c else []) + inc + ["-c", s, "-o", o])
        else:
            jobs.append(["g++", "-std=c++17", "-w", "-fpermissive", "-O1", "-g"] + san + b.get("cflags", []) + inc +
                        ["-I", os.path.join(HERE, "mc"), "-I", REPO, "-c", s, "-o", o])
    with ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(sh, jobs))
    if b.get("versions"):
        # helpers of one version must not clash with those of another
        sh_jobs = []
        for o in objs:
            m = re.search(r"_(v\d+_\d+_\d+_)_c\.o$", o)
            if m:
                sh_jobs.append(["objcopy"] + [a for x in ("get", "compatible") for a in ("-G", m.group(1) + "passgen_version_" + x)] + [o])
        with ThreadPoolExecutor(JOBS) as ex:
            list(ex.map(sh, sh_jobs))
    link = ["g++"] + san + ["-o", os.path.join(tmp, b["name"])] + objs
    if spec.get("shared"):
        link += ["-rdynamic", lib, "-Wl,-rpath," + libdir]
    else:
        link += [lib]
    link += b.get("ldflags", []) + ["-lm", "-ldl", "-lpthread"]
    sh(link)
    if os.path.exists(d):
        shutil.rmtree(d, ignore_errors=True)
    os.rename(tmp, d)
    return out


def known_findings(prop):
    """known: property=<id> key=<key> :: <what fails>   /   fixed: property=<id> <commit> <what failed>"""
    out = {}
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\w+) key=(.*?) :: (.*)$", line.rstrip("\n"))
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3)
    return out


def san_env():
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:exitcode=99:allocator_may_return_null=1:abort_on_error=0:handle_abort=0:detect_odr_violation=0"
    e["UBSAN_OPTIONS"] = "halt_on_error=1:exitcode=98:print_stacktrace=0"
    e["VERIF_REPO"] = REPO
    e["LC_ALL"] = "C"
    for k in ("XDG_CONFIG_PATH",):
        e.pop(k, None)
    return e


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    prop = args[0]
    if prop == "setup":
        os.makedirs(BUILD, exist_ok=True)
        th = tree_hash()
        done = set()
        for c in CHECKS.values():
            for b in c["bins"]:
                if b["name"] not in done:
                    done.add(b["name"])
                    build_bin(b, th)
        print("built %d explorers" % len(done))
        return
    tier = args[1] if len(args) > 1 and args[1] in ("quick", "thorough") else os.environ.get("VERIF_TIER", "quick")
    chk = CHECKS[prop]
    t0 = time.time()
    th = tree_hash()
    os.makedirs(BUILD, exist_ok=True)
    if "--replay" in sys.argv:
        f = sys.argv[sys.argv.index("--replay") + 1]
        text = open(f).read().split("\n", 1)
        b = [x for x in chk["bins"] if x["name"] == text[0]][0]
        exe = build_bin(b, th)
        rf = f + ".case"
        open(rf, "w").write(text[1])
        r = subprocess.run([exe, "--prop", prop, "--replay", rf] + b.get("args", []), env=san_env())
        os.unlink(rf)
        raise SystemExit(1 if r.returncode else 0)
    known = known_findings(prop)
    cov = dict(cases=0, states=0, transitions=0, traces=0, evals=0, nontrivial=0, skipped=0)
    spaces, samples, viols, trunc, unrep = [], [], [], False, 0
    wd = os.path.join(BUILD, "run-%s-%d" % (prop, os.getpid()))
    os.makedirs(wd, exist_ok=True)
    kf = os.path.join(wd, "known")
    open(kf, "w").write("".join(k + "\n" for k in known))
    budget = chk.get("budget", {}).get(tier, 700 if tier == "quick" else 36000)
    try:
        bins = [b for b in chk["bins"] if tier in b.get("tiers", ("quick", "thorough"))]
        exes = [build_bin(b, th) for b in bins]
        for b, exe in zip(bins, exes):
            out = os.path.join(wd, b["name"] + ".json")
            left = max(20, budget - (time.time() - t0))
            cmd = [exe, "--prop", prop, "--out", out, "--known", kf, "--jobs", str(JOBS), "--budget", str(left)]
            if tier == "thorough":
                cmd.append("--thorough")
            r = subprocess.run(cmd + b.get("args", []), env=san_env(), cwd=wd)
            if r.returncode or not os.path.exists(out):
                sys.stderr.write("explorer %s ended with %d\n" % (b["name"], r.returncode))
                raise SystemExit(3)
            j = json.load(open(out))
            for k in cov:
                cov[k] += j[k]
            for s in j["spaces"]:
                s["explorer"] = b["name"]
                spaces.append(s)
            samples += j["samples"]
            trunc |= j["truncated"]
            unrep += j["unreproduced"]
            for v in j["violations"]:
                v["bin"] = b["name"]
                viols.append(v)
            if any(v["key"] not in known for v in viols):
                trunc |= b is not bins[-1]
                break
    finally:
        shutil.rmtree(wd, ignore_errors=True)
    new = [v for v in viols if v["key"] not in known]
    old = [v for v in viols if v["key"] in known]
    rd = os.path.join(HERE, "replay")
    for k in sorted({v["key"] for v in old}):
        print("KNOWN-FINDING: property=%s %s" % (prop, known[k]))
    for i, v in enumerate(new[:8]):
        os.makedirs(rd, exist_ok=True)
        f = os.path.join(rd, "%s-%d.txt" % (prop, i))
        open(f, "w").write("%s\n%s\n%s\n# %s\n# %s\n# re-run: python3 run.py %s --replay %s\n" %
                           (v["bin"], v["space"], v["case"], v["key"], v["msg"].replace("\n", " | "), prop, f))
        print("VIOLATION property=%s replay=%s" % (prop, f))
        print("  [%s] case: %s" % (v["space"], v["case"][:400]))
        print("  %s" % v["msg"][:1500])
    level = chk.get("level", "model_checking")
    coverage = dict(exhaustive=not trunc, explorers=spaces, cases=cov["cases"], samples=samples[:40], source_tree=th,
                    cases_outside_stated_bounds=cov["skipped"], violations_not_reproduced=unrep,
                    known_findings=len(old), bounds=chk["bounds"][tier] if isinstance(chk.get("bounds"), dict) else chk.get("bounds", ""))
    if level == "model_checking":
        coverage.update(states=cov["states"], transitions=cov["transitions"], traces_validated_against_impl=cov["traces"])
    else:
        coverage.update(evaluations=cov["evals"], distinct_nontrivial=cov["nontrivial"], rule=chk["rule"])
    ev = dict(property=prop, tier=tier, seed=SEED, level=level, coverage=coverage,
              assumptions=chk.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(new))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    print("%s %s: %d cases, %d states, %d transitions, %d executions compared, %d violation(s), %.1f s%s" %
          (prop, tier, cov["cases"], cov["states"], cov["transitions"], cov["traces"], len(new), time.time() - t0,
           (" (stopped at a violation)" if new else " (time budget reached)") if trunc else ""))
    raise SystemExit(1 if new else 0)


if __name__ == "__main__":
    main()
