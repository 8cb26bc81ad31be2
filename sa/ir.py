"""Loads the resolved IR of /repo's current working tree (see tool/ovsa.cpp).

The compile commands come from the project's own CMake files (configured into a scratch directory), the IR of
one translation unit is cached by the content of every /repo file it read, so an unchanged unit is not parsed again.
"""
import concurrent.futures as cf
import hashlib, json, os, shutil, subprocess, sys, tempfile, time, glob, re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("OVSA_REPO", "/repo")
BUILD = os.environ.get("OVSA_BUILD") or os.path.join(HERE, "build")
TOOL = os.path.join(BUILD, "ovsa")
CACHE = os.path.join(BUILD, "ir")
PKGS = ("ov_core", "ov_init", "ov_msckf", "ov_eval")
LLVM = "/usr/lib/llvm-18"
WARN = ["-Wno-everything", "-Wformat", "-Wuninitialized", "-Wsometimes-uninitialized", "-Wself-assign", "-Wself-assign-field",
        "-Wtautological-compare", "-Wreturn-type", "-Wdangling", "-Wreturn-stack-address", "-Wreorder-ctor", "-Wparentheses",
        "-Wunused-value", "-Wfor-loop-analysis", "-Wint-in-bool-context", "-Wswitch", "-Wunsequenced", "-Wshift-count-overflow",
        "-Wsizeof-pointer-memaccess", "-Winfinite-recursion", "-Wunused-comparison", "-Wdelete-incomplete", "-Wdivision-by-zero", "-Wuse-after-move" , "-Wunused-but-set-variable", "-Wshadow", "-Wstring-plus-int", "-Wtautological-unsigned-zero-compare", "-Wconditional-uninitialized", "-Wunreachable-code"]


class AnalysisBroken(Exception):
    """The machinery cannot give an answer (never a pass, never a violation)."""


def build_tool():
    src = os.path.join(HERE, "tool", "ovsa.cpp")
    os.makedirs(BUILD, exist_ok=True)
    stamp = os.path.join(BUILD, "ovsa.sha")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()
    if os.path.exists(TOOL) and os.path.exists(stamp) and open(stamp).read() == h:
        return
    flags = subprocess.check_output([LLVM + "/bin/llvm-config", "--cxxflags"], text=True).split()
    flags = [f for f in flags if not f.startswith("-std")]
    cmd = ["clang++", "-O1", "-std=c++17", "-fno-rtti", "-w", src, "-o", TOOL + ".tmp"] + flags + [
        LLVM + "/lib/libclang-cpp.so.18.1", "-L" + LLVM + "/lib", "-lLLVM-18"]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise AnalysisBroken("cannot build the extractor: " + r.stderr[-2000:])
    os.replace(TOOL + ".tmp", TOOL)
    open(stamp, "w").write(h)


def _configure(args):
    p, d = args
    cmd = ["cmake", "-S", f"{REPO}/{p}", "-B", d, "-G", "Ninja", "-DENABLE_ROS=OFF", "-DCMAKE_BUILD_TYPE=None",
           "-DCMAKE_CXX_FLAGS=-I/usr/include/opencv4", "-DCMAKE_EXPORT_COMPILE_COMMANDS=ON"]
    env = dict(os.environ, CC="/usr/bin/gcc", CXX="/usr/bin/g++", LANG="C.UTF-8")
    r = subprocess.run(cmd, capture_output=True, text=True, env=env)
    f = os.path.join(d, "compile_commands.json")
    if r.returncode or not os.path.exists(f):
        raise AnalysisBroken(f"cmake configure of {p} failed: {r.stdout[-500:]}{r.stderr[-1500:]}")
    return p, json.load(open(f))


def compile_units():
    """{source file: flags} for every unit of the four packages, from their own build files."""
    tmp = tempfile.mkdtemp(prefix="ovsa-db-")
    try:
        with cf.ThreadPoolExecutor(4) as ex:
            dbs = dict(ex.map(_configure, [(p, os.path.join(tmp, p)) for p in PKGS]))
        units = {}
        for p in PKGS:
            for e in dbs[p]:
                f = os.path.realpath(e["file"])
                if f in units or not f.startswith(REPO + "/"):
                    continue
                toks = e["command"].split()
                flags, i = [], 0
                while i < len(toks):
                    t = toks[i]
                    if t == "-isystem":
                        if "tmp" not in toks[i + 1].split("/")[1:2]:
                            flags += [t, toks[i + 1]]
                        i += 1
                    elif t.startswith(("-I", "-D", "-std=")) and tmp not in t:
                        flags.append(t)
                    i += 1
                units[f] = flags
        return units
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def _sha(path, memo={}):
    try:
        st = os.stat(path)
        k = (path, st.st_mtime_ns, st.st_size)
        if k not in memo:
            memo[k] = hashlib.sha256(open(path, "rb").read()).hexdigest()
        return memo[k]
    except OSError:
        return "missing"


def _extract(job):
    src, flags, toolsha = job
    base = hashlib.sha256((toolsha + "|" + REPO + "|" + src + "|" + " ".join(flags)).encode()).hexdigest()[:24]
    meta, out = os.path.join(CACHE, base + ".meta"), os.path.join(CACHE, base + ".jsonl")
    if os.path.exists(meta) and os.path.exists(out):
        m = json.load(open(meta))
        if all(_sha(f) == h for f, h in m["files"].items()):
            return src, out, True
    tmp = out + f".{os.getpid()}.tmp"
    cmd = [TOOL, REPO, tmp, src, "--", "-resource-dir", LLVM + "/lib/clang/18"] + flags + WARN + ["-ferror-limit=5"]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode or not os.path.exists(tmp):
        raise AnalysisBroken(f"extraction of {src} failed (rc {r.returncode}): {r.stderr[-1500:]}")
    last = None
    with open(tmp) as fh:
        for line in fh:
            last = line
    fl = json.loads(last)
    if fl.get("rec") != "files" or fl.get("errors"):
        raise AnalysisBroken(f"{src} did not parse cleanly: {r.stderr[-1500:]}")
    json.dump({"files": {f: _sha(f) for f in fl["tab"]}}, open(meta + ".tmp", "w"))
    os.replace(tmp, out)
    os.replace(meta + ".tmp", meta)
    return src, out, False


class Program:
    def __init__(self):
        self.fns, self.classes, self.enums, self.gvars = {}, {}, {}, {}
        self.units, self.parsed, self.files = [], 0, set()
        self.by_name = {}
        self.diags = {}

    def fn(self, name, nparams=None):
        """the unique definition with this qualified name (suffix match on '::' boundaries)"""
        c = self.find(name, nparams)
        if len(c) != 1:
            raise AnalysisBroken(f"anchor {name}: {len(c)} definitions")
        return c[0]

    def find(self, name, nparams=None):
        c = self.by_name.get(name)
        if c is None:
            c = [f for n, fs in self.by_name.items() if n.endswith("::" + name) for f in fs]
        if nparams is not None:
            c = [f for f in c if len(f["ps"]) == nparams]
        return c


def _resolve(o, tab):
    """replace type indices by strings, in place"""
    if isinstance(o, dict):
        for k, v in o.items():
            if k in ("t", "rt", "ct", "ot"):
                if isinstance(v, int):
                    o[k] = tab[v] if v >= 0 else "?"
            elif isinstance(v, (dict, list)):
                _resolve(v, tab)
    elif isinstance(o, list):
        for v in o:
            if isinstance(v, (dict, list)):
                _resolve(v, tab)


def load(verbose=False, extra_units=None):
    build_tool()
    os.makedirs(CACHE, exist_ok=True)
    units = compile_units()
    if len(units) < 45:
        raise AnalysisBroken(f"only {len(units)} translation units found")
    toolsha = open(os.path.join(BUILD, "ovsa.sha")).read()
    jobs = [(s, fl, toolsha) for s, fl in sorted(units.items())]
    jobs.sort(key=lambda j: -os.path.getsize(j[0]))
    P = Program()
    with cf.ThreadPoolExecutor(8) as ex:
        outs = list(ex.map(_extract, jobs))
    # drop stale cache entries
    keep = {os.path.basename(o)[:-6] for _, o, _ in outs}
    for f in os.listdir(CACHE):
        if f.split(".")[0] not in keep:
            try:
                os.unlink(os.path.join(CACHE, f))
            except OSError:
                pass
    for src, out, cached in sorted(outs):
        P.units.append(src)
        P.parsed += not cached
        lines = open(out).read().splitlines()
        tab = json.loads(lines[-2])["tab"]
        last = json.loads(lines[-1])
        P.files.update(last["tab"])
        for d in last.get("diags", ()):
            P.diags[(d["f"], d["l"], d["g"], d["m"])] = src
        for ln in lines[:-2]:
            # cheap key peek to avoid parsing duplicates
            m = _KEY.match(ln) if False else None
            o = json.loads(ln)
            r = o["rec"]
            if r == "fn":
                k = o["key"]
                if o["n"] == "main":
                    k = o["key"] = "main@" + o["file"]
                if k in P.fns and P.fns[k]["file"] == o["file"]:
                    continue
                if k in P.fns:
                    k = o["key"] = k + "@" + o["file"]
                _resolve(o, tab)
                o["tu"] = src
                P.fns[k] = o
            elif r == "class":
                if o["n"] not in P.classes:
                    _resolve(o, tab)
                    P.classes[o["n"]] = o
            elif r == "enum":
                P.enums[o["n"]] = o
            elif r == "gvar":
                if o["n"] not in P.gvars:
                    _resolve(o, tab)
                    P.gvars[o["n"]] = o
    for f in P.fns.values():
        P.by_name.setdefault(f["n"], []).append(f)
    if len(P.fns) < 400:
        raise AnalysisBroken(f"only {len(P.fns)} functions extracted")
    return P


def rel(f):
    return f[len(REPO) + 1:] if f.startswith(REPO + "/") else f


def walk(o):
    """all nodes (dicts with 'k') of a tree, pre-order, lambda bodies included"""
    st = [o]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            if "k" in x:
                yield x
            st.extend(reversed([v for v in x.values() if isinstance(v, (dict, list))]))
        elif isinstance(x, list):
            st.extend(reversed(x))
