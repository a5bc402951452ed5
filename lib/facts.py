"""Loads the facts of /repo's current tree: builds the extractor when needed, runs it on every translation unit whose
inputs changed since the cached run (the key is the content of every file of /repo the unit includes, the flags and the
extractor's own source), and merges the units into one program."""
import concurrent.futures, glob, hashlib, json, os, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CACHE = os.path.join(VERIF, ".cache")
EXTRACT = os.path.join(CACHE, "extract")

INC = ["src", "src/features/keypoints", "src/features/lines", "src/features/primitives", "src/pose_optimization",
       "src/map_management", "third_party", "src/tracking", "src/outputs", "src/utils", "examples"]
INSTANTIATE = os.path.join(VERIF, "stubs", "instantiate.cpp")
EXCLUDE = {"third_party/p3p_test.cpp"}


class AnalysisError(Exception):
    """The analysis could not be carried out (neither holds nor violated)."""


def base_flags(defines=()):
    f = ["-std=c++20", "-w", "-frelaxed-template-template-args", "-ferror-limit=0",
         "-resource-dir", "/usr/lib/llvm-18/lib/clang/18", "-I" + os.path.join(VERIF, "stubs")]
    f += ["-I" + os.path.join(REPO, i) for i in INC]
    for d in ("/usr/include/opencv4", "/usr/include/eigen3", "/usr/include/flann"):
        f += ["-isystem", d]
    f += ["-D" + d for d in defines]
    return f


def sha(b):
    return hashlib.sha256(b).hexdigest()


def build_extractor():
    os.makedirs(CACHE, exist_ok=True)
    src = os.path.join(VERIF, "extractor", "extract.cpp")
    key = sha(open(src, "rb").read())
    stamp = EXTRACT + ".key"
    if os.path.exists(EXTRACT) and os.path.exists(stamp) and open(stamp).read() == key:
        return key
    lib = None
    for c in ("/usr/lib/llvm-18/lib/libclang-cpp.so.18.1", "/usr/lib/x86_64-linux-gnu/libclang-cpp.so.18.1"):
        if os.path.exists(c):
            lib = c
            break
    if not lib:
        raise AnalysisError("libclang-cpp 18 is not installed")
    tmp = EXTRACT + ".%d" % os.getpid()
    cmd = ["g++", "-std=c++17", "-O1", "-fno-rtti", "-w", "-I/usr/lib/llvm-18/include", "-D_GNU_SOURCE",
           "-D__STDC_CONSTANT_MACROS", "-D__STDC_LIMIT_MACROS", src, "-o", tmp, lib, "-L/usr/lib/llvm-18/lib",
           "-lLLVM-18"]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise AnalysisError("the extractor does not build:\n" + r.stderr[-3000:])
    os.replace(tmp, EXTRACT)
    open(stamp, "w").write(key)
    return key


def units():
    us = []
    for d in ("src", "third_party", "examples"):
        for root, _, fs in os.walk(os.path.join(REPO, d)):
            for f in fs:
                if f.endswith((".cpp", ".cc", ".cxx")):
                    rel = os.path.relpath(os.path.join(root, f), REPO)
                    if rel not in EXCLUDE:
                        us.append(rel)
    return sorted(us) + [INSTANTIATE]


def tree_listing():
    out = []
    for d in ("src", "third_party", "examples"):
        for root, _, fs in os.walk(os.path.join(REPO, d)):
            out += [os.path.relpath(os.path.join(root, f), REPO) for f in fs]
    return sorted(out)


_h = {}


def fhash(rel):
    if rel not in _h:
        try:
            _h[rel] = sha(open(os.path.join(REPO, rel), "rb").read())
        except OSError:
            _h[rel] = "gone"
    return _h[rel]


def extract_unit(rel, flags, ekey, listing):
    """returns (path of the facts, reused, diagnostics); the cache is keyed by the contents of all files involved"""
    ff = [f.replace(REPO, "@") for f in flags]
    key = sha(("\0".join([rel, ekey, listing] + ff)).encode())[:20]
    base = os.path.join(CACHE, "u_" + key)
    lists = base + ".deps"

    def content(deps):
        return sha("\0".join("%s=%s" % (d, fhash(d)) for d in sorted(deps)).encode())[:20]

    seen = []
    try:
        seen = json.load(open(lists))
    except (OSError, ValueError):
        pass
    for deps in seen:
        p = base + "_" + content(deps)
        if os.path.exists(p + ".json") and os.path.exists(p + ".meta"):
            try:
                return p + ".json", True, json.load(open(p + ".meta"))["diag"]
            except (OSError, ValueError, KeyError):
                pass
    tmp = base + ".%d" % os.getpid()
    r = subprocess.run([EXTRACT, REPO, os.path.join(REPO, rel), tmp, "--"] + flags, capture_output=True, text=True)
    if not os.path.exists(tmp):
        raise AnalysisError("no facts for %s: %s" % (rel, r.stderr[-2000:]))
    d = json.load(open(tmp))
    deps = sorted(set(d["deps"]) | {rel})
    p = base + "_" + content(deps)
    os.replace(tmp, p + ".json")
    diag = r.stderr[-2000:] if d["errors"] else ""
    json.dump({"diag": diag}, open(p + ".meta", "w"))
    if deps not in seen:
        seen.append(deps)
        t = lists + ".%d" % os.getpid()
        json.dump(seen[-8:], open(t, "w"))
        os.replace(t, lists)
    return p + ".json", False, diag


class Fn:
    __slots__ = ("id", "qn", "n", "file", "l", "el", "kind", "cls", "ret", "params", "inits", "body", "raw", "tu")

    def __repr__(self):
        return "<Fn %s %s:%d>" % (self.qn, self.file, self.l)

    @property
    def short(self):
        return short(self.qn)

    def flag(self, k):
        return self.raw.get(k)


def short(qn):
    return qn.replace("rgbd_slam::", "")


class Program:
    def __init__(self):
        self.fns = {}          # id -> Fn
        self.records = {}      # qn -> record (first wins), with templates: qn includes args
        self.enums = {}
        self.globals = {}
        self.sasserts = []
        self.units = []
        self.reused = 0
        self.diags = {}
        self.nodes = 0
        self._byname = None

    # ---- queries
    def by_name(self, name):
        if self._byname is None:
            self._byname = {}
            for f in self.fns.values():
                self._byname.setdefault(f.n, []).append(f)
        return self._byname.get(name, [])

    def find(self, qn_suffix):
        """functions whose qualified name, template arguments stripped, ends with the given suffix"""
        n = qn_suffix.split("::")[-1]
        return [f for f in self.by_name(n) if match_qn(f.qn, qn_suffix)]

    def record(self, suffix):
        r = [x for x in self.records.values() if match_qn(x["qn"], suffix)]
        return r

    def src(self, prefix="src/"):
        return [f for f in self.fns.values() if f.file.startswith(prefix)]


def strip_targs(s):
    out, d = [], 0
    for i, ch in enumerate(s):
        if ch == "<" and not s.startswith("operator<", max(0, i - 8)):
            d += 1
        elif ch == ">" and d:
            d -= 1
        elif not d:
            out.append(ch)
    return "".join(out)


_sq = {}


def match_qn(qn, suffix):
    s = _sq.get(qn)
    if s is None:
        s = _sq[qn] = strip_targs(qn)
    return s == suffix or s.endswith("::" + suffix)


OF_CONTAINER = {"std::" + n for n in ("begin", "end", "cbegin", "cend", "rbegin", "rend", "size", "empty", "data")}


def globalise(o, tu, types):
    """decl ids become unique over units; type indices become strings (iterative walk)"""
    stack = [o]
    while stack:
        x = stack.pop()
        if isinstance(x, list):
            stack.extend(x)
        elif isinstance(x, dict):
            if "d" in x and isinstance(x["d"], int):
                x["d"] = tu * 1000000 + x["d"]
            t = x.get("t")
            if isinstance(t, int):
                x["t"] = types[t] if t >= 0 else ""
            if x.get("k") == "call" and x.get("qn") in OF_CONTAINER and len(x.get("a") or ()) == 1 and "obj" not in x and \
                    str((x.get("ta") or [""])[0]).startswith("std::"):
                # std::begin(c) is c.begin()
                x["obj"], x["a"], x["pp"] = x["a"][0], [], ""
                x["qn"] = x["ta"][0] + "::" + x["qn"].split("::")[-1]
            for k, v in x.items():
                if isinstance(v, (dict, list)):
                    stack.append(v)


def load(defines=(), only=None, quiet=False):
    t0 = time.time()
    ekey = build_extractor()
    flags = base_flags(defines)
    listing = sha("\n".join(tree_listing()).encode())
    # the stubs belong to the key
    for s in sorted(glob.glob(os.path.join(VERIF, "stubs", "**", "*.*pp"), recursive=True)):
        listing += sha(open(s, "rb").read())[:8]
    us = [u for u in units() if only is None or only(u)]
    if not us:
        raise AnalysisError("no translation units found below %s" % REPO)
    # biggest first for balance
    us.sort(key=lambda u: -os.path.getsize(os.path.join(REPO, u)))
    P = Program()
    res = {}
    with concurrent.futures.ThreadPoolExecutor(max_workers=min(8, os.cpu_count() or 4)) as ex:
        futs = {ex.submit(extract_unit, u, flags, ekey, listing): u for u in us}
        for f in concurrent.futures.as_completed(futs):
            res[futs[f]] = f.result()
    P.units = sorted(us)
    for tu, u in enumerate(sorted(us)):
        path, reused, diag = res[u]
        P.reused += reused
        if diag:
            P.diags[u] = diag
        d = json.load(open(path))
        types, files = d["types"], d["files"]
        P.nodes += d["nodes"]
        for fo in d["functions"]:
            fid = fo["id"]
            if "lambda@" in fid:
                fid = fix_lambda(fid, files)
                fo["id"] = fid
            # internal linkage names may repeat over units
            if fid in P.fns:
                if not fo.get("internal") or P.fns[fid].file == files[fo["file"]]:
                    continue
            f = Fn()
            f.id, f.qn, f.n = fid, fo["qn"], fo["n"]
            f.file = files[fo["file"]]
            f.l, f.el, f.kind = fo["l"], fo["el"], fo["kind"]
            f.cls = fo.get("cls")
            f.ret = types[fo["ret"]] if fo["ret"] >= 0 else ""
            globalise(fo["params"], tu, types)
            f.params = fo["params"]
            f.inits = fo.get("inits", [])
            for i in f.inits:
                if "base" in i:
                    i["base"] = types[i["base"]]
            globalise(f.inits, tu, types)
            globalise(fo["body"], tu, types)
            f.body = fo["body"]
            if "clst" in fo:
                fo["clst"] = types[fo["clst"]]
            if "outer" in fo and "lambda@" in fo["outer"]:
                fo["outer"] = fix_lambda(fo["outer"], files)
            fix_ids(f.body, files)
            fix_ids(f.inits, files)
            f.raw, f.tu = fo, u
            P.fns[fid] = f
        for r in d["records"]:
            k = r["qn"] + r.get("ta", "") if not r["qn"].endswith(">") else r["qn"]
            if k in P.records:
                continue
            r["file"] = files[r["file"]]
            r["bases"] = [types[b] for b in r["bases"]]
            r["t"] = types[r["t"]]
            for x in r["fields"] + r["statics"]:
                x["t"] = types[x["t"]]
            P.records[k] = r
        for e in d["enums"]:
            P.enums[e["qn"]] = e
        for g in d["globals"]:
            if g["qn"] in P.globals:
                continue
            g["file"] = files[g["file"]]
            globalise([g], tu, types)
            P.globals[g["qn"]] = g
        for s in d["sasserts"]:
            s["file"] = files[s["file"]]
            key = (s["file"], s["l"])
            if key in {(x["file"], x["l"]) for x in P.sasserts}:
                continue
            globalise([s["c"]], tu, types)
            P.sasserts.append(s)
    P.load_s = time.time() - t0
    return P


import re

_lam = re.compile(r"lambda@(\d+):")


def fix_lambda(fid, files):
    return _lam.sub(lambda m: "lambda@%s:" % files[int(m.group(1))], fid)


def fix_ids(o, files):
    stack = [o]
    while stack:
        x = stack.pop()
        if isinstance(x, list):
            stack.extend(x)
        elif isinstance(x, dict):
            v = x.get("f")
            if isinstance(v, str) and "lambda@" in v:
                x["f"] = fix_lambda(v, files)
            if "fns" in x:
                x["fns"] = [fix_lambda(i, files) for i in x["fns"]]
            for k, v in x.items():
                if isinstance(v, (dict, list)):
                    stack.append(v)


if __name__ == "__main__":
    t = time.time()
    p = load()
    print("%d units (%d reused), %d functions, %d records, %d nodes, %.1f s; diagnostics in %s" % (
        len(p.units), p.reused, len(p.fns), len(p.records), p.nodes, time.time() - t, sorted(p.diags)))
