"""Extraction of the resolved program from /repo's current working tree and its index."""
import json
import os
import re
import subprocess
import sys
import tempfile
import shutil
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VP_REPO", "/repo")
TOOL = os.path.join(VERIF, "tool", "build", "extract")
FLAGS = ["-std=gnu++17", "-DUSING_SFW", "-I.", "-Iplatform", "-resource-dir", "/usr/lib/llvm-18/lib/clang/18", "-w", "-ferror-limit=5"]


class Broken(Exception):
    """analysis broken: error exit, neither pass nor violation"""


def build_tool():
    src = os.path.join(VERIF, "tool", "extract.cpp")
    if os.path.exists(TOOL) and os.path.getmtime(TOOL) >= os.path.getmtime(src):
        return
    os.makedirs(os.path.dirname(TOOL), exist_ok=True)
    flags = subprocess.run(["llvm-config-18", "--cxxflags"], capture_output=True, text=True).stdout.split()
    r = subprocess.run(["clang++", "-O1", "-std=c++17", *flags, "-fno-rtti", src, "-o", TOOL + ".tmp", "-L/usr/lib/llvm-18/lib", "-l:libclang-cpp.so.18.1", "-lLLVM-18"], capture_output=True, text=True)
    if r.returncode != 0:
        raise Broken("extractor does not build: " + r.stderr[-2000:])
    os.replace(TOOL + ".tmp", TOOL)


def sources():
    """translation units of the library proper, from the build description"""
    s = open(os.path.join(REPO, "SCsub")).read()
    m = re.search(r"sources\s*=\s*\[(.*?)\]", s, re.S)
    l = [x for x in re.findall(r'"([^"]+\.cpp)"', m.group(1)) if x.startswith(("core/", "modules/"))]
    if len(l) < 35:
        raise Broken("SCsub lists %d library sources" % len(l))
    return l


def extract(files, keep, flags=()):
    build_tool()
    tmp = tempfile.mkdtemp(prefix="pmlpp-sa-")

    def one(i_f):
        i, f = i_f
        out = os.path.join(tmp, "%d.json" % i)
        r = subprocess.run([TOOL, REPO, out, keep, os.path.join(REPO, f), "--", *FLAGS, *flags], cwd=REPO, capture_output=True, text=True)
        if r.returncode != 0 or not os.path.exists(out):
            raise Broken("cannot analyse %s: %s" % (f, r.stderr[-1500:]))
        with open(out) as fh:
            d = json.load(fh)
        os.unlink(out)
        return f, d

    try:
        with ThreadPoolExecutor(8) as ex:
            return list(ex.map(one, enumerate(files)))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


class Program:
    def __init__(self, units):
        self.fn = {}       # (qname, sig) -> func
        self.byname = {}   # qname -> [func]
        self.rec = {}
        self.enum = {}
        self.enumval = {}
        self.glob = {}
        self.units = [u for u, _ in units]
        for u, d in units:
            for f in d["functions"]:
                k = (f["f"], f["sig"])
                if k in self.fn:
                    continue
                f["unit"] = u
                self.fn[k] = f
                self.byname.setdefault(f["f"], []).append(f)
            for r in d["records"]:
                self.rec.setdefault(r["n"], r)
            for e in d["enums"]:
                self.enum[e["n"]] = e
                for c in e["c"]:
                    self.enumval[e["n"].rsplit("::", 1)[0] + "::" + c["n"] if "::" in e["n"] else c["n"]] = int(c["v"])
            for g in d["globals"]:
                self.glob.setdefault(g["n"], g)

    def get(self, qname, nargs=None, sig=None):
        c = self.byname.get(qname, [])
        if sig is not None:
            c = [f for f in c if f["sig"] == sig]
        if nargs is not None:
            c = [f for f in c if len(f["ps"]) == nargs]
        return c

    def loc(self, f, line=None):
        return "%s:%d" % (f["file"], line or f["l"])


_cache = {}


def library():
    if "lib" not in _cache:
        _cache["lib"] = Program(extract(sources(), "core/,modules/"))
    return _cache["lib"]


def bindings():
    """the library once more, with the registrations of classes kept in the tree"""
    if "bind" not in _cache:
        h = os.path.join(VERIF, "tool", "bindings.h")
        _cache["bind"] = Program(extract(sources(), "core/,modules/", ["-DSFW_COMPAT_H", "-include", h]))
    return _cache["bind"]


def platform(image=False):
    k = "plat"
    if k not in _cache:
        _cache[k] = Program(extract(["platform/sfw.cpp", "platform/image.cpp"], "platform/"))
    return _cache[k]


def everything():
    if "all" not in _cache:
        u = extract(sources(), "core/,modules/") + extract(["platform/sfw.cpp", "platform/image.cpp"], "platform/")
        _cache["all"] = Program(u)
    return _cache["all"]


# ------------------------------------------------------------------ AST walking helpers
def walk(n):
    """all nodes (dicts with 'k') in evaluation-ish order"""
    st = [n]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            if "k" in x:
                yield x
            for v in reversed(list(x.values())):
                if isinstance(v, (dict, list)):
                    st.append(v)
        elif isinstance(x, list):
            st.extend(reversed(x))


def is_error_report(n):
    """a call that reports a rejected operation"""
    return n.get("k") in ("call", "mcall") and (n.get("f", "").startswith("RLogger::log_error") or n.get("f", "").startswith("_err_print_error") or n.get("f", "").startswith("RLogger::log_index_error"))
