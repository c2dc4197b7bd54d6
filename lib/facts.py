"""Builds the fact extractor if needed, runs it over every translation unit of
/repo and loads the resulting program (functions, records, enums, globals).

Facts are cached per translation unit under a key made of the extractor's
source, the TU's text and the text of every repository header, so a cached
entry can only be reused for byte-identical input.
"""
import glob, hashlib, json, os, pickle, subprocess, sys, tempfile, shutil, re
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VP_REPO", "/repo")
CLANG = "/usr/lib/llvm-18/bin/clang++"
RES = "/usr/lib/llvm-18/lib/clang/18"


class ToolError(Exception):
    """The analysis could not be carried out (exit 2, never 0 or 1)."""


def cache_dir():
    for d in (os.path.join(VERIF, ".cache"),
              os.path.join(tempfile.gettempdir(), "verif-cache-%d" % os.getuid())):
        try:
            os.makedirs(d, exist_ok=True)
            t = os.path.join(d, ".w%d" % os.getpid())
            open(t, "w").close()
            os.unlink(t)
            return d
        except OSError:
            continue
    raise ToolError("no writable cache directory")


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        h.update(hashlib.sha256(p).digest())
    return h.hexdigest()[:24]


def rd(p):
    with open(p, "rb") as f:
        return f.read()


def tool_path():
    src = os.path.join(VERIF, "tool", "factgen.cpp")
    key = sha(rd(src))
    return os.path.join(cache_dir(), "factgen-" + key), key, src


def build_tool():
    out, key, src = tool_path()
    if os.path.exists(out):
        return out, key
    tmp = out + ".tmp%d" % os.getpid()
    cmd = ["g++", "-O1", "-std=c++17", "-fno-rtti", "-w",
           "-I/usr/lib/llvm-18/include", "-D_GNU_SOURCE",
           "-D__STDC_CONSTANT_MACROS", "-D__STDC_FORMAT_MACROS",
           "-D__STDC_LIMIT_MACROS", src, "-o", tmp,
           "/usr/lib/llvm-18/lib/libclang-cpp.so.18.1",
           "/usr/lib/llvm-18/lib/libLLVM-18.so"]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise ToolError("extractor does not build:\n" + r.stderr[-3000:])
    os.rename(tmp, out)
    return out, key


def gen_proto(cd):
    protos = sorted(glob.glob(os.path.join(REPO, "authproto", "*.proto")))
    if not protos:
        raise ToolError("no authproto/*.proto in the repository")
    key = sha(*[rd(p) for p in protos])
    d = os.path.join(cd, "proto-" + key)
    if not os.path.isdir(d):
        t = tempfile.mkdtemp(dir=cd)
        r = subprocess.run(["protoc", "-I" + os.path.join(REPO, "authproto"),
                            "--cpp_out=" + t] + protos, capture_output=True, text=True)
        if r.returncode:
            raise ToolError("protoc failed: " + r.stderr[-2000:])
        try:
            os.rename(t, d)
        except OSError:
            shutil.rmtree(t, ignore_errors=True)
    return d, key


def flags(proto):
    return ["-std=c++17", "-DNDEBUG", "-w", "-I" + os.path.join(REPO, "libamqpprox"),
            "-I" + proto, "-resource-dir", RES]


def gen_pch(cd, sources, proto, pkey):
    """Precompiled header of the third-party headers the sources include."""
    incs = set()
    for s in sources:
        for m in re.finditer(rb"^#include <([^>]+)>", rd(s), re.M):
            n = m.group(1).decode()
            if not n.startswith("amqpprox_"):
                incs.add(n)
    text = "".join("#include <%s>\n" % i for i in sorted(incs))
    key = sha(text, pkey, proto)
    out = os.path.join(cd, "pch-%s.pch" % key)
    if not os.path.exists(out):
        h = os.path.join(cd, "pch-%s.h" % key)
        with open(h, "w") as f:
            f.write(text)
        tmp = out + ".tmp%d" % os.getpid()
        r = subprocess.run([CLANG] + flags(proto) + ["-x", "c++-header", h, "-o", tmp],
                           capture_output=True, text=True)
        if r.returncode:
            return None
        os.rename(tmp, out)
    return out


def sources():
    s = sorted(glob.glob(os.path.join(REPO, "libamqpprox", "*.cpp")))
    s += sorted(glob.glob(os.path.join(REPO, "amqpprox", "*.cpp")))
    return s


def headers():
    return sorted(glob.glob(os.path.join(REPO, "libamqpprox", "*.h")) +
                  glob.glob(os.path.join(REPO, "amqpprox", "*.h")))


def extract(only=None):
    cd = cache_dir()
    proto, pkey = gen_proto(cd)
    hs = headers()
    srcs = sources()
    pool = ThreadPoolExecutor(max_workers=1)
    early = None
    if not os.path.exists(tool_path()[0]):
        # nothing is cached yet: build the precompiled header meanwhile
        early = pool.submit(gen_pch, cd, hs + srcs, proto, pkey)
    tool, tkey = build_tool()
    if early:
        early.result()
    if len(srcs) < 20:
        raise ToolError("only %d sources found under /repo" % len(srcs))
    # files compiled by the build: those listed in CMakeLists, when it lists any
    cm = b"".join(rd(p) for p in glob.glob(os.path.join(REPO, "*", "CMakeLists.txt")))
    srcs = [s for s in srcs if os.path.basename(s).encode() in cm]
    hkey = sha(*[os.path.basename(h).encode() + b"\0" + rd(h) for h in hs])
    base = sha(tkey, pkey, hkey, REPO)
    pch = None
    jobs = []
    outs = []
    for s in srcs:
        o = os.path.join(cd, "tu-%s.json" % sha(base, s, rd(s)))
        outs.append(o)
        if not os.path.exists(o):
            jobs.append((s, o))
    roots = ",".join(os.path.join(REPO, d) + "/" for d in ("libamqpprox", "amqpprox"))
    if jobs:
        pch = gen_pch(cd, hs + srcs, proto, pkey) if len(jobs) > 3 else None

        def run(j):
            s, o = j
            tmp = o + ".tmp%d" % os.getpid()
            for inc in ([["-include-pch", pch]] if pch else []) + [[]]:
                r = subprocess.run([tool, tmp, s, roots, "--"] + flags(proto) + inc,
                                   capture_output=True, text=True)
                if r.returncode == 0 and os.path.exists(tmp):
                    os.rename(tmp, o)
                    return None
            return "%s: %s" % (s, r.stderr[-1500:])
        with ThreadPoolExecutor(max_workers=min(8, os.cpu_count() or 4)) as ex:
            errs = [e for e in ex.map(run, jobs) if e]
        if errs:
            raise ToolError("sources do not parse:\n" + "\n".join(errs[:3]))
    return srcs, outs


class Program:
    pass


def load(only=None):
    srcs, outs = extract(only)
    key = sha(*[o for o in outs])
    pk = os.path.join(cache_dir(), "prog-%s.pickle" % sha(key, rd(__file__)))
    if os.path.exists(pk):
        try:
            with open(pk, "rb") as f:
                return pickle.load(f)
        except Exception:
            pass
    P = Program()
    P.tus = [s[len(REPO) + 1:] for s in srcs]
    P.functions, P.records, P.enums, P.globals = {}, {}, {}, {}
    base = 0
    for o in outs:
        with open(o) as f:
            d = json.load(f)
        mx = [0]

        def renum(n):
            # declaration ids are per TU: make them unique in the program
            st = [n]
            while st:
                x = st.pop()
                if isinstance(x, dict):
                    v = x.get("d")
                    if isinstance(v, int):
                        if v > mx[0]:
                            mx[0] = v
                        x["d"] = v + base
                    st.extend(x.values())
                elif isinstance(x, list):
                    st.extend(x)
        for f in d["functions"]:
            if f["id"] in P.functions and not (P.functions[f["id"]].get("b") is None and f.get("b")):
                continue
            renum(f)
            f["file"] = f["file"].replace(REPO + "/", "")
            P.functions[f["id"]] = f
        for r in d["records"]:
            k = r.get("key", r["n"])
            if k not in P.records or ("fields" in r and "fields" not in P.records[k]):
                renum(r)
                if "file" in r:
                    r["file"] = r["file"].replace(REPO + "/", "")
                P.records[k] = r
        for k, v in d["enums"].items():
            P.enums[k] = v
        for g in d["globals"]:
            if g["n"] not in P.globals or ("i" in g and "i" not in P.globals[g["n"]]):
                renum(g)
                P.globals[g["n"]] = g
        base += mx[0] + 1
    tmp = pk + ".tmp%d" % os.getpid()
    with open(tmp, "wb") as f:
        pickle.dump(P, f, protocol=4)
    os.rename(tmp, pk)
    return P


if __name__ == "__main__":
    import time
    t = time.time()
    P = load()
    print(len(P.functions), "functions", len(P.records), "records",
          len(P.enums), "enums", len(P.globals), "globals", "%.1fs" % (time.time() - t))
