"""Compile /repo sources and contract harnesses to LLVM IR (for the verifier) or
to native code (for replaying counterexamples)."""
import os, re, subprocess, hashlib, sys
from concurrent.futures import ThreadPoolExecutor
from . import models

REPO = os.environ.get("VP_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
CLANG = "/usr/bin/clang++-18"
OPT = "/usr/bin/opt-18"
SRC = REPO + "/source"


def find_tool(cands):
    for c in cands:
        if os.path.exists(c):
            return c
    return cands[-1]


CLANG = find_tool(["/usr/bin/clang++-18", "/usr/lib/llvm-18/bin/clang++", "clang++"])
OPT = find_tool(["/usr/bin/opt-18", "/usr/lib/llvm-18/bin/opt", "opt"])


def version_defs():
    txt = open(REPO + "/CMakeLists.txt").read()
    out = []
    for k in ("MAJOR", "MINOR", "PATCH"):
        m = re.search(r"set\s*\(\s*MOORDYN_%s_VERSION\s+(\d+)" % k, txt)
        out.append("-DMOORDYN_%s_VERSION=%s" % (k, m.group(1) if m else "0"))
    return out


def base_flags():
    return ["-std=c++17", "-ffp-contract=off", "-fno-access-control", "-DEIGEN_DONT_VECTORIZE", "-DEIGEN_NO_DEBUG", "-DNDEBUG",
            "-DMoorDyn_EXPORTS", "-I" + SRC, "-I" + VERIF + "/contracts", "-w"] + version_defs()


def run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise RuntimeError("command failed: %s\n%s" % (" ".join(cmd), p.stdout[-6000:]))
    return p.stdout


class BuildError(RuntimeError):
    pass


def ir_one(src, out, noinline, defs=()):
    raw = out + ".raw.ll"
    run([CLANG] + base_flags() + ["-O1", "-Xclang", "-disable-llvm-passes", "-gline-tables-only", "-fno-math-errno", "-DVP_ENGINE=1"] + list(defs) +
        ["-S", "-emit-llvm", "-o", raw, src])
    names = []
    pat = re.compile(r'^define .*?@("(?:[^"\\]|\\.)*"|[-\w$.]+)\(', re.M)
    with open(raw) as f:
        for L in f:
            if L.startswith("define"):
                m = pat.match(L)
                n = m.group(1).strip('"')
                if models.is_text(n) or models.GROW.match(n) or n in models.TABLE or n in noinline or n.startswith("vp_"):
                    names.append(n)
    csv = out + ".csv"
    with open(csv, "w") as f:
        for n in names:
            f.write("%s,noinline\n" % n)
    run([OPT, "-passes=forceattrs,cgscc(inline,function(sroa,early-cse,simplifycfg))", "-forceattrs-csv-path=" + csv, "-inline-threshold=200",
         "-two-entry-phi-node-folding-threshold=0", "-phi-node-folding-threshold=0", "-speculate-one-expensive-inst=0",
         "-S", "-o", out, raw])
    os.unlink(raw)
    return out


def build_ir(work, tus, contract, noinline=(), defs=()):
    """returns list of .ll paths: contract first"""
    os.makedirs(work, exist_ok=True)
    jobs = [(VERIF + "/contracts/" + contract, work + "/contract.ll")]
    for t in tus:
        jobs.append((SRC + "/" + t, work + "/" + t.replace("/", "_") + ".ll"))
    with ThreadPoolExecutor(8) as ex:
        return list(ex.map(lambda j: ir_one(j[0], j[1], set(noinline), defs), jobs))


NATIVE_ALL = ["Body.cpp", "IO.cpp", "Line.cpp", "Log.cpp", "Misc.cpp", "MoorDyn.cpp", "MoorDyn2.cpp", "Point.cpp", "Rod.cpp", "Seafloor.cpp",
              "State.cpp", "Time.cpp", "Waves.cpp", "kiss_fft.cpp", "kiss_fftr.cpp", "Util/VTK_Util.cpp"]


def native_sources():
    out = []
    for d, _, fs in os.walk(SRC):
        if "/Eigen" in d:
            continue
        for f in fs:
            if f.endswith((".cpp", ".c")):
                out.append(os.path.relpath(os.path.join(d, f), SRC))
    return sorted(out)


def native_lib(work, opt="-O1"):
    """compile all repo sources natively into objects"""
    os.makedirs(work, exist_ok=True)
    objs = []

    def one(t):
        o = work + "/n_" + t.replace("/", "_") + ".o"
        run([CLANG] + base_flags() + [opt, "-c", "-o", o, SRC + "/" + t] + (["-fno-inline"] if t == "Time.cpp" else []))
        return o
    with ThreadPoolExecutor(8) as ex:
        return list(ex.map(one, native_sources()))


def native_exe(work, objs, contract, defs=(), wrap=None):
    """wrap: functions of the repository whose callers in other files reach the contract's stub instead"""
    exe = work + "/replay_" + contract.replace(".cc", "")
    objs = list(objs)
    for a, b in sorted((wrap or {}).items()):
        objs += ["-Wl,--wrap=" + a, "-Wl,--defsym=__wrap_%s=%s" % (a, b)]
    run([CLANG] + base_flags() + ["-O1"] + list(defs) + ["-o", exe, VERIF + "/contracts/" + contract, VERIF + "/contracts/vp_native.cc"] + objs + ["-lstdc++fs", "-ldl", "-lpthread"])
    return exe
