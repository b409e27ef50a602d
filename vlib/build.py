"""Compile /repo's current sources to LLVM bitcode (never executed) and export
the functions under analysis as JSON through tools/irx."""
import hashlib, json, os, shutil, subprocess, sys, tempfile, atexit
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
LLVM = "/usr/lib/llvm-18"
BIN = os.path.join(VERIF, "_bin")

_tmp = None


def tmpdir():
    global _tmp
    if _tmp is None:
        _tmp = tempfile.mkdtemp(prefix="verif_")
        atexit.register(shutil.rmtree, _tmp, ignore_errors=True)
    return _tmp


class ToolError(Exception):
    pass


def run(cmd, **kw):
    kw.setdefault('timeout', 600)
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


def ensure_tools():
    """Build the two exporters if they are missing or stale."""
    os.makedirs(BIN, exist_ok=True)
    out = {}
    jobs = [("irx", ["-lLLVM-18"]), ("astx", ["-l:libclang-cpp.so.18.1", "-lLLVM-18"])]
    for name, libs in jobs:
        src = os.path.join(VERIF, "tools", name + ".cpp")
        exe = os.path.join(BIN, name)
        out[name] = exe
        if not os.path.exists(src):
            continue
        tag = hashlib.sha256(open(src, "rb").read()).hexdigest()
        tf = exe + ".tag"
        if os.path.exists(exe) and os.path.exists(tf) and open(tf).read() == tag:
            continue
        r = run(["g++", "-std=c++17", "-O1", "-w", "-fno-rtti", "-I" + LLVM + "/include", src, "-o", exe + ".new%d" % os.getpid(),
                 "-L" + LLVM + "/lib"] + libs)
        if r.returncode:
            raise ToolError("cannot build %s: %s" % (name, r.stderr[-2000:]))
        os.replace(exe + ".new%d" % os.getpid(), exe)
        open(tf, "w").write(tag)
    return out


def include_for(path):
    if path.startswith("var/icgem/"):
        return ["-I" + REPO + "/var/icgem/src"]
    if path.startswith("var/ode_solvers/"):
        return ["-I" + REPO + "/var/ode_solvers"]
    return ["-I" + REPO + "/src"]


BASE = ["-std=c++17", "-w", "-isystem", os.path.join(VERIF, "stubs"), "-DEIGEN_DONT_VECTORIZE", "-DNEW_EOP",
        "-ffp-contract=off", "-fno-builtin-fprintf", "-fno-builtin-printf", "-fno-builtin-fputs"]


def compile_bc(src, defs=(), inc=None, opt="-O2", tag=""):
    """src: path relative to REPO, or absolute (driver). Returns bc path or raises."""
    absolute = os.path.isabs(src)
    path = src if absolute else os.path.join(REPO, src)
    out = os.path.join(tmpdir(), hashlib.md5((src + "|" + " ".join(defs) + "|" + opt + tag).encode()).hexdigest()[:10] + "_" + os.path.basename(src) + ".bc")
    if os.path.exists(out):
        return out
    incs = inc if inc is not None else include_for(src)
    cmd = [LLVM + "/bin/clang++"] + BASE + list(incs) + list(defs) + \
        [opt, "-Xclang", "-disable-llvm-passes", "-g", "-fno-discard-value-names", "-emit-llvm", "-c", path, "-o", out]
    r = run(cmd, cwd=REPO)
    if r.returncode:
        raise ToolError("cannot compile %s:\n%s" % (src, r.stderr[-3000:]))
    return out


def compiles(src, defs, inc):
    try:
        compile_bc(src, defs=tuple(defs), inc=inc)
        return True
    except ToolError:
        return False


def compile_all(srcs, **kw):
    with ThreadPoolExecutor(8) as ex:
        return list(ex.map(lambda s: compile_bc(s, **kw), srcs))


def link(bcs):
    if len(bcs) == 1:
        return bcs[0]
    out = os.path.join(tmpdir(), hashlib.md5("|".join(bcs).encode()).hexdigest()[:10] + "_linked.bc")
    if not os.path.exists(out):
        r = run([LLVM + "/bin/llvm-link"] + list(bcs) + ["-o", out])
        if r.returncode:
            raise ToolError("link: " + r.stderr[-2000:])
    return out


_IC = "instcombine<no-verify-fixpoint>"
# value-preserving lowering pipelines; every repository helper is inlined first
RAW = "always-inline,function(sroa<modify-cfg>,early-cse,simplifycfg,sroa<modify-cfg>,early-cse,instsimplify,simplifycfg,loop-simplify,lcssa)"
# loops kept (array recurrences), memory promoted
LOOPY = ("always-inline,function(sroa<modify-cfg>,early-cse<memssa>,simplifycfg,instsimplify,sroa<modify-cfg>,"
         "early-cse<memssa>,loop-simplify,gvn<no-load-pre>,instsimplify,adce,simplifycfg,loop-simplify,lcssa)")
# fixed-size loops unrolled: straight-line scalar code for 3-vectors/matrices
_R1 = (f"simplifycfg,loop-mssa(loop-rotate,licm),simplifycfg,{_IC},loop(indvars,loop-deletion,loop-unroll-full),"
       f"sroa<modify-cfg>,early-cse<memssa>,{_IC},memcpyopt,gvn<no-load-pre>,sccp,{_IC},dse,adce,simplifycfg")
FULL = (f"always-inline,function(sroa<modify-cfg>,early-cse<memssa>,simplifycfg,{_IC},{_R1}),always-inline,function({_R1},loop-simplify,lcssa)")
# calls through pointers that only become known after the callers are simplified
CALLS = (f"always-inline,function(sroa<modify-cfg>,early-cse<memssa>,simplifycfg,{_IC},{_R1}),always-inline,function({_R1}),always-inline,function({_R1}),"
         f"always-inline,function({_R1},{_R1},loop-simplify,lcssa)")
# the first iterations of data-dependent loops made explicit (the rest stays a loop)
PEEL = (f"always-inline,function(sroa<modify-cfg>,early-cse<memssa>,simplifycfg,{_IC},{_R1},{_R1}),always-inline,function({_R1},"
        f"loop-simplify,lcssa,loop-unroll<O2;peeling;no-partial;no-runtime;no-upperbound>,{_R1},loop-simplify,lcssa)")
# the same with constant loops resolved before anything is peeled
PEEL2 = (f"always-inline,function(sroa<modify-cfg>,early-cse<memssa>,simplifycfg,{_IC},{_R1},{_R1},{_R1}),always-inline,function({_R1},{_R1},loop-simplify,lcssa)"
         f"@peel:function(loop-unroll<O2;peeling;no-partial;no-runtime;no-upperbound>)@function({_R1},{_R1},loop-simplify,lcssa)")
# an outer loop whose state fixes the sizes of the inner ones
_R2 = f"{_R1},jump-threading"
PEEL3 = (f"always-inline,function(sroa<modify-cfg>,early-cse<memssa>,simplifycfg,{_IC},{_R2}),always-inline,function({_R2},loop-simplify,lcssa)"
         f"@peel:function(loop-unroll<O2;peeling;no-partial;no-runtime;no-upperbound>)@function({_R2},{_R2},{_R2},{_R2},{_R2},{_R2},{_R1},loop-simplify,lcssa)")
# heavily looped code evaluated at a fixed size
DEEP = (f"always-inline,function(sroa<modify-cfg>,early-cse<memssa>,simplifycfg,{_IC},{_R1},{_R1}),always-inline,function({_R1},{_R1},loop-simplify,lcssa)")


def export(bc, roots=(), keep=(), only=(), pipeline=RAW, types=False, list_=False, no_inline=False, opaque_heap=False, peel=0):
    ensure_tools()
    out = tempfile.mktemp(suffix=".json", dir=tmpdir())
    cmd = [os.path.join(BIN, "irx"), bc, "-o", out, "--unroll-threshold=200000", "--unroll-max-iteration-count-to-analyze=200", "--memdep-block-scan-limit=4000", "--memssa-check-limit=1000", "--pipeline=" + pipeline]
    for r in roots:
        cmd.append("--root=" + r)
    for r in keep:
        cmd.append("--keep=" + r)
    for r in only:
        cmd.append("--inline-only=" + r)
    if types:
        cmd.append("--types")
    if list_:
        cmd.append("--list")
    if peel:
        cmd.append(("--peel-count=%d" if "@" in pipeline else "--unroll-peel-count=%d") % peel)
    if opaque_heap:
        cmd.append("--opaque-heap")
    if os.environ.get("VERIF_EMIT_IR"):
        with open(os.environ["VERIF_EMIT_IR"], "w") as f:
            f.write(run(cmd + ["--emit-ir"]).stderr)
    if no_inline:
        cmd.append("--no-inline")
    r = run(cmd)
    if r.returncode:
        raise ToolError("irx failed: " + r.stderr[-2000:])
    with open(out) as f:
        d = json.load(f)
    os.unlink(out)
    return d
