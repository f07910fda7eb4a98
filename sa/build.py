"""Compile /repo's current tree to one SSA LLVM module (nothing is executed).

Every check starts here: the sources listed in makefile.am of the working tree
are compiled with clang (-O0, debug info), linked, promoted to SSA (mem2reg) and
handed to ir.load().  All output goes to a private temporary directory.
"""
import os, re, subprocess, sys, tempfile, shutil, atexit
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("SA_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))

class BuildError(Exception):
    pass

def _tool(name):
    for c in (name, name + "-18", "/usr/lib/llvm-18/bin/" + name):
        p = shutil.which(c)
        if p:
            return p
    raise BuildError("tool not found: " + name)

def sources(repo=None):
    repo = repo or REPO
    am = os.path.join(repo, "makefile.am")
    txt = open(am).read().replace("\\\n", " ")
    m = re.search(r"^dnsforwarder_SOURCES\s*=(.*)$", txt, re.M)
    if not m:
        raise BuildError("makefile.am: dnsforwarder_SOURCES not found")
    src = [w for w in m.group(1).split() if w.endswith(".c")]
    for extra in re.findall(r"^dnsforwarder_SOURCES\s*\+=(.*)$", txt, re.M):
        src += [w for w in extra.split() if w.endswith(".c")]
    src = [s for s in src if os.path.exists(os.path.join(repo, s))]
    if not src:
        raise BuildError("no sources")
    return src

def compile_tree(repo=None, defines=("-DDOWNLOAD_LIBCURL",), extra_c=()):
    """returns (bitcode path, textual IR path, list of sources)"""
    repo = repo or REPO
    tmp = tempfile.mkdtemp(prefix="sa_")
    atexit.register(shutil.rmtree, tmp, True)
    inc = os.path.join(repo, "_build")
    cfgdir = os.path.join(tmp, "cfg")
    os.mkdir(cfgdir)
    shutil.copy(os.path.join(HERE, "config_fallback.h"), os.path.join(cfgdir, "config.h"))
    clang, link, opt, dis = _tool("clang"), _tool("llvm-link"), _tool("opt"), _tool("llvm-dis")
    src = sources(repo)
    base = [clang, "-O0", "-Xclang", "-disable-O0-optnone", "-g", "-fno-discard-value-names",
            "-DHAVE_CONFIG_H", "-pthread", "-w", "-U_FORTIFY_SOURCE", "-fno-builtin", "-c", "-emit-llvm",
            "-I" + cfgdir, "-I" + repo] + list(defines)
    def one(s):
        p = s if os.path.isabs(s) else os.path.join(repo, s)
        o = os.path.join(tmp, os.path.basename(s) + ".bc")
        r = subprocess.run(base + [p, "-o", o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise BuildError("clang failed on %s:\n%s" % (s, r.stdout[-3000:]))
        return o
    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(one, list(src) + list(extra_c)))
    allbc = os.path.join(tmp, "all.bc")
    def run(cmd):
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise BuildError(" ".join(cmd[:2]) + ": " + r.stdout[-3000:])
    run([link] + objs + ["-o", allbc])
    ssa = os.path.join(tmp, "ssa.bc")
    run([opt, "-passes=mem2reg", allbc, "-o", ssa])
    ll = os.path.join(tmp, "ssa.ll")
    run([dis, ssa, "-o", ll])
    return ssa, ll, src

def cvals(header, exprs, repo=None):
    """values of constant expressions (macros, enums, sizeof) as the tree's own headers define them"""
    repo = repo or REPO
    tmp = tempfile.mkdtemp(prefix="sa_c_")
    try:
        shutil.copy(os.path.join(HERE, "config_fallback.h"), os.path.join(tmp, "config.h"))
        body = "".join('#include "%s"\n' % h for h in ([header] if isinstance(header, str) else header))
        body += "".join("long long sa_v%d = (long long)(%s);\n" % (k, e) for k, e in enumerate(exprs))
        f = os.path.join(tmp, "v.c"); open(f, "w").write(body)
        r = subprocess.run([_tool("clang"), "-S", "-emit-llvm", "-DHAVE_CONFIG_H", "-DDOWNLOAD_LIBCURL", "-pthread", "-w", "-I" + tmp, "-I" + repo, f, "-o", "-"],
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        if r.returncode != 0:
            raise BuildError("constants of %s: %s" % (header, r.stderr[-800:]))
        return [int(re.search(r"@sa_v%d = .*global i64 (-?\d+)" % k, r.stdout).group(1)) for k in range(len(exprs))]
    finally:
        shutil.rmtree(tmp, True)
