"""Builds the shader compiler of /repo's current tree natively and compiles the shaders of
harness/sl with it; the compiled shaders become string constants in <dir>/slx.h."""
import os, re, subprocess, glob
from concurrent.futures import ThreadPoolExecutor
SL = ["libs/slcomp/parse/%s.cpp" % x for x in ("funcdef", "libslparse", "optimise", "parsenode", "typecheck", "vardef")] + \
     ["libs/slcomp/backend/%s.cpp" % x for x in ("codegengraphviz", "codegenvm", "parsetreeviz", "vmdatagather", "vmoutput")] + \
     ["libs/util/%s.cpp" % x for x in ("exception", "logging", "sstring", "file")]
def run(cmd): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
def shaders(repo, here, d, incs, cxx):
    w = os.path.join(d, "slc"); os.makedirs(w, exist_ok=True)
    p = os.path.join(repo, "libs/slcomp/parse")
    for c in (["bison", "-d", "-o", w + "/parser.cpp", p + "/parser.yy"], ["flex", "-o" + w + "/scanner.cpp", p + "/scanner.ll"]):
        r = run(c)
        if r.returncode: return r.stdout[-2000:]
    srcs = [os.path.join(repo, s) for s in SL] + [w + "/parser.cpp", w + "/scanner.cpp", os.path.join(here, "harness/slc_main.cpp")]
    fl = ["-std=gnu++17", "-O0", "-w", "-DAQSIS_STATIC_LINK", "-I" + w, "-I" + p, "-I" + os.path.join(repo, "libs/slcomp/backend")] + incs
    objs = [w + "/%d.o" % i for i in range(len(srcs))]
    with ThreadPoolExecutor(8) as ex: rs = list(ex.map(lambda so: run([cxx, "-c"] + fl + [so[0], "-o", so[1]]), zip(srcs, objs)))
    for r in rs:
        if r.returncode: return "shader compiler does not build: " + r.stdout[-2000:]
    r = run([cxx, "-o", w + "/slc"] + objs + ["-lboost_filesystem", "-lboost_system"])
    if r.returncode: return "shader compiler does not link: " + r.stdout[-2000:]
    ss = sorted(glob.glob(os.path.join(here, "harness/sl/*.sl"))); h = ""
    open(os.path.join(d, "sl_all.h"), "w").close()
    # bodies in the common subset of the shading language and C++: the harness includes the same text
    for b in sorted(glob.glob(os.path.join(here, "harness/sl/*.inc"))):
        n = os.path.basename(b)[:-4]; o = os.path.join(w, n + ".sl"); ss.append(o)
        parts = open(b).read().split("%%\n"); fn, body = (parts if len(parts) == 2 else ["", parts[0]])
        sl = lambda t: re.sub(r"CROSS\(([^,()]*),([^()]*)\)", r"(\1 ^ \2)", re.sub(r"DOT\(([^,()]*),([^()]*)\)", r"(\1 . \2)", t.replace("splinea(", "spline(")))
        outs = ["output varying float o%d = 0" % i for i in range(6)] + ["output varying color c%d = 0" % i for i in range(2)] + ["output varying vector v%d = 0" % i for i in range(2)]
        with open(o, "w") as f: f.write("%s\nsurface prog_%s(%s)\n{\n%s}\n" % (sl(fn), n, "; ".join(outs), sl(body)))
        def cxx_text(t):
            t = re.sub(r"\b(float|color|vector)\s+(\w+)\[(\d+)\];", r"Arr<\1> \2(\3);", t)
            t = re.sub(r"^(\w+ \w+)\(([^)]*)\)", lambda m: m.group(1) + "(" + re.sub(r"output (\w+)", r"\1&", m.group(2)).replace(";", ",") + ")", t, flags=re.M)
            return re.sub(r"\buniform |\bvarying ", "", re.sub(r"\bfloat\b", "double", t))
        with open(os.path.join(d, "sl_%s.h" % n), "w") as f: f.write("namespace fn_%s {\n%s\nstatic void run(Pt& pt) { double &u = pt.u, &v = pt.v, &s = pt.s, &t = pt.t, &o0 = pt.o0, &o1 = pt.o1, &o2 = pt.o2, &o3 = pt.o3, &o4 = pt.o4, &o5 = pt.o5; color &Cs = pt.Cs, &Os = pt.Os, &P = pt.P, &N = pt.N, &c0 = pt.c0, &c1 = pt.c1, &v0 = pt.v0, &v1 = pt.v1;\n%s} }\n" % (n, cxx_text(fn), cxx_text(body)))
        with open(os.path.join(d, "sl_all.h"), "a") as f: f.write('#include "sl_%s.h"\n' % n)
    for s in ss:
        o = os.path.join(w, os.path.basename(s)[:-3] + ".slx"); n = os.path.basename(s)[:-3]
        r = run([w + "/slc", s, o])
        # a shader that no longer compiles is an empty program: the harness reports it
        t = open(o).read() if r.returncode == 0 and os.path.exists(o) else ""
        h += "static const char SLX_%s[] =\n%s;\n" % (n, "\n".join('"%s\\n"' % l.replace("\\", "\\\\").replace('"', '\\"').replace("\t", " ").replace("\0", "\\000") for l in t.split("\n")) or '""')
    with open(os.path.join(d, "slx.h"), "w") as f: f.write(h)
    return ""
