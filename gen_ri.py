"""Generate, from /repo's ricxx.h, a renderer that records every interface call
and a function that makes each call with symbolic arguments."""
import re
def methods(path):
    t = open(path, errors="replace").read()
    i = t.index("class AQSIS_RIUTIL_SHARE Renderer"); j = t.index("virtual ~Renderer", i)
    t = re.sub(r"/\*.*?\*/", "", t[i:j], flags=re.S); t = re.sub(r"//[^\n]*", "", t)
    out = []
    for m in re.finditer(r"virtual\s+(\w+)\s+(\w+)\s*\((.*?)\)\s*=\s*0\s*;", t, flags=re.S):
        ret, name, args = m.groups()
        al = []
        a = " ".join(args.split())
        a = a.replace("ParamList()", "@")
        for x in [y.strip() for y in a.split(",") if y.strip()]:
            x = re.sub(r"\s*=\s*\S+$", "", x)
            mm = re.match(r"(.*?)(\w+)$", x)
            al.append((mm.group(1).strip(), mm.group(2)))
        out.append((ret, name, al))
    return out
def generate(path):
    ms = methods(path)
    o = ["// generated from ricxx.h", "struct RecMethods : public Aqsis::Ri::Renderer, public RecLog {", "typedef Aqsis::Ri::IntArray IntArray; typedef Aqsis::Ri::FloatArray FloatArray; typedef Aqsis::Ri::StringArray StringArray; typedef Aqsis::Ri::TokenArray TokenArray; typedef Aqsis::Ri::ParamList ParamList;"]
    for ret, name, al in ms:
        o.append("  virtual %s %s(%s) { begin(\"%s\"); %s end(); }" % (ret, name, ", ".join("%s %s" % a for a in al), name, " ".join("arg%s(%s);" % ("M" if a[0] in ("RtConstMatrix", "RtConstBasis") else "B" if a[0] == "RtConstBound" else "C" if a[0] in ("RtConstColor", "RtConstPoint") else "", a[1]) for a in al)))
    o.append("};")
    o.append("struct Tee : public Aqsis::Ri::Renderer { Aqsis::Ri::Renderer &ra, &rb; Tee(Aqsis::Ri::Renderer& a, Aqsis::Ri::Renderer& b) : ra(a), rb(b) {} typedef Aqsis::Ri::IntArray IntArray; typedef Aqsis::Ri::FloatArray FloatArray; typedef Aqsis::Ri::StringArray StringArray; typedef Aqsis::Ri::TokenArray TokenArray; typedef Aqsis::Ri::ParamList ParamList;")
    for ret, name, al in ms:
        o.append("  virtual %s %s(%s) { ra.%s(%s); rb.%s(%s); }" % (ret, name, ", ".join("%s %s" % a for a in al), name, ", ".join(a[1] for a in al), name, ", ".join(a[1] for a in al)))
    o.append("};")
    o.append("enum RiCallId { %s, RI_NCALLS };" % ", ".join("RI_" + m[1] for m in ms))
    o.append("static const char* const riCallNames[] = { %s };" % ", ".join('"%s"' % m[1] for m in ms))
    o.append("static void riCall(int id, Aqsis::Ri::Renderer& r, RiArgs& A) { switch(id) {")
    for ret, name, al in ms:
        ex, call = [], []
        for t, n in al:
            tt = t.replace("const ", "").replace("&", "").strip()
            call.append("a_" + n)
            if tt in ("RtConstMatrix", "RtConstBasis"): ex.append("RtConstBasis& a_%s = A.mat(\"%s\");" % (n, n))
            elif tt == "RtConstBound": ex.append("const RtFloat* a_%s = A.fl(6, \"%s\");" % (n, n))
            elif tt in ("RtConstColor", "RtConstPoint"): ex.append("const RtFloat* a_%s = A.fl(3, \"%s\");" % (n, n))
            else: ex.append("auto a_%s = A.make((%s*)0, \"%s\", \"%s\");" % (n, "RtConstString" if tt.split() == ["char*"] else "Aqsis::Ri::" + tt if tt in ("IntArray", "FloatArray", "StringArray", "TokenArray", "ParamList") else tt, name, n))
        o.append("  case RI_%s: { %s r.%s(%s); break; }" % (name, " ".join(ex), name, ", ".join(call)))
    o.append("} }")
    return "\n".join(o) + "\n"
if __name__ == "__main__":
    import sys
    print(generate(sys.argv[1] if len(sys.argv) > 1 else "/repo/include/aqsis/riutil/ricxx.h"))

def gen_rules(path, rules):
    """Reference judgement of every call: the rules of the RI specification
    (scopes, ranges, array lengths; harness/ri_rules.json) as a renderer."""
    import json
    R = json.load(open(rules)); ms = methods(path)
    o = ["struct Rules : public Aqsis::Ri::Renderer, public RulesBase {", "typedef Aqsis::Ri::IntArray IntArray; typedef Aqsis::Ri::FloatArray FloatArray; typedef Aqsis::Ri::StringArray StringArray; typedef Aqsis::Ri::TokenArray TokenArray; typedef Aqsis::Ri::ParamList ParamList;"]
    for ret, name, al in ms:
        r = R.get(name); b = []
        if r:
            if r["scopes"]: b.append("scope(%s);" % "|".join("S_" + s for s in r["scopes"]))
            for a, op, lim in r["checks"]:
                if op == "#": b.append("len(%s, %s.size());" % (lim.replace("size(", "rsize(").replace("sum(", "rsum("), a))
                else: b.append("need(%s %s %s);" % (a, op, lim.replace("RI_EPSILON", "FLT_EPSILON")))
            if r["plist"]:
                ic = r["ic"]; b.append("Counts c;")
                if "ComplicatedCustomImpl" in ic: b.append({"PatchMesh": "patchMesh(c, type, nu, uwrap, nv, vwrap);", "Curves": "curves(c, type, nvertices, wrap);", "Geometry": "c.unknown();"}[name])
                else:
                    tr = lambda s: s.replace("size(", "rsize(").replace("sum(", "rsum(").replace("max(", "rmax(").replace("countP(", "rcountP(")
                    if "Uniform" in ic: b.append("c.uniform = %s;" % tr(ic["Uniform"]))
                    v = tr(ic.get("Varying", "1")); b.append("c.varying = %s;" % v); b.append("c.vertex = %s;" % tr(ic.get("Vertex", "c.varying"))); b.append("c.facevarying = %s;" % tr(ic.get("FaceVarying", "c.varying"))); b.append("c.facevertex = c.facevarying;")
                b.append("params(pList, c%s);" % (", true" if name in ("PatchMesh", "Curves") else ""))
                if r["needP"]: b.append("needP(pList);")
            if name == "Basis": b.append("basis(ustep, vstep);")
            if name == "ArchiveEnd": b.append("scope(S_Archive);")
            for e in ("Begin", "End"):
                if name.endswith(e) and name[:-len(e)] not in ("If", "Resource"): b.append("%s(S_%s);" % (e.lower(), name[:-len(e)]))
        o.append("  virtual %s %s(%s) { ok = true; %s }" % (ret, name, ", ".join("%s %s" % a for a in al), " ".join(b)))
    o.append("};")
    return "\n".join(o) + "\n"

CAPI_SPECIAL = {"ColorSamples": "N:nRGB.size()/3, nRGB, RGBn", "Polygon": "nverts_of(pList)", "GeneralPolygon": "nverts.size(), nverts", "PointsPolygons": "nverts.size(), nverts, verts", "PointsGeneralPolygons": "nloops.size(), nloops, nverts, verts", "Points": "nverts_of(pList)",
    "TrimCurve": "ncurves.size(), ncurves, order, knot, min, max, n, u, v, w", "SubdivisionMesh": "scheme, nvertices.size(), nvertices, vertices, tags.size(), tags, nargs, intargs, floatargs", "Curves": "type, nvertices.size(), nvertices, wrap",
    "Blobby": "nleaf, code.size(), code, floats.size(), floats, strings.size(), strings", "MakeOcclusion": "picfiles.size(), picfiles, shadowfile", "MotionBegin": "times.size(), times"}
def gen_capi(path):
    """A renderer whose every method makes the corresponding call of the C interface (ri.h)."""
    ms = methods(path)
    o = ["struct CApi : public Aqsis::Ri::Renderer, public CApiBase {", "typedef Aqsis::Ri::IntArray IntArray; typedef Aqsis::Ri::FloatArray FloatArray; typedef Aqsis::Ri::StringArray StringArray; typedef Aqsis::Ri::TokenArray TokenArray; typedef Aqsis::Ri::ParamList ParamList;"]
    for ret, name, al in ms:
        ty = {n: t.replace("const ", "").replace("&", "").strip() for t, n in al}
        pl = "ParamList" in ty.values()
        def conv(n):
            t = ty.get(n)
            if t is None: return n
            if t in ("IntArray", "FloatArray", "StringArray", "TokenArray"): return "c_arr(%s)" % n
            if t in ("RtConstMatrix", "RtConstBasis"): return "c_mat(%s)" % n
            if t in ("RtConstBound", "RtConstColor", "RtConstPoint"): return "(RtFloat*)%s" % n
            if t in ("RtConstToken", "RtConstString"): return "c_str(%s)" % n
            return n
        if name in CAPI_SPECIAL: args = [conv(a.strip().replace("N:", "")) if ".size()" not in a else "(RtInt)(%s)" % a.strip().replace("N:", "") for a in CAPI_SPECIAL[name].split(",")]
        elif name in ("LightSource", "AreaLightSource"): args = ["c_str(%s)" % al[0][1]]
        elif name == "Illuminate": args = ["handle(%s)" % al[0][1], al[1][1]]
        elif name == "ObjectBegin": args = []
        elif name == "ObjectInstance": args = ["handle(%s)" % al[0][1]]
        elif name == "ArchiveRecord": args = ["c_str(%s)" % al[0][1], "(char*)\"%%s\"", al[1][1]]; args[1] = '(char*)"%s"'
        else: args = [conv(n) for t, n in al if ty[n] != "ParamList"]
        pre = "last = " if name in ("LightSource", "AreaLightSource", "ObjectBegin") else ""
        fn = "Ri" + name; a = ", ".join(args)
        sep = ", " if args else ""
        if name == "MotionBegin": body = "if(!varargs) RiMotionBeginV(%s); else switch(times.size()) { case 0: RiMotionBegin(0); break; case 1: RiMotionBegin(1, times[0]); break; case 2: RiMotionBegin(2, times[0], times[1]); break; default: RiMotionBegin(3, times[0], times[1], times[2]); }" % a
        elif pl:
            body = "c_list(pList); if(!varargs) %s%sV(%s%s(RtInt)np, tok, val); else switch(np) { " % (pre, fn, a, sep)
            for k in range(4): body += "%s %s%s(%s%s%sRI_NULL); break; " % ("case %d:" % k if k < 3 else "default:", pre, fn, a, sep, "".join("tok[%d], val[%d], " % (q, q) for q in range(k)))
            body += "}"
        else: body = "%s%s(%s);" % (pre, fn, a)
        o.append("  virtual %s %s(%s) { %s }" % (ret, name, ", ".join("%s %s" % x for x in al), body))
    o.append("};")
    return "\n".join(o) + "\n"
