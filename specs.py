"""Which harness, sources, bounds and cases decide each property."""
import os
RIU = dict(inc=["libs/riutil"], defs=["AQSIS_RIUTIL_EXPORTS"])
TOK = ["libs/riutil/ribtokenizer.cpp", "libs/riutil/ribinputbuffer.cpp"]

def cases(names, **kw):
    return [dict(id=i, name=n, **kw) for i, n in enumerate(names)]

PROPS = {}
MERGE = ["--merge"]
PROPS["C01"] = dict(parts=[dict(RIU, opts=MERGE, harness="rib_binary.cpp", sources=TOK, bounds="one token of each kind with every byte value; strings of 0..15, 16, 17, 40, 300 bytes; arrays of 0..4 floats", reach=["end"],
    cases=cases(["integers", "fixedpoint", "float32", "float64", "shortstring", "longstring", "wrapstring", "requests", "strings", "floatarray", "reserved", "baddefs", "peekunget", "requestnames"]))])

PROPS["C02"] = dict(parts=[dict(RIU, harness="rib_ascii.cpp", sources=TOK, reach=["end"],
    bounds="integers of 1..6 (thorough 9) digits; fractions of up to 2+2 (2+3) digits; exponents 0..12 (37); strings of up to 4 (5) arbitrary bytes; comments of up to 3 bytes; every text of 4 (5) characters over an alphabet with a member of each lexical class",
    cases=cases(["integers", "delimiters", "decimals", "exponents", "strings", "comments", "sequences"]))])
PROPS["C03"] = dict(parts=[dict(RIU, opts=MERGE, harness="rib_pos.cpp", sources=TOK, reach=["end"],
    bounds="streams of up to 5 arbitrary bytes; 530-byte streams with arbitrary bytes around offsets 251..257 and 506..513; chunk schedules of up to 4 reads; tokens after 246..258 bytes and every 4-character white space; nested input of up to 3 characters",
    cases=cases(["short", "wrap", "chunked", "chunkedwrap", "tokenpos", "nested"]))])

RIBRW = dict(RIU, srcflags=["-include", "boost/shared_ptr.hpp"], defs=["AQSIS_RIUTIL_EXPORTS", "VS_STUB_FILTER"], extra=["stub_util.cpp"], sources=TOK + ["libs/riutil/" + x for x in ("riblexer.cpp", "ribparser.cpp", "ribwriter.cpp", "tokendictionary.cpp", "primvartoken.cpp")] + ["libs/util/exception.cpp"])
PROPS["C04"] = dict(parts=[dict(RIBRW, harness="rib_roundtrip.cpp", reach=["end"], bounds="each of the interface requests with every value of its integer, float and string arguments (1-byte strings, 2-element arrays); array lengths 0..3 (5); string lengths 0..18 and 255..300; every parameter class and type; sequences of 3 (4) requests; a stream with every request twice",
    cases=[dict(id=i, name=n, opts=[] if "asc" in n else MERGE) for i, n in enumerate(["bin%d" % i for i in range(8)] + ["asc%d" % i for i in range(4)] + ["arrays", "strings", "stringsasc", "longstr", "params", "paramsasc", "declared", "seq", "seqasc", "many", "basis"])])])

PROPS["C05"] = dict(parts=[dict(RIBRW, harness="rib_errors.cpp", reach=["end"], bounds="one request of each argument shape followed by up to 3 (4) arbitrary tokens and further requests; parameter lists of up to 3 (4) parameters; streams cut after any token; requests of a fixed number of values with one value too few or too many; colours of 1..4 components; all values of integers, floats, one-byte strings and reserved bytes",
    cases=cases(["simple0", "simple1", "simple2", "simple3", "params", "paramseq", "junk", "truncated", "fixedarrays", "colorsamples", "trailing"]))])

PROPS["C06"] = dict(parts=[dict(RIU, harness="prim_token.cpp", extra=["stub_util.cpp"], reach=["end"], sources=["libs/riutil/risyms.cpp", "libs/riutil/tokendictionary.cpp", "libs/riutil/primvartoken.cpp", "libs/util/exception.cpp"],
    bounds="every class, type, letter case pattern and spacing with array sizes 1..99; array sizes of up to 3 arbitrary characters or 22 digits; every text of up to 4 (6) words and of up to 4 (6) characters over the declaration alphabet; names of 1..3 characters; dictionaries of up to 2 (3) declarations; all counts",
    cases=cases(["inline", "words", "chars", "roundtrip", "dict", "counts", "arraysize"]))])

FILT = dict(RIBRW, defs=["AQSIS_RIUTIL_EXPORTS"], harness="ri_filters.cpp", reach=["end"], sources=RIBRW["sources"] + ["libs/riutil/" + x for x in ("renderutil_filter.cpp", "tee_filter.cpp", "framedrop_filter.cpp", "ricxx_filter.cpp", "ricxx_validate.cpp")])
PROPS["C07"] = dict(parts=[dict(FILT, bounds="every program of up to 7 (8) conditional calls, 7 (8) archive calls, 6 (7) object calls, 6 (7) mixed calls, over two names and all truth values of the conditions; archives whose bodies are any 3 calls, nested definitions and redefinition; an object followed by up to 5 (6) archive and object calls",
    cases=[dict(id=i, name=n) for i, n in enumerate(["cond", "condbad", "archives", "objects", "mixed", "nested", "afterobject"])])])
PROPS["C08"] = dict(parts=[dict(FILT, bounds="every interface call with all values of its arguments; arrays of 0..2 elements, strings of 0, 8, 16 bytes; up to two frames with any numbers against selections of up to two; frame texts of up to three one-digit numbers with any separator",
    cases=[dict(id=10 + i, name=n) for i, n in enumerate(["arc0", "arc1", "arc2", "object", "passthrough", "tee", "onoff", "ignorearchives", "frames", "frametext"])])])

PROPS["C09"] = dict(parts=[dict(FILT, harness="ri_validate.cpp", bounds="every nesting of up to 2 (3) blocks followed by one (with every call after it) or two arbitrary block calls; every call with all values of its numeric arguments; every primitive with any parameter class and type, all array lengths up to 60..400, index arrays of up to 3 elements, patch meshes of up to 20x20 and all basis steps up to 4x3",
    cases=[dict(id=i, name=n) for i, n in [(0, "scopes"), (1, "fragment"), (2, "ranges0"), (3, "ranges1"), (4, "ranges2"), (5, "ranges3"), (10, "polygon"), (11, "generalpolygon"), (12, "points"), (13, "pointspolygons"), (14, "pointsgeneralpolygons"), (15, "patch"), (16, "patchmesh"), (17, "nupatch"), (18, "trimcurve"), (19, "subdiv"), (20, "quadrics"), (21, "curves"), (22, "patchmeshrelaxed"), (23, "colorsamples")]])])

MATH = dict(defs=["AQSIS_MATH_EXPORTS"], reach=["end"])
PROPS["C10"] = dict(parts=[dict(MATH, harness="math_scalar.cpp", sources=["libs/math/random.cpp", "libs/math/lowdiscrep.cpp"], bounds="all floats and doubles up to 2^30 in magnitude; all 32-bit integers; 700 random numbers for five seeds; 64 low-discrepancy points in up to 4 dimensions",
    cases=cases(["roundf", "roundd", "roundt", "pow2", "clamp", "sequence", "lowdisc"]))])
REAL = ["--fp=real"]
PROPS["C11"] = dict(parts=[dict(MATH, harness="math_matrix.cpp", opts=REAL, sources=["libs/math/matrix.cpp"], bounds="real arithmetic (rounding not modelled), all elements in [-4,4]; inverses of permuted bidiagonal, lower, translating and projective matrices and of every 2x2 block",
    cases=cases(["products", "points", "builders", "ctors", "det", "inverse", "inverse2", "normals", "rotation", "vectors"]))])

COREI = ["libs/core"] + ["libs/core/" + x for x in ("api", "ddmanager", "geometry", "raytrace", "texturing_old")]
CORE = dict(inc=COREI, defs=["USE_TIMERS", "AQSIS_MATH_EXPORTS"], reach=["end"])
PROPS["C12"] = dict(parts=[dict(CORE, harness="core_bound.cpp", opts=MERGE, sources=["libs/core/bound.cpp"], bounds="all boxes and points with float coordinates in [-9,9]", cases=[dict(id=0, name="union"), dict(id=1, name="queries")]),
    dict(CORE, harness="core_bound.cpp", opts=REAL + MERGE, sources=["libs/core/bound.cpp", "libs/math/matrix.cpp"], bounds="real arithmetic; all boxes in [-8,8] under all linear, scaling and translating transforms with elements in [-4,4]", cases=[dict(id=2, name="scale"), dict(id=3, name="linear"), dict(id=4, name="affine")])])

PIX = dict(CORE, harness="core_pixel.cpp", extra=["stub_util.cpp"], sources=["libs/core/imagepixel.cpp", "libs/core/csgtree.cpp", "libs/util/sstring.cpp", "libs/math/color.cpp"])
PROPS["C13"] = dict(parts=[dict(PIX, opts=REAL, bounds="real arithmetic; up to 3 (4) semi-transparent surfaces and an opaque one at a sample, any depth order, all colours and opacities in [0,1], matte or not; depth filters with up to 4 surfaces and all thresholds in [0.25,1] on any one channel or all; pixels of up to 2x2 samples, cleared and reused", cases=[dict(id=0, name="over"), dict(id=1, name="depth"), dict(id=2, name="life")])])
PROPS["C14"] = dict(parts=[dict(PIX, bounds="every tree of one operation over 1..3 solids, or with one nested operation over two, alone or beside another tree; every sequence of up to 5 (6) or 4 (5) walls seen from outside", cases=[dict(id=10, name="flat"), dict(id=11, name="nested"), dict(id=12, name="twotrees")])])
PROPS["C15"] = dict(parts=[dict(CORE, harness="core_sampler.cpp", opts=REAL, sources=["libs/core/grid.cpp", "libs/core/multijitter.cpp"], bounds="grid patterns up to 4x4; jittered patterns of 1x1, 2x1, 1x2, 2x2, 3x1 samples with every outcome of the random draws for the first 13..20 draws", cases=cases(["grid", "jitter", "draws", "draws22", "draws31"]))])

IMG = dict(CORE, defs=["AQSIS_MATH_EXPORTS"], harness="core_image.cpp", inc=COREI + ["libs/shadervm"], extra=["stub_util.cpp"], opts=REAL, sources=["libs/core/" + x + ".cpp" for x in ("imagepixel", "csgtree", "bucket", "bucketprocessor", "imagebuffer", "occlusion", "bound", "micropolygon", "options", "optioncache", "attributes", "parameters", "renderer", "transform", "grid", "multijitter", "stats", "threadscheduler", "refcount", "geometry/points")] + ["libs/util/sstring.cpp", "libs/math/color.cpp", "libs/math/matrix.cpp", "libs/math/random.cpp", "libs/riutil/risyms.cpp", "libs/riutil/tokendictionary.cpp", "libs/riutil/primvartoken.cpp", "libs/util/exception.cpp"])
PROPS["C16"] = dict(parts=[dict(IMG, bounds="real arithmetic; images up to 3x3 (crop: 4x3), buckets 1..3 x 1..2, 1x1..2x1 (2x2) samples, filters 1..3 x 1..2 wide, both bucket orders, every crop window; one rectangle with two (four) arbitrary edges; three overlapping rectangles with any depths, colours, opacities, matte; six shapes in all vertex orders; any corner depths or colours over a parallelogram; all gains in [0.5,2]; up to three surfaces under each depth filter", cases=cases(["layout", "rectangle", "transparent", "opaque", "shapes", "smooth", "crop", "depthfilters", "gain", "vertical"]))])

PROPS["C17"] = dict(parts=[dict(IMG, bounds="real arithmetic; images up to 4x1 or 3x2, 2x2 samples (points 1x1 when still), buckets 1..2; one surface with two or three keys, one component of whose motion is arbitrary (up to 3 pixels, or 4 in depth), key times inside, outside and across shutters [0,1], [0,0.75], [0.25,1], [0.25,0.75], [-0.5,0.5]; one other surface in front or behind, added before or after; lens: focus 2..4, depths 1..6, any width; both: any sideways motion", cases=[dict(id=10, name="motion"), dict(id=16, name="movingpoints"), dict(id=14, name="keys"), dict(id=17, name="pointlens"), dict(id=12, name="lens"), dict(id=13, name="lensmotion"), dict(id=11, name="motiondepth"), dict(id=15, name="points")])])
GEOM = dict(IMG, harness="core_geom.cpp", reach=["end"], sources=IMG["sources"] + ["libs/core/geometry/patch.cpp", "libs/core/geometry/surface.cpp", "libs/core/geometry/nurbs.cpp", "libs/core/geometry/trimcurve.cpp", "libs/core/geometry/polygon.cpp", "libs/core/api/graphicsstate.cpp"])
PROPS["C23"] = dict(parts=[dict(GEOM, bounds="real arithmetic; every control value arbitrary in [-9,9] for one component at a time; types float, point, vector, normal, color, hpoint; bilinear and bicubic patches, arrays of up to 3, grids up to 3x3 (4x4), and 12x1 and 1x12, both split directions, forced splits, triangles; cubic meshes of 1..2 x 1..2 patches in all pairs of 5 bases, bilinear meshes of up to 3x3 points, each wrapped or not; NURBS of order 2..4 x 2..3 with up to 2 x 1 inner knots, even, uneven, double or unclamped, with and without weights; convex polygons of 3..6 (8) vertices; meshes of three polygons of 3..5 vertices, one of them possibly with an invalid index", cases=cases(["dice", "dicearrays", "dicecubic", "splitcubic", "splitbilinear", "cubicmesh", "bilinearmesh", "bound", "transform", "rational", "nurbsdice", "nurbssplit", "nurbsclamp", "nurbssegments", "polygon", "polygonmesh"]))])
PROPS["C24"] = dict(parts=[dict(GEOM, harness="core_image.cpp", bounds="real arithmetic; one surface (whole or split once or twice, with a tight or loose bound) at any depth, or with any position of one edge, behind or before one or two rectangles covering any block of pixels; images of 2x2..3x2 pixels in buckets of one pixel, or of 1..6 pixels with 1..2x1..2 samples in one bucket; 4x2 image with 3 crop windows, buckets of 1..2, filters of width 1 and 3, clipping planes, tight, loose and displacement-widened bounds; up to three surfaces at any depths under each depth filter", cases=[dict(id=18, name="buckets"), dict(id=19, name="onebucket"), dict(id=20, name="bucketedges"), dict(id=21, name="edges"), dict(id=22, name="frame"), dict(id=23, name="depthfilters")])])

VM = dict(CORE, shaders=True, defs=["AQSIS_STATIC_LINK"], harness="shader_vm.cpp", inc=COREI + ["libs/shadervm", "libs/shadervm/shaderexecenv", "libs/pointrender", "libs/pointrender/diffuse", "libs/pointrender/cubemap", "libs/pointrender/microbuf"], extra=["stub_util.cpp"], opts=REAL, sources=["libs/shadervm/" + x + ".cpp" for x in ("shadervm", "shadervm1", "shadervm2", "shaderstack")] + ["libs/shadervm/shaderexecenv/" + x + ".cpp" for x in ("shaderexecenv", "shadeops_comp", "shadeops_deriv", "shadeops_math", "shadeops_matrx", "shadeops_rand", "shadeops_illum", "shadeops_inter", "shadeops_text")] + ["libs/util/sstring.cpp", "libs/util/bitvector.cpp", "libs/math/spline.cpp", "libs/math/color.cpp", "libs/math/matrix.cpp", "libs/math/random.cpp"])
PROPS["C18"] = dict(parts=[dict(VM, bounds="real arithmetic; fifteen fixed programs over two shading points (four in thorough), every value in [0,1] (expressions: [-4,4]); loops up to 4 turns, nesting to 3", cases=[dict(id=i, name=n) for i, n in enumerate("if ifuniform while for break nestbreak ternary arith compare array cast func".split())] + [dict(id=19, name="funcalias"), dict(id=26, name="mix"), dict(id=27, name="mixcmp"), dict(id=28, name="expr")])])
PROPS["C19"] = dict(parts=[dict(VM, bounds="real arithmetic; fixed programs over two shading points (four in thorough), every argument in [0,1] or a small affine image of it; derivatives over grids of 2x2 and 3x3 points (one more column in thorough)", cases=[dict(id=i, name=n) for i, n in ((12, "fnmath"), (13, "fnstep"), (14, "fnvec"), (15, "fnlength"), (16, "fnreflect"), (17, "fnspline"), (18, "fnround"), (20, "splineend"), (21, "fnsplinec"), (22, "fnsplineb"), (23, "fnmatrix"), (24, "fnsplineh"), (25, "fnsplinea"), (30, "deriv"), (31, "derivuniform"), (32, "derivcentred"))])])
BUF = dict(defs=["AQSIS_TEX_EXPORTS", "USE_OPENEXR"], harness="tex_buffer.cpp", extra=["stub_util.cpp"], reach=["end"], sources=["libs/tex/buffers/imagechannel.cpp", "libs/tex/buffers/mixedimagebuffer.cpp"])
TYN = ["u8", "s8", "u16", "s16", "u32", "s32", "f32"]
PROPS["C20"] = dict(parts=[dict(BUF, bounds="bit-precise; every 8-bit value, and 16- and 32-bit values with every last byte after 4 (8) beginnings, to every other type (32-bit ones to float precision); 12 float values at the ends and the middle of the range to each type", cases=[dict(id=10 + i, name="float_" + TYN[i]) for i in range(6)] + [dict(id=20 + i, name=TYN[i] + "_float") for i in (0, 1, 2, 3, 6)] + [dict(id=100 + 10 * i + j, name=TYN[i] + "_" + TYN[j]) for i in range(6) for j in range(6)] + [dict(id=3, name="reorder")]),
    dict(BUF, opts=REAL, bounds="real arithmetic; all floats in [-4,4] to 8 bits, all in four stretches (below and just above 0, at 1/4 and 1/2, just below and above 1) to wider types; images up to 3x2 laid at every offset over images up to 3x2 (3x3), all float values in [0,1]", cases=[dict(id=40 + i, name="any_" + TYN[i]) for i in range(6)] + [dict(id=0, name="region"), dict(id=1, name="named"), dict(id=2, name="over"), dict(id=4, name="alpha")])])
TXF = dict(BUF, harness="tex_filter.cpp", inc=["libs/tex/filtering", "libs/tex/maketexture"], sources=["libs/tex/filtering/cachedfilter.cpp", "libs/tex/filtering/randomtable.cpp", "libs/math/lowdiscrep.cpp"], opts=REAL)
WR = ["black", "periodic", "clamp"]
PROPS["C21"] = dict(parts=[dict(TXF, bounds="real arithmetic; images up to 3x3 (tiled 4x3, reduced 5x3), 2 channels, all pixel values in [0,1]; supports up to 3x3 starting up to 3 (4) pixels away; filter widths 1 to 4.5; up to 3 samples, every sequence of random numbers", cases=[dict(id=3 * i + j, name="wrap_%s_%s" % (WR[i], WR[j])) for i in range(3) for j in range(3)] + [dict(id=9 + 3 * i + j, name="tiled_%s_%s" % (WR[i], WR[j])) for i in range(3) for j in range(3)] + [dict(id=18 + 3 * i + j, name="reduce_%s_%s" % (WR[i], WR[j])) for i in range(3) for j in range(3)] + [dict(id=27 + i, name=n) for i, n in enumerate(["nowrap", "tiled_nowrap", "chance", "tiled_chance", "average", "shadow", "levels"])])])
LEVEL = "other"
def evidence(pid, tier, meta, ev, res, incompl, confirmed, wall, knownhits, fns):
    return {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": LEVEL,
        "coverage": {
            "explanation": "Bounded symbolic execution (vsym: LLVM-18 bitcode of /repo's current sources, Z3 deciding): every feasible path of each case within its bounds was executed, and every assertion, memory access, division and trap on it was decided by an SMT query over all values of the symbolic inputs.",
            "result": res,
            "functions_encoded": fns, "n_functions_encoded": len(fns),
            "cases": ev["cases"],
            "symbolic_paths_completed": ev["paths"], "assertions_decided": ev["asserts"], "assertions_needing_solver": ev["aq"],
            "solver_queries": ev["queries"], "solver_unsat": ev["unsat"], "solver_sat": ev["sat"], "solver_unknown": ev["unknown"],
            "solver_time_s": round(ev["solver_s"], 3), "instructions_interpreted": ev["insts"],
            "bounds": sorted(set(c["bounds"] for c in ev["cases"])),
            "samples": [{"case": c["case"], "inputs_on_one_path": c["sample"]} for c in ev["cases"] if c["sample"]][:8],
            "inconclusive": incompl[:5], "known_findings_seen": [k["text"] for k, _ in knownhits],
        },
        "assumptions": sorted(ev["assumptions"]) + ["C/C++ run-time library as modelled in /verif/rt; Z3 4.x/5.x and the executor are trusted", "compiled by clang 18 -O1, x86-64, round-to-nearest"],
        "wall_s": round(wall, 2), "violations": len(confirmed),
    }

CAPI = dict(RIBRW, harness="ri_capi.cpp", reach=["end"], sources=RIBRW["sources"] + ["libs/riutil/ri2ricxx.cpp"])
PROPS["C22"] = dict(parts=[dict(CAPI, bounds="every call of the C interface in its vector and its variable-argument form with all values of its arguments; parameter lists of up to 3 parameters of every class and type; polygons, meshes, patches, curves and trim curves of up to 3 parts; programs of up to 4 (5) scope and basis calls and 5 (6) handle calls; two contexts",
    cases=[dict(id=i, name="simple%d" % i) for i in range(4)] + [dict(id=4 + i, name="lists%d" % i) for i in range(4)] + [dict(id=10 + 2 * i + v, name=n + ("va" if v else "")) for i, n in enumerate(["quadrics", "points", "generalpolygon", "pointspolygons", "pointsgeneralpolygons", "patchmesh", "nupatch", "trimcurve", "subdiv", "curves", "blobby", "arrays"]) for v in (0, 1) if not (v and n == "trimcurve")]
        + [dict(id=40 + i, name=n) for i, n in enumerate(["basisscopes", "handles", "errors", "badtokens", "contexts", "record"])])])
