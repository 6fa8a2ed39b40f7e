prop("C01", "Binary RIB tokens decode to exactly the values their bytes encode",
 "For every byte sequence that is a binary-encoded RIB integer, fixed-point number, 32- or 64-bit float, short or long string, encoded request, defined string or float array, the tokenizer yields a token of that kind with exactly the encoded value, wherever in the stream it lies, and consumes exactly its bytes. Undefined or reserved codes yield an error token or are skipped without any memory error, and putting a token back or peeking at it does not change what is read next.",
 ["inputs"], "all byte values of each encoding, all string lengths and table codes within the bounds", "the unit tests decode a handful of fixed byte strings; values, lengths and codes are 2^32-sized spaces",
 ["libs/riutil/ribtokenizer.cpp", "libs/riutil/ribinputbuffer.cpp", "libs/riutil/ribtoken.h"], [("binary token decoding", "libs/riutil/ribtokenizer.cpp"), ("buffered character input", "libs/riutil/ribinputbuffer.cpp")])
prop("C02", "ASCII RIB text is split into the tokens its grammar prescribes",
 "Every ASCII RIB text is read as the sequence of integers, floats, strings, requests, array brackets and comments that the RIB grammar gives, with white space and comments ignored and each delimiter starting the next token; integers have their decimal value, floats the nearest value of their decimal text up to rounding, strings their exact bytes. Malformed text gives an error token and reading continues behind it.",
 ["inputs"], "all texts within the bounds", "the tests check a few dozen fixed texts; any interaction of digits, signs, delimiters and string escapes can go wrong",
 ["libs/riutil/ribtokenizer.cpp", "libs/riutil/ribinputbuffer.h"], [("ASCII scanning", "libs/riutil/ribtokenizer.cpp")])
prop("C03", "RIB input delivers every byte once with true line and column",
 "Whatever the size of the input and however many bytes each read from the underlying stream returns, the RIB reader sees every byte of the stream exactly once and in order, and the line and column it reports for each token are those of the token's first character. Reading a nested stream and coming back resumes the outer stream exactly where it stopped.",
 ["inputs", "schedules"], "all short streams, all bytes around the internal buffer boundaries, all read schedules within the bounds", "the tests use short streams that never cross a buffer boundary with line ends on it",
 ["libs/riutil/ribinputbuffer.cpp", "libs/riutil/ribinputbuffer.h", "libs/riutil/ribtokenizer.cpp"], [("ring buffer and position tracking", "libs/riutil/ribinputbuffer.h")])
prop("C04", "RIB written by the RIB writer reads back as the same interface calls",
 "Any sequence of renderer interface calls sent through the RIB writer, binary or ASCII, and read back by the RIB parser gives the same calls in the same order with the same arguments: integers, float values, strings, arrays, bases, filter and procedural names, and parameter lists with their type, name and values, whether or not the parameter names were declared.",
 ["inputs", "histories"], "every request of the interface with all argument values within the bounds", "the tests compare a few fixed calls with fixed text; they never read the writer's output back, and never in binary",
 ["libs/riutil/ribwriter.cpp", "libs/riutil/ribparser.cpp", "libs/riutil/riblexer.cpp", "libs/riutil/primvartoken.cpp", "libs/riutil/tokendictionary.cpp"], [("formatting", "libs/riutil/ribwriter.cpp"), ("request handlers", "libs/riutil/ribparser.cpp")],
 note="ASCII strings are printable characters other than quote and backslash; ASCII floats are a fixed set (printf is not encoded).")
prop("C05", "The RIB parser delivers well-formed requests and reports malformed ones once",
 "For every token stream the RIB parser calls the renderer interface with exactly the well-formed requests in it, in order, with the arguments as given. Each malformed request (wrong argument kind, missing argument, bad parameter list, unknown name, truncated stream) is skipped whole and reported exactly once, and no token stream makes the parser crash, read out of bounds or lose the requests that follow the malformed one.",
 ["inputs"], "all token streams within the bounds", "tests cover one malformed example or none per request; error recovery depends on every combination of request shape and stray token",
 ["libs/riutil/ribparser.cpp", "libs/riutil/riblexer.cpp", "libs/riutil/riblexer.h"], [("error recovery", "libs/riutil/ribparser.cpp"), ("array buffers and parameter lists", "libs/riutil/riblexer.cpp")])
prop("C06", "Primitive variable declarations are parsed, stored and printed faithfully",
 "A declaration text '[class] type [\"[\" n \"]\"] [name]' is accepted exactly when it is well formed, in any letter case and spacing, with class uniform and array size 1 as defaults, and gives exactly the stated class, type, array size and name; anything else throws a validation error. Printing a token and parsing it again gives the same token, element counts follow the type and array size, and a token dictionary returns the latest declaration of a name, with an inline declaration taking precedence.",
 ["inputs", "histories"], "all declaration texts and dictionary histories within the bounds", "the space of texts is unbounded; the tests parse around ten of them",
 ["libs/riutil/primvartoken.cpp", "libs/riutil/tokendictionary.cpp", "include/aqsis/riutil/primvartoken.h"], [("declaration parser", "libs/riutil/primvartoken.cpp"), ("dictionary", "libs/riutil/tokendictionary.cpp")])
prop("C07", "Conditionals, inline archives and objects expand to exactly the right calls",
 "For every sequence of IfBegin, ElseIf, Else, IfEnd, ArchiveBegin, ArchiveEnd, ReadArchive, ObjectBegin, ObjectEnd and ObjectInstance calls, the interface filter passes on exactly the calls of the taken branches, replays the latest recorded body of an archive or object at each use, at the nesting depth and with the conditions in force at the use, and never lets a stray or unbalanced call crash the renderer or leak calls that were to be recorded or skipped.",
 ["histories", "inputs"], "all call histories within the bounds and all truth values", "the tests run fewer than ten fixed histories; the filter is a state machine with a stack, so errors need particular nestings",
 ["libs/riutil/renderutil_filter.cpp", "libs/riutil/ricxx_cache.h", "libs/riutil/errorhandler.h"], [("condition stack, archive cache and replay", "libs/riutil/renderutil_filter.cpp")])
prop("C08", "Interface filters and cached archives pass calls on unchanged",
 "A renderer interface call recorded in an inline archive or object and replayed later, or passed through any of the pass-through, tee, on/off, ignore-archives and frame-selection filters, arrives with exactly the same arguments and parameter list, even after the caller's memory has gone; a tee delivers it once to each side, and frame selection forwards exactly the calls outside frames and inside the chosen frames.",
 ["inputs", "histories"], "every interface call with all argument values within the bounds", "tests replay a handful of calls with fixed arguments; there are over a hundred calls, each with its own argument copying",
 ["libs/riutil/ricxx_cache.h", "libs/riutil/renderutil_filter.cpp", "libs/riutil/tee_filter.cpp", "libs/riutil/framedrop_filter.cpp", "libs/riutil/ricxx_filter.cpp"], [("cached requests", "libs/riutil/ricxx_cache.h"), ("tee", "libs/riutil/tee_filter.cpp"), ("frame selection", "libs/riutil/framedrop_filter.cpp")])
prop("C09", "The validating filter passes on exactly the calls the interface rules allow",
 "Whatever blocks are open and whatever the arguments, the validating filter passes an interface call on unchanged exactly when the call is allowed in the innermost open block, its numeric arguments are in range and its arrays and primitive variables have at least the length the call requires (as given by the interface description ri.xml); otherwise it raises a validation error, passes nothing on and judges later calls as if the call had not been made. Inside an inline archive blocks are not tracked, and a filter created with relaxed outer scope accepts any call in the outermost scope.",
 ["inputs", "histories"], "all block histories, argument values and array lengths within the bounds", "over a hundred calls with per-call rules, of which the tests exercise a few",
 ["libs/riutil/ricxx_validate.cpp", "include/aqsis/riutil/ricxxutil.h", "libs/riutil/ri.xml"], [("scope stack, range and length checks", "libs/riutil/ricxx_validate.cpp"), ("class counts", "include/aqsis/riutil/ricxxutil.h")])
prop("C10", "Rounding and power-of-two helpers and random sequences are exact",
 "For every float, lfloor, lceil, lround and round give the largest integer not above, the smallest not below and a nearest integer (lfloor and lceil also for doubles); ceilPow2 gives the smallest power of two not below its argument; clamp, min and max select correctly. Reseeding the random generator restarts exactly the MT19937 sequence of that seed whatever was drawn before, and low-discrepancy points are distinct and lie in [0,1).",
 ["inputs", "histories"], "all floats up to 2^30 in magnitude, all 32-bit integers, the stated seeds and indices", "the tests check about thirty values; negative fractions, exact integers and values near one half are easily mishandled",
 ["include/aqsis/math/math.h", "libs/math/random.cpp", "libs/math/lowdiscrep.cpp"], [("rounding", "include/aqsis/math/math.h"), ("Mersenne twister", "libs/math/random.cpp")])
prop("C11", "Matrix operations implement the transforms they name",
 "Products, transposes, sums, determinants and inverses of CqMatrix (and SqMatrix2D) are those of linear algebra, whether or not a matrix is marked as identity; points are transformed as row vectors with division by the homogeneous coordinate; Scale, Translate, Shear and Rotate append the named transform; vectors ignore translation and transformed normals stay perpendicular to transformed tangents; dot, cross, interpolation and homogenisation of vectors are the mathematical ones.",
 ["inputs"], "all matrices and vectors within the bounds, in real arithmetic", "each of the sixteen elements is a separate hand-written formula that a few test matrices do not distinguish",
 ["include/aqsis/math/matrix.h", "libs/math/matrix.cpp", "include/aqsis/math/matrix2d.h", "include/aqsis/math/vector3d.h", "include/aqsis/math/vector4d.h"], [("matrix operations", "libs/math/matrix.cpp")], note="Real arithmetic: rounding is not modelled, counterexamples must miss by more than a tolerance.")
prop("C12", "Bounding boxes contain what they bound and are no larger than needed",
 "Growing a bound by a point or another bound gives the smallest box containing both, also when starting from the empty bound; containment and intersection queries agree with the coordinates; transforming a bound gives exactly the box of its eight transformed corners.",
 ["inputs"], "all boxes, points and affine transforms within the bounds", "culling and bucket assignment rely on it for every coordinate combination; a wrong corner or comparison shows only for particular orientations",
 ["libs/core/bound.cpp", "libs/core/bound.h"], [("bounds", "libs/core/bound.cpp")])
prop("C13", "Surfaces seen at a pixel sample are composited in depth order",
 "Whatever surfaces are seen at a pixel sample and in whatever order they are sampled, the combined colour and opacity are those of compositing them front to back by depth, a matte surface hiding what lies behind it and adding nothing; the combined depth follows the chosen depth filter (nearest, farthest, midpoint of the two nearest, or average of the surfaces whose own opacity reaches the threshold). Each sample keeps its own data, empty samples stay empty, and a cleared pixel starts empty.",
 ["inputs"], "all colours, opacities and depth orders within the bounds, in real arithmetic", "the result depends on every ordering and combination of opacity, matte and filter; the tests have none of it",
 ["libs/core/imagepixel.cpp", "libs/core/imagepixel.h"], [("compositing and depth filters", "libs/core/imagepixel.cpp")])
prop("C14", "Solid modelling leaves exactly the walls of the combined solid",
 "For any tree of union, intersection and difference over closed solids seen from outside, and any order in which a ray crosses their walls, exactly those walls remain where the ray enters or leaves the combined solid; walls of other trees and surfaces outside any solid are untouched.",
 ["inputs", "histories"], "all trees and wall sequences within the bounds", "the inside/outside state depends on every wall crossed before; no test covers it",
 ["libs/core/csgtree.cpp", "libs/core/csgtree.h"], [("CSG resolution", "libs/core/csgtree.cpp")], note="Cameras inside a solid are outside the property.")
prop("C15", "Pixel sampling patterns are stratified and cover the shutter",
 "For every outcome of the random draws, the jittered and the grid samplers put exactly one sample point in each cell of the pixel's sample grid, inside the pixel (with jittering, also one in each row and each column of the finer n by n grid); with n samples the sample times lie in [0,1), one in each n-th of the shutter interval and apart from each other, and the shuffled sample indices are a permutation.",
 ["inputs"], "all random draws within the bounds", "the pattern depends on hundreds of random draws; the tests look at none",
 ["libs/core/multijitter.cpp", "libs/core/grid.cpp"], [("jittered pattern", "libs/core/multijitter.cpp"), ("grid pattern", "libs/core/grid.cpp")])
prop("C16", "Pixels show the filtered colours of the visible micropolygons",
 "For any set of micropolygons, image and crop window size, bucket size and order, sample counts and filter width, every pixel of the crop window is displayed exactly once, with the filter-weighted colour and opacity (times the exposure gain) of what its samples see: each sample sees exactly the micropolygons that contain it, in whatever vertex order or shape, composited by depth with values interpolated over the micropolygon; the depth channel is the depth of the visible opaque surfaces under the chosen depth filter and infinite where nothing is seen. The result does not depend on how the image is split into buckets or on the order in which micropolygons arrive.",
 ["inputs", "schedules"], "all values within the bounds, over whole small images", "bucket overlap, caching, culling and filtering interact; an error shows only for particular sizes or orders, and no test renders anything",
 ["libs/core/bucketprocessor.cpp", "libs/core/imagebuffer.cpp", "libs/core/micropolygon.cpp", "libs/core/imagepixel.cpp", "libs/core/occlusion.cpp", "libs/core/bilinear.h", "libs/core/optioncache.cpp"], [("bucket processing", "libs/core/bucketprocessor.cpp"), ("bucket layout and assignment", "libs/core/imagebuffer.cpp"), ("hit test and interpolation", "libs/core/micropolygon.cpp")], note="Real arithmetic; static micropolygons, regular sample grid; alpha and coverage channels are outside.")
prop("C17", "Motion blur and depth of field sample surfaces at each sample's time and lens",
 "With the shutter open for an interval, each pixel sample sees every moving micropolygon or point exactly where it is at the sample's time: between two motion keys at the linear interpolation of their positions, sizes and depths, before the first and after the last at that key, whatever the keys' times and however far it moves; with depth of field each sample sees each surface shifted by the circle of confusion of its depth times the sample's lens position. Hits are composited by their depth at that time; nothing visible is culled and nothing is counted twice.",
 ["inputs", "schedules"], "all motions and sizes within the bounds, over whole small images", "bounds in time and lens position are used to skip samples: an error shows only for particular motions, key times or lens regions, and no test renders anything",
 ["libs/core/bucketprocessor.cpp", "libs/core/micropolygon.cpp", "libs/core/geometry/points.cpp", "libs/core/imagepixel.cpp", "libs/core/renderer.cpp"], [("moving and out of focus sampling", "libs/core/bucketprocessor.cpp"), ("moving micropolygons", "libs/core/micropolygon.cpp"), ("moving points", "libs/core/geometry/points.cpp")], note="Real arithmetic; regular sample grid; samples within 0.002 of an edge and depth ties are excluded.")
prop("C18", "Compiled shaders do at every shading point what their source says",
 "For every shader built from the shading language's expressions, assignments, conditionals, loops with break and continue, arrays, casts and functions with output parameters, and for any values of its inputs, compiling it with aqsl and running it over a grid gives, at each shading point, exactly the result of executing the source text for that point alone: points that take different branches or leave loops at different turns never disturb each other, and uniform and varying operands may be mixed freely.",
 ["inputs"], "all input values, for a family of programs covering each statement and operator", "one SIMD run must equal many scalar ones for every combination of branches taken; the tests run no shader",
 ["libs/slcomp", "libs/shadervm/shadervm.cpp", "libs/shadervm/shadervm1.cpp", "libs/shadervm/shaderstack.cpp", "libs/util/bitvector.cpp", "libs/shadervm/shadervariable.h"], [("code generation", "libs/slcomp/backend/vmoutput.cpp"), ("opcodes", "libs/shadervm/shadervm1.cpp"), ("running state", "libs/util/bitvector.cpp")], note="The compiler runs natively on fixed program texts; its output runs symbolically. Real arithmetic.")
prop("C19", "Built-in shader functions return the value the language defines",
 "The built-in functions of the shading language (component access, min/max/clamp/mix/step/smoothstep, rounding and mod, dot and cross products, length, distance and normalize, reflect, faceforward, ptlined, splines under their named bases, matrix and space transformations of points, vectors and normals, derivatives) return, at every active point of the grid and for any uniform or varying arguments, the value their definition gives, and leave inactive points untouched.",
 ["inputs"], "all argument values within the bounds", "each function has case distinctions and a uniform/varying split that only particular arguments reach; the tests call none",
 ["libs/shadervm/shaderexecenv/shadeops_math.cpp", "libs/shadervm/shaderexecenv/shadeops_comp.cpp", "libs/shadervm/shaderexecenv/shadeops_deriv.cpp", "libs/shadervm/shaderexecenv/shadeops_matrx.cpp", "include/aqsis/math/spline.h", "include/aqsis/math/derivatives.h"], [("math functions", "libs/shadervm/shaderexecenv/shadeops_math.cpp"), ("derivatives and splines", "libs/shadervm/shaderexecenv/shadeops_deriv.cpp"), ("matrix functions", "libs/shadervm/shaderexecenv/shadeops_matrx.cpp")], note="Real arithmetic; trigonometric functions, noise, lights and textures are outside.")
prop("C20", "Image buffers copy, convert and composite pixel regions exactly",
 "Copying a region between image buffers of any channel types puts each source pixel at its place, converted to the nearest value of the destination's type (least to least, greatest to greatest, floats clamped to [0,1]), and touches no pixel or channel outside the region or the channel mapping; compositing a region over another leaves source + (1 - source alpha) * destination. Channel lists keep the types, sizes and offsets of their channels, also when brought into display order.",
 ["inputs"], "all pixel values, channel types, sizes and offsets within the bounds", "conversions go wrong at the ends of the range, and regions at their borders; the tests look at a few values of a few types",
 ["include/aqsis/tex/buffers/imagechannel.h", "libs/tex/buffers/imagechannel.cpp", "libs/tex/buffers/mixedimagebuffer.cpp", "include/aqsis/tex/buffers/channellist.h"], [("channel conversion", "include/aqsis/tex/buffers/imagechannel.h"), ("region copy and composite", "libs/tex/buffers/mixedimagebuffer.cpp")], note="32-bit integer channels are converted through floats, so they are checked to float precision.")
prop("C21", "Texture filtering sees each pixel of its support once, wrapped as asked",
 "Filtering a texture (whole or tiled) over any support uses every pixel position of the support exactly once, with the pixel that the wrap mode of each direction assigns to positions outside the image (black, periodic, clamp), or only the positions in the image without wrapping; tiles are read once, cut at the image's edge. Stochastic filtering takes as many samples as asked for, all inside. Averages are weighted and normalised as the filter says, missing channels get the fill value, depth comparisons respect the shadow biases, and each mipmap level is half the size of the last (rounded up), down to one pixel, each pixel the filtered average of those under it.",
 ["inputs"], "all supports, image and tile sizes, wrap modes and pixel values within the bounds, every sequence of random numbers", "wrapping goes wrong where the support leaves the image over a corner or by more than one image; the tests filter inside the image",
 ["include/aqsis/tex/filtering/filtertexture.h", "include/aqsis/tex/filtering/sampleaccum.h", "include/aqsis/tex/buffers/texturebuffer.h", "include/aqsis/tex/buffers/tilearray.h", "libs/tex/maketexture/downsample.h", "libs/tex/filtering/cachedfilter.cpp"], [("wrapping", "include/aqsis/tex/filtering/filtertexture.h"), ("tiles", "include/aqsis/tex/buffers/tilearray.h"), ("averages", "include/aqsis/tex/filtering/sampleaccum.h"), ("mipmap reduction", "libs/tex/maketexture/downsample.h")], note="Real arithmetic. Wrap mode 'trunc' is left out: it is not defined for supports.")
prop("C22", "Calls of the C interface arrive as the same calls of the C++ interface",
 "Every call made through the C interface of ri.h, in its vector or its variable-argument form, arrives at the renderer exactly once as the same call with the same arguments: arrays have the lengths that the call's counts imply, and every parameter has its declared name, class and type and as many values as its class has on that primitive, given the basis steps in force in the current attribute scope. A handle stands for the light or object it was returned for until the frame or world it was made in ends, and is refused afterwards; contexts do not share state. An undeclared parameter or a failing call is reported once, does not escape as an exception, and does not disturb later calls.",
 ["inputs", "histories"], "all arguments of all calls, all parameter classes and types, all programs of scope, basis and handle calls within the bounds", "lengths are implicit in the C interface: an error of one value reads past the caller's array only for particular shapes; there are no tests",
 ["libs/riutil/ri2ricxx.cpp", "include/aqsis/riutil/ricxxutil.h", "include/aqsis/ri/ri.h"], [("calls and parameter lists", "libs/riutil/ri2ricxx.cpp"), ("class counts", "include/aqsis/riutil/ricxxutil.h")])
prop("C23", "Splitting, dicing and moving surfaces keep their shape and variables",
 "Whatever its control values, bases, wrapping, knots and orders, splitting a patch, patch mesh, NURBS surface, polygon or polygon mesh yields pieces that exactly cover it, each having at every parameter value the position and the primitive variables of the whole: vertex values of the surface's own kind, varying and face-varying values bilinear over the corners, uniform and constant values unchanged, for every type and for array variables. Pieces of a surface that had to be split may be diced again. Patch meshes give one patch for each part, and polygon meshes one polygon for each face whose indices are valid, with the standard's values and default u, v, s and t. Dicing yields at every grid point the value of the surface there; bounds enclose the surface; moving a surface to another space transforms points, vectors, normals and homogeneous points by their own matrices and leaves the rest alone.",
 ["inputs"], "all control values, with all types, classes, bases, wrap modes, orders, knot forms and split directions within the bounds", "errors show only for some types, classes, bases or knots; nothing tests geometry",
 ["libs/core/geometry/patch.cpp", "libs/core/geometry/nurbs.cpp", "libs/core/geometry/nurbs.h", "libs/core/geometry/surface.cpp", "libs/core/geometry/surface.h", "libs/core/geometry/polygon.cpp", "libs/core/geometry/polygon.h", "libs/core/parameters.h", "libs/core/bilinear.h", "libs/core/forwarddiff.h"], [("patches and meshes", "libs/core/geometry/patch.cpp"), ("NURBS", "libs/core/geometry/nurbs.cpp"), ("polygons", "libs/core/geometry/polygon.cpp"), ("variables", "libs/core/parameters.h")], note="Real arithmetic. Curves, quadrics, subdivision surfaces and blobbies are outside, and so are polygons that are not convex, and face-varying variables of patch meshes. Rational bilinear and bicubic patches are a known finding.")
prop("C24", "A surface that is visible anywhere in the image is drawn",
 "A surface posted to the image buffer is drawn, whole or after being split, in every pixel where it is in front: it is skipped only if its bound lies outside the crop window (widened by the filter) or the clipping range, or if in every bucket it touches each sample within its bound is covered by something opaque and nearer. So the image is the one that all surfaces together define, whatever their sizes and depths, however they overlap buckets, and whichever of them are culled or handed on to later buckets.",
 ["inputs", "histories"], "all depths and edges of a surface, over all arrangements of hiders, buckets, samples and crop windows within the bounds", "a wrong cull needs a particular arrangement of buckets, depths and sample counts, and loses a surface silently; no test renders anything",
 ["libs/core/occlusion.cpp", "libs/core/imagebuffer.cpp", "libs/core/bucketprocessor.cpp", "libs/core/bucket.cpp"], [("occlusion tree", "libs/core/occlusion.cpp"), ("bound culling, posting, handing on", "libs/core/imagebuffer.cpp"), ("surface rendering", "libs/core/bucketprocessor.cpp")], note="Real arithmetic; still surfaces, no depth of field, no solids, orthographic camera.")
