#!/usr/bin/env python3
"""Writes ../properties.jsonl (kept as a script so that the text is easy to review)."""
import json, os
F = ["homog2d.hpp"]
P = []
def prop(id, title, statement, over, qtext, why, mech, state=None, obs=None, hook=None):
    a = {"files": F, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if obs: a["observe_at"] = obs
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

prop("C01", "Running out of memory is reported, and harms nothing",
 "Whatever memory allocation fails during any operation, the operation either completes with exactly the result it gives when memory is plentiful, or it throws an exception. It never ends the process, returns a silently different or incomplete result, leaks memory or corrupts any object. The same operation repeated once memory is available again gives its normal result.",
 ["fault_sequences", "inputs"],
 "every operation of the public API, every allocation it performs (failing once, or failing from there on), for generated operands",
 "The tests run with memory always available; no allocation ever fails in them.",
 [("containers, strings and streams that own their memory; exceptions pass through all layers", "homog2d.hpp: whole file"),
  ("catch blocks that translate or absorb exceptions", "homog2d.hpp: getBB_CommonType, getBB(T1,T2), Circle_::set, svg::Visitor::VisitExit"),
  ("SVG text accumulated in a string stream", "homog2d.hpp: img::SvgImage::_svgString")],
 [("heap", "everything reachable from user objects", "homog2d.hpp: PolylineBase::_plinevec, Hmatrix_::_hmt, Ellipse_::p_impl")],
 ["returned values", "exceptions", "live allocations after the operation"])

prop("C02", "A failed operation leaves its operands as they were",
 "When an operation throws (because its arguments are invalid, its result is not representable, its input is malformed, or memory runs out), every object taking part still holds a usable value: the one it had before the call or, for the object being modified, the complete new one. All later operations on these objects give the results that value implies.",
 ["inputs", "histories", "fault_sequences"],
 "every modifying or querying operation that can throw, for every argument that makes it throw and every allocation in it that can fail, followed by any operations on the same objects",
 "The tests check that some calls throw; they never look at the operand afterwards, nor at calls interrupted half way.",
 [("arguments checked before state is changed", "homog2d.hpp: set(), moveTo(), translate(), rotate() of all types; inverse()/normalize() of Hmatrix_"),
  ("copy, then swap/assign", "homog2d.hpp: PolylineBase::set, Circle_::set")],
 None, ["exceptions", "values read from the operands after the throw"])

prop("C03", "Query results depend on an object's value, never on its history",
 "The result of any query on an object is determined by the value the object currently has, that is, by how it was built and the modifications made since. Which queries, comparisons, copies or failed operations took place earlier, and in which order, makes no difference, beyond the documented re-ordering of polyline points by normalisation and rounding error. The bounding box of a set of objects depends only on those that have one, not on their order in the set.",
 ["histories", "inputs"],
 "every sequence of construction, modification, comparison, copy, assignment and query operations on the objects of all types",
 "Caches and normalisation flags make the result depend on the sequence of calls; the tests use short fixed sequences, most often one query on a fresh object.",
 [("lazily computed polyline attributes, to be invalidated by every modifier", "homog2d.hpp: PolylineAttribs, PolylineBase::_attribs, _plIsNormalized"),
  ("lazily computed inverse-transpose of a transformation", "homog2d.hpp: Hmatrix_::_hmt, _hasChanged"),
  ("normalisation flags of matrices and ellipses", "homog2d.hpp: Matrix_::_isNormalized, Ellipse_::p_init, _epHasChanged, _par")],
 [("caches", "mutable members computed on first use", "homog2d.hpp: the members declared mutable")],
 ["return values of all const operations"])

prop("C04", "Threads working on their own objects never disturb each other",
 "When several threads use the library at the same time, each on objects of its own, then every thread gets exactly the results it would get alone, whatever the interleaving. No two threads ever access the same memory without synchronisation, one of them writing.",
 ["schedules", "inputs", "programs"],
 "all programs of two or more threads using disjoint objects, not changing the global settings and not asking for random colours (they use the process-wide C random generator), all interleavings of their memory accesses",
 "No test starts a thread.",
 [("all state lives in objects, except a few function-level statics", "homog2d.hpp: thr::*, err::*, DrawParams::p_getDefault, svgp::numberValues, getPointCmds"),
  ("per-call switch disabling the radius check", "homog2d.hpp: thr::doNotCheckRadius, Circle_::set")],
 [("process-wide statics", "counters, thresholds, lookup tables", "homog2d.hpp: err, thr, svgp namespaces")],
 ["return values", "memory accesses of each thread"])

prop("C05", "Concurrent read-only use of a shared object is safe",
 "When several threads call only read-only operations on shared objects, then each call gives the result it gives without concurrency, whatever the interleaving, and no thread writes memory another one accesses without synchronisation.",
 ["schedules", "inputs", "programs"],
 "all programs of two or more threads performing const operations on shared objects, all interleavings of their memory accesses",
 "No test starts a thread; const operations here write to caches.",
 [("const operations that fill mutable caches", "homog2d.hpp: PolylineBase (length, area, centroid, isSimple, ==, getOffsetPoly), Ellipse_ (==), Hmatrix_ (==, product with a line), IntersectM::get"),
  ("const operations that do not", "homog2d.hpp: the others")],
 [("caches", "mutable members", "homog2d.hpp: the members declared mutable")],
 ["return values", "memory accesses of each thread"])

prop("C06", "Writing an image file either stores the whole image or throws",
 "When writing an SVG image or a bitmap image to a file returns normally, the file holds the complete image, byte for byte what writing to a healthy disk gives. If any underlying file operation fails (the file cannot be created, the disk is full, a write is cut short, the final flush or close fails), the call throws; in both cases the image object itself is unchanged and can be written again.",
 ["fault_sequences", "inputs"],
 "every image content and size, every file operation performed during the call, every error it can report",
 "The tests write small images to a healthy disk and never look at the outcome of an I/O error.",
 [("stream state checked after writing", "homog2d.hpp: Image<SvgImage>::write"),
  ("result of the OpenCV writer", "homog2d.hpp: Image<cv::Mat>::write")],
 None, ["content of the file after return", "exceptions"])

prop("C07", "SVG drawing appends complete, valid markup, whatever came before",
 "Each drawing call adds to an SVG image exactly the markup of the drawn object: complete, well-formed XML with plain C-format numbers, the same whatever has been drawn before and whatever the program's locale, and in the order of the calls. When a call returns normally its markup is complete; when it throws, what earlier calls drew is still intact.",
 ["histories", "inputs", "configurations", "fault_sequences"],
 "all sequences of drawing calls on one image, all drawing parameters, all locales, any allocation failing",
 "The tests compare files drawn in one fixed sequence, under the default locale, with memory available.",
 [("drawing functions appending to the image's text", "homog2d.hpp: all draw(img::Image<img::SvgImage>&), draw_points, svg group handling"),
  ("number formatting through C++ streams", "homog2d.hpp: img::SvgImage::_svgString, getSvgRgbColor")],
 [("SVG text and its stream state", "accumulated markup, flags, locale and error state", "homog2d.hpp: img::SvgImage")],
 ["the text of the image", "the file written"])

prop("C08", "Importing a damaged SVG file never harms the program",
 "Whatever bytes an SVG file holds (cut short, corrupted, emptied or with elements in unexpected shapes), importing it either gives the elements that could be read or reports failure by an exception. It never crashes or aborts the program, reads or writes outside its data, or loops forever.",
 ["inputs", "fault_sequences"],
 "all corruptions of SVG files: truncation, bit flips, lost, repeated or swapped blocks, attribute and path-data mutations",
 "The tests import a few intact files.",
 [("parsing of attributes and path data", "homog2d.hpp: svg::Visitor::VisitExit, svgp::getNextElem, parsePath, generateNewPt, SvgValuesBuffer, importSvgPoints, parsePoints, parseTransform"),
  ("debug assertions that end the process", "homog2d.hpp: HOMOG2D_DEBUG_ASSERT")],
 None, ["process termination", "memory accesses", "number of steps"])

prop("C09", "Import of one SVG element does not depend on the others",
 "Importing an SVG document gives, in document order, exactly the objects that its elements give when each is imported alone. An element that is unsupported or not readable loses only itself; when an element on its own makes the import throw, importing the document throws too, and what was imported before it is what its predecessors give alone. No importer state survives from one element, file or import to the next.",
 ["inputs", "histories", "fault_sequences"],
 "all documents made of valid and damaged elements in any order, and all sequences of imports in one process",
 "The tests import a few valid files, each once.",
 [("per-element conversion with local error handling", "homog2d.hpp: svg::Visitor::VisitExit"),
  ("path parser state", "homog2d.hpp: parsePath, SvgValuesBuffer, getPointCmds")],
 [("importer state", "previous point, command buffer, lookup tables", "homog2d.hpp: svgp namespace")],
 ["the list of imported objects"])

prop("C10", "Objects drawn to SVG come back the same from import",
 "Circles, ellipses, rectangles, segments and polylines drawn into an SVG image, written to a file and imported again come back as the same list of objects, in the same order, with the same type and the same coordinates up to the printed precision. This holds for any sequence of drawings on one image and across repeated save and load.",
 ["histories", "inputs", "configurations"],
 "all sequences of drawings of the importable types with any style, any number of save/load cycles, any C++ locale of the program",
 "The tests check import and export separately on a few files; no test reads back what was drawn.",
 [("drawing", "homog2d.hpp: draw(img::Image<img::SvgImage>&) of each type"),
  ("import", "homog2d.hpp: svg::Visitor::VisitExit")],
 None, ["the list of imported objects"])

prop("C11", "Printing an object writes its text to the given stream and nowhere else",
 "Streaming any object writes one fixed text to that stream only: nothing appears on any other stream, the stream's formatting state is as before, and the object is not modified. If the stream fails after any number of characters, what it received is a prefix of that text, and printing again to a healthy stream gives the whole text.",
 ["fault_sequences", "inputs", "histories"],
 "every printable type and value, every position at which the stream starts to fail, any sequence of outputs to one stream",
 "The tests print to standard output without checking it; no stream ever fails.",
 [("operator<< of all types", "homog2d.hpp: operator<<, IntersectM, Line/Point, Matrix_, PolylineBase, printVector")],
 None, ["bytes received by each stream", "stream flags"])

prop("C12", "The error counter counts every reported error exactly once",
 "The process-wide error counter grows by exactly one for every error the library reports by throwing its runtime error, from whichever thread, whatever the interleaving; likewise the warning counter for every warning printed. No increment is lost, doubled or attributed to an operation that succeeded without reporting anything.",
 ["schedules", "programs", "inputs"],
 "all programs of one or more threads whose operations fail, all interleavings",
 "Single-threaded tests never look at the counter after more than one error and cannot see lost increments.",
 [("counters incremented where errors and warnings are raised", "homog2d.hpp: err::errorCount, err::warningCount, HOMOG2D_THROW_ERROR_1/2, HOMOG2D_LOG_WARNING")],
 [("error and warning counters", "process-wide counts", "homog2d.hpp: namespace err")],
 ["counter values before and after"])

prop("C13", "The minimum enclosing circle does not depend on the random sequence",
 "Computing the minimum enclosing circle of a set of distinct points gives, for every outcome of the random number generator and every order of the points, the same smallest circle containing all of them. It always terminates normally.",
 ["inputs", "schedules"],
 "all sets of at least two distinct points, all outcomes of the pseudo-random generator used by the algorithm, all orders of the points",
 "The tests run one random sequence (the C library's default) on a few sets.",
 [("randomised recursive construction", "homog2d.hpp: priv::WelzlHelper, minCircle_trivial, Circle_::set(container)"),
  ("random source", "homog2d.hpp: std::rand in WelzlHelper")],
 None, ["center and radius", "exceptions"])

prop("C14", "No operation changes the process-wide settings",
 "The numerical thresholds, the default drawing parameters, the warning switch, the locale, the formatting of the standard streams and the validity checks applied to user values are the same after any operation as before it, whether it returned or threw, unless that operation is the one documented to set them. Values set by the user stay in force, in every source file of the program, until set again.",
 ["histories", "fault_sequences", "inputs"],
 "all sequences of operations, including those that throw at any point or run out of memory",
 "The tests do not re-read the settings after other operations, least of all after operations that fail half way.",
 [("temporarily disabled radius check", "homog2d.hpp: Circle_::set(container), thr::doNotCheckRadius"),
  ("settings held in function-level statics", "homog2d.hpp: thr::*, err::printWarnings, DrawParams::p_getDefault")],
 [("settings", "thresholds, default draw parameters, flags", "homog2d.hpp: thr, err, img::DrawParams")],
 ["settings read before and after", "acceptance of invalid radii"])

prop("C15", "Every operation ends after a bounded amount of work",
 "Every operation on finite input ends, by returning or throwing, within a number of steps bounded by a polynomial in the size of its input, whatever the values, the random sequence, the damage to imported files and the memory allocations that fail. The stack space it needs does not grow with the size of its input.",
 ["inputs", "schedules", "fault_sequences"],
 "all operations with ordinary, degenerate, huge and tiny operands, all random sequences, damaged files",
 "The tests run selected values; retry loops and randomised algorithms are bounded for these only.",
 [("point-in-polygon retry loop", "homog2d.hpp: PolylineBase isInside, HOMOG2D_MAXITER_PIP"),
  ("recursive algorithms", "homog2d.hpp: WelzlHelper, convexHull, rectangle union"),
  ("parsing loops", "homog2d.hpp: parsePath, getNextElem, parsePoints")],
 None, ["number of simulated steps of the operation"])

prop("C16", "Random colours are valid for every clock and random sequence",
 "Generating a set of random colours gives exactly the requested number of colours, each component within the requested range, whatever the clock shows and whatever the random generator returns. For the same clock and generator the result is the same.",
 ["schedules", "inputs"],
 "all clock values, all outputs of the C pseudo-random generator including its extremes, all requested counts and ranges",
 "The extremes of the random generator practically never come up in a test, and no test checks the generated colours.",
 [("scaling of random values into the range", "homog2d.hpp: img::genRandomColors")],
 None, ["returned colours"])

prop("C17", "Results are reproducible",
 "The same sequence of operations on the same values gives bit for bit the same results in every run: they do not depend on what memory held before, on where objects are placed, on the clock, or on unrelated objects and threads (random colours excepted, which follow the clock).",
 ["inputs", "histories", "configurations", "programs"],
 "all sequences of operations, all prior contents and placements of memory, all clocks",
 "A test sees one memory layout and content; uninitialised or address-dependent values often happen to be right.",
 [("initialisation of every member on every construction path", "homog2d.hpp: all constructors"),
  ("value-based ordering only", "homog2d.hpp: sorts, sets and maps of points, segments and indexes")],
 None, ["return values", "printed and drawn text"])

prop("C18", "Arguments may be parts of the object they are applied to",
 "Every operation gives the same result whether its arguments are separate objects or (parts of) the very objects it modifies or reads: an object passed twice or assigned to itself, a polyline's own points or a circle's own centre given to the functions that move, rotate or rebuild it, act exactly as copies of them would.",
 ["histories", "inputs", "programs"],
 "all operations with two operands of one type, all modifying operations that take a point or value the object gives a reference to, after any history",
 "The tests always pass separate objects; an argument changed half-way by the operation itself gives a wrong result, without an error, only for such calls.",
 [("references to parts of an object", "homog2d.hpp: Circle_::center(), radius(), PolylineBase::getPts(), Matrix_::getRaw()"),
  ("modifications reading their arguments after a first change", "homog2d.hpp: Circle_::set(), PolylineBase::rotate(), moveTo(), set(), setParallelogram()"),
  ("assignments", "homog2d.hpp: operator=")],
 None, ["return values", "values of the objects after the call"])

NA = [
 ("P01", "Homographies compose, invert and transform consistently", "Applying a product of transformations equals applying them one after the other, the inverse undoes the transformation, and the builders (translation, rotation, scale, from point pairs) produce the documented mapping, up to rounding.", "Hmatrix_, operator*, inverse, buildFrom4Points, buildFrom2Points"),
 ("P02", "Intersections are found, complete and lie on both objects", "For any two objects, the intersection test is symmetric, and every reported point lies on both objects within tolerance; no crossing is missed or reported twice.", "intersects() of all types"),
 ("P03", "Containment is consistent between all pairs of types", "An object reported inside another has all its points inside it, and the relation is consistent with intersection and area.", "isInside() of all types"),
 ("P04", "Distances and angles are metric and symmetric", "Distances are symmetric, non-negative, zero exactly on incidence and satisfy the triangle inequality; angles are within [0,pi/2] and symmetric.", "distTo, dist, getAngle"),
 ("P05", "Area, length and centroid match the geometry", "Areas, lengths and centroids equal those of the geometric figure and follow translations, rotations and scalings.", "area, length, size, centroid"),
 ("P06", "Bounding boxes enclose, and enclose tightly", "The bounding box of one or several objects contains them all and touches them on its four sides.", "getBB, getBB_CommonType"),
 ("P07", "The convex hull is convex, encloses the points and uses only them", "The convex hull of a set of points is a convex polyline through some of them with all the others inside or on it.", "convexHull"),
 ("P08", "Rectangle union, intersection and IoU are exact", "Union and intersection of two rectangles cover exactly the right points, their areas add up, and IoU lies within [0,1].", "unionArea, intersectArea, IoU, runion"),
 ("P09", "Ellipse parameters, axes and boxes agree", "Center, axes, angle, bounding boxes and membership of an ellipse describe the same curve, also after a transformation.", "Ellipse_"),
 ("P10", "Polyline equality is equality of the figure", "Two closed polylines are equal exactly if they have the same points up to rotation and direction, two open ones up to direction.", "PolylineBase::operator==, p_normalizePoly"),
 ("P11", "Run-time polymorphism gives the results of the concrete type", "Calling an operation through the common base or through a variant gives the result of calling it on the concrete object.", "rtp::Root, fct::*, CommonType_"),
 ("P12", "Conversion between numeric types and foreign types keeps values", "Objects converted between float, double and long double or to and from other libraries' types keep their coordinates up to the precision of the narrower type.", "conversion constructors, getPt, homog2d_bind"),
 ("P13", "Ill-typed uses are rejected at compile time", "Operations that make no sense for a type (area of a line, drawing with a missing back end, ...) do not compile.", "static_asserts, misc/no_build"),
 ("P14", "Constructed lines and segments have the requested relation", "Lines and segments built as orthogonal, parallel, bisecting, tangent or at an angle or distance have that relation to the object they were built from.", "getOrthogonalLine, getParallelLines, getBisector, getTanSegs, ..."),
 ("P15", "Polyline simplification and offsetting keep the figure", "Removing redundant points does not change the figure, and an offset polyline has its sides at the requested distance.", "minimize, getOffsetPoly"),
]
for id, title, st, where in NA:
    prop(id, title, st, ["inputs"], "all operand values",
         "The tests check chosen values; the statement is about all of them.",
         [("numerical implementation", "homog2d.hpp: " + where)])
here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
for p in P:
    assert len(p["title"]) <= 80, p["id"]
print(len(P), "properties")
