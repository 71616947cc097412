"""Per-property harness, engine sources it needs (an optimisation: all sources are used when they do not suffice) and budgets."""
SCHED = dict(src="sched.cpp", config="asan",
             state_is="schedule (sequence of scheduling decisions) of one execution of the real code",
             assumptions=["scheduling points at pthread mutex/condition/create/join calls and inside the loop bodies/tasks; sequentially consistent memory; plain data races between them are caught by the free-running ThreadSanitizer pass"])


def sched(cid, bounds):
    d = dict(SCHED, bounds=bounds)
    d["harnesses"] = [dict(SCHED, cflags=[f'-DCHECK="{cid}"']), dict(SCHED, config="tsan", cflags=[f'-DCHECK="{cid}"', "-DFREE"])]
    return d


CHECKS = {
    "C01": sched("C01", "workers 0..3; ranges 0..5 at deviation bound 2..4 (thorough 3..5), nested 3x2 at bound 2..3; all sizes -2..130 x chunkings at bound 0"),
    "C02": sched("C02", "workers 0..3, items 0..6, buffer 1..3, deviation bound 2..4 (thorough 3..5); start index -40..5 x items 0..40 x buffer 1..9 at bound 0"),
    "C03": sched("C03", "workers 0..3, tasks 0..4 (+ tasks queued by tasks), deviation bound 2..4 (thorough 3..5)"),
}
_TIME = "Not built: model checking applies (bounded enumeration of inputs against a drawn oracle, as for the neighbouring properties), but the session's time went to the other checks; nothing is claimed for it."
NA = {
    "C05": "The command line slices once per process, and so does the front end's connection (ArcusCommunication stops after the first slice; the process is started anew), so that histories of slices in one process cannot be produced with the built configuration: FffProcessor, its G-code writer and the estimates are singletons that are never reset by design.",
    "C11": _TIME, "C12": _TIME, "C29": _TIME, "C39": _TIME,
}
CHECKS["C15"] = dict(src="booleans.cpp", state_is="result outlines of one operation on the real code",
                     bounds="all pairs of 3x3 pixel images x 7 embeddings (thorough: also an eighth of all pairs of 4x3 images), all pairs of 8-triangle images x 7 embeddings, offsets of all 3x3 and 4x3 images and of all triangle images, clipping of rows/columns/rings and of bent, closed and mixed cutting lines by all 3x3 images")
CHECKS["C16"] = dict(src="points.cpp", state_is="outline set on which every query of the lattice was answered by the real code",
                     bounds="all 3x3 images x 7 embeddings and 4x3 images x query lattice of quarter cells (and neighbouring microns at vertices) x distances; all simple polygons of up to 4 (thorough 6) vertices on a 3x3 lattice; all pairs of 3x2 images for overlap and box clipping")
CHECKS["C17"] = dict(src="parts.cpp", state_is="outline set taken apart by the real code",
                     bounds="all 3x3 images x 7 embeddings x start/touching variants, all 4x4 images, all point-symmetric 5x5 images, 7x7 images symmetric about both axes (4 nesting levels), pairs of 3x3 images overlapping in one layer x union settings")
CHECKS["C18"] = dict(src="simplify.cpp", state_is="simplified line returned by the real code",
                     bounds="all closed and open lines of up to 5 (thorough 6) vertices on a 3x3 lattice x 4 embeddings x 6 limit sets (n=5 on three quarters in the quick tier, n=6 on a quarter of those pairs), all lines of varying width of up to 4 (thorough 5) vertices x 3 width steps; batches of two lines")
CHECKS["C19"] = dict(src="stitch.cpp", state_is="stitched result (open and closed lines) returned by the real code",
                     bounds="all pairs of lines of 2 or 3 points between 9 points with near-coincident ones x 4 distance settings x 3 offsets x odd/even walls; a residue class (thorough: all or a larger one) of all triples and quadruples of lines")
CHECKS["C20"] = dict(src="grids.cpp", state_is="set of cells visited for one line, or grid contents answered on every query",
                     bounds="cells along all lines between points of a 35x35 (thorough 53x53) lattice around the origin x 4 cell sizes and long lines x 3 cell sizes; all placements of up to 3 points on a 7x7 lattice x queries x radii x vetoes; all placements of one line and chained pairs on a 5x5 lattice x queries")
CHECKS["C21"] = dict(src="linalg.cpp", state_is="relative position class (orientation, order, incidence, lengths) of the points of one query",
                     bounds="all pairs and triples of points on a 7x7 (thorough 10x10; triples 5x5/7x7) lattice and all quadruples on a 5x5 (thorough 7x7) lattice x 8 embeddings, plus lines of very unequal length; all divisions, angles and comparisons of small numbers")
CHECKS["C36"] = dict(src="graphs.cpp", state_is="partition with its representatives, or spanning tree, returned by the real code",
                     bounds="all sequences of up to 3..6 (thorough 4..7) operations (add, unite by handles, unite by representatives) on up to 6 (thorough 7) elements; all point sets of a 3x3 and a 4x3 lattice and those of up to 5 (thorough: all) points of a 4x4 lattice x 6 embeddings x 3 orders")
CHECKS["C37"] = dict(src="voxels.cpp", state_is="set of voxels visited by the real code",
                     bounds="all lines between points of an 8x8x8 (thorough 13x13x13) lattice x 5 cell sizes; all 3x3 images and 8-triangle images x 6 embeddings x 2 cell sizes x 3 heights; all kernels up to 4x4x4 (thorough 6x6x6) x 3 types; all sequences of 3 occupations x modes x queries; all triangles of a 3x3x3 lattice x 4 embeddings")
ORD = dict(src="orders.cpp", state_is="order, starts and directions returned by the real code")
CHECKS["C22"] = dict(ORD, cflags=['-DCHECK="C22"'],
                     bounds="all sequences of up to 3 (thorough 4) of 16 paths x 192 settings; all precedence orders on up to 4 (thorough 5) paths x placements x grouping/direction x 4 memory layouts; the seam of all polygons of up to 5 (thorough 6) vertices on a 3x3 lattice x 3 scales x seam settings")
CHECKS["C23"] = dict(ORD, cflags=['-DCHECK="C23"'],
                     bounds="all arrangements of lines on 2..4 rows of 3 stretches (thorough up to 5 rows, up to 5 stretches) x directions x input orders x interlacing x 4 memory layouts; all sets of edges of a 3x3 (thorough 4x3) lattice; all triples of 16 paths")
CHECKS["C26"] = dict(src="beading.cpp", state_is="distribution of beads over one thickness returned by the real code",
                     bounds="every thickness from 0 to 4.5 mm (thorough 9 mm) in steps of 1 micron x outer/inner widths x thresholds x minimum ratio x thin-wall limits x wall counts 1..6 x distribution ranges x insets, and both counts at every transition")
CHECKS["C31"] = dict(src="timeest.cpp", state_is="total time estimated by the real code after one sequence of calls",
                     bounds="all sequences of up to 3 (thorough 4) of 36 moves and 7 control calls, of up to 5 (thorough 6) of 14 moves, and of up to 5 (thorough 6) of 6 moves and 7 control calls, x 6 sets of machine limits")
CHECKS["C10"] = dict(src="settings.cpp", state_is="answers of all containers to all queries after one history, or one value converted, by the real code",
                     bounds="all assignments of two keys over the five containers x redirects x extruder of the mesh; all sequences of 4 (thorough 5) of 20 operations (set, override, remove, redirect, re-parent); all millimetre values to 400 (thorough 2000) mm in microns, all strings one edit away from a valid value of every enumeration, all lists, pairs, outlines and matrices over 11 spellings of numbers")
CHECKS["C09"] = dict(src="templates.cpp", state_is="text of one template resolved by the real code",
                     bounds="all templates of up to 4 (thorough 5) of 27 tokens (texts, values, conditions, directives; with and without line ends) and of 5..6 (thorough 7) of 12 tokens x 5 extruder contexts",
                     assumptions=["expressions are evaluated by a stand-in for the cura-formulae-engine library, which isn't installed here"])
CHECKS["C07"] = dict(src="numbers.cpp", state_is="text written last for one range of numbers by the real code",
                     bounds="all lengths of -6..6 m in microns and +-20 mm around each multiple of a power of ten (thorough: all 2^32), all precisions 0..9 x multiples of 1, 1/2, 1/3, 1/4, 1/8 and 1/10 of the last digit up to 120000 (thorough 4 million) and all of 2000 (thorough 10000) x 27 magnitudes, each with its 6 neighbouring doubles and both signs")
CHECKS["C24"] = dict(src="combing.cpp", state_is="travel (all its comb paths) returned by the real code",
                     bounds="all 3x3 images and 8-triangle images x 3..5 embeddings x 3 settings of the distances and 3x3 images of thin cells; all pairs of lattice points inside and outside x hop settings (thorough: all 4x3 images, denser lattice)")
CHECKS["C38"] = dict(src="connector.cpp", state_is="connected outlines or lines returned by the real code",
                     bounds="all pairs of boxes over 8 (thorough 10) coordinates, all pairs of boxes, triangles, diamonds and L shapes and all triples of boxes (with and without one around them) over 5 (thorough 6) coordinates, with several starts, directions and embeddings, as outlines and as lines of varying width beside an open line")
CARVE = dict(src="carving.cpp", state_is="layers of all meshes after one step on the real code")
for _c, _b in (("C34", "all pairs of 3x2 images and triples of 2x2 images as layers of meshes x processing ranks x kinds of mesh x alternating, overlaps x fill rules; cutting meshes x 3 surface modes x extruder changes x order; infill meshes in every processing order (thorough: all, quick: a fixed residue class of the triples)"),
               ("C40", "all pairs of 3x3 images as two layers, all 4x4 images over six rings with holes x 9 hole sizes, all stacks of four 2x2 images, x 8 angles (a fixed residue class in the quick tier)"),
               ("C44", "all stacks of three 2x2 images x 4 angles x 4 roof heights, all pairs of two-layer stacks (a fixed residue class) with and without a mold on the second, all 3x3 images with and without loose lines")):
    CHECKS[_c] = dict(CARVE, cflags=[f'-DCHECK="{_c}"', "-fno-access-control"], bounds=_b)
TREEV = dict(src="treevolumes.cpp", state_is="answers of the real code to one sequence of queries on one stack of layers",
             bounds="all stacks of 4 layers over 8 layer shapes x 5 settings x with and without a support blocker, each area against its definition on an 80x80 lattice (a fixed residue class of the stacks); all pairs of 70 and triples of 33 queries on 5 stacks x 5 settings x 3 blockers (quick: a third on 5 of them), with and without precalculation; 4 threads asking at once under a race detector",
             cflags=["-fno-access-control"])
CHECKS["C41"] = dict(TREEV, harnesses=[dict(TREEV), dict(TREEV, config="tsan", cflags=["-fno-access-control", "-DFREE"])])
FLOWG = dict(src="gradualflow.cpp", state_is="paths after the real flow limiter, for one sequence of paths and settings",
             bounds="all sequences of up to 4 (thorough 5) of 12 kinds of path (short, long and retracted travels; lines of 9 lengths, speeds, widths, flows) x 7 settings of acceleration, step, reset and layer; length 4: a third in the quick tier")
CHECKS["C42"] = dict(FLOWG, harnesses=[dict(FLOWG, config="asan")])
CHECKS["C28"] = dict(src="skins.cpp", state_is="skin, infill and surfaces of one stack of layers computed by the real code", cflags=["-fno-access-control"],
                     bounds="a fixed fifth (thorough: all) of the stacks of 4 layers of 3x1 cells with a thin one, of 3 layers of 2x2 cells and of 6 layers of 2x1 cells x 27 settings, axis-aligned and rotated; infill support, gradual densities and combined layers of stacks of 7 layers of 2x1 cells x 13 settings; every setting that sets roofing or flooring apart")
CHECKS["C30"] = dict(src="adhesion.cpp", config="asan", state_is="skirt, brim or raft of one first layer computed by the real code", cflags=["-fno-access-control"],
                     bounds="all 3x3 images and 3x2 images with narrow gaps (a fixed residue class in the quick tier) x 10 skirts (with minimum lengths, far and near), 12 brims, nested rings, two meshes with an extruder each x 6, support beside the model x 5, brim of the support itself x 18, rafts x 5 with and without support; all layer counts of rafts")
SLICE = dict(src="slicing.cpp", state_is="layers of one solid cut by the real slicer")
for _c, _b in (("C13", "all tetrahedra between the points of a 3x3x3 lattice (quick: a third) at 2 heights; all 2x2x2, 3x3x1 and a residue class of the 3x2x2, 2x2x3 and 3x3x2 solids of cells x 6 embeddings x orders of the triangles; 2x2x3 solids x 3 slicing tolerances x 3 first layers, with the usual simplification; one triangle missing; cracks of a few microns; all 3x3 images x 9 horizontal expansions"),
               ("C14", "boxes of every height to 1.3 (thorough 2.5) mm in steps of 10 (5) microns x 3 slicing tolerances x 5 first layers x 4 layer heights x 4 places, on rafts, pairs of meshes of 5 kinds; prisms of two slopes and pairs of prisms (a fixed residue class) x 192 + 54 settings of adaptive layers; with empty first layers removed")):
    CHECKS[_c] = dict(SLICE, cflags=[f'-DCHECK="{_c}"', "-fno-access-control"], bounds=_b)
CHECKS["C27"] = dict(src="walls.cpp", state_is="walls of one outline generated by the real code", cflags=["-fno-access-control"],
                     bounds="3x3 images (quick: a quarter) of wide cells x 19 settings x 4 turns; strips of every thickness 20..3000 microns in steps of 20 (thorough 5) x 1-4 walls x thin walls on/off; 8 grids of 3x3 images and 4 sizes of 8-triangle images (a fixed residue class) x 5 settings on a 40 micron raster")
CHECKS["C25"] = dict(src="infills.cpp", state_is="infill of one area generated by the real code", cflags=["-fno-access-control"], bounds="7 linear patterns and zigzag, unconnected and connected, x 4 angles x 4 combinations of distance, shift, origin, overlap, height and width (zigzag: 6 kinds of ends) over the 3x3 images (quick: a sixth and all rectangles) at 3 places; gyroid (7 heights), honeycomb and octagon x 3 distances x 3 angles as 60 mm fields at 4 places, and cut out by the images; concentric rings, walls and multiplied lines of the images; zigzag connectors of exact rows; cubic subdivision trees of boxes and of three meshes in succession; cross and 3D cross of boxes with 4-64 triangles, pockets, and all 2x2 and 3x3 density images (a fixed residue class)")
CHECKS["C45"] = dict(src="lightning.cpp", state_is="layer of lightning trees generated by the real code", bounds="stacks of 14 layers: all 3x3 images (quick: a third and all rectangles) above each of 8 others (everything, nothing, a ring, the middle, a row, a column, ...) x 4 combinations of distance, width, height and angles at 2 places (quick: a fixed eighth), each grown three times: again, and as support")
CHECKS["C46"] = dict(src="interlock.cpp", state_is="layers of two models after the real generator tied them together", cflags=["-fno-access-control"], bounds="all 3x2 images in two colours (constant stacks), all pairs of 2x2 images in two colours one above the other (quick: half and an eighth) x 9 combinations of beam widths, beam height, depth, avoidance, turn, gap and size; one extruder and infill meshes; shells of 3 thicknesses x 3 sizes on blocks x 4 widths x 3 avoidances x 4 depths x 3 turns; judged on 16 places of every cell of the lattice")
EXP = dict(src="exporter.cpp", state_is="sequence of calls on the real exporter with the state of the machine that reads its output")
CHECKS["C06"] = dict(EXP, cflags=['-DCHECK="C06"', "-fno-access-control"], bounds="all sequences of up to 3 (thorough 4) and a quarter of those of 4 (thorough: a seventh of those of 5) of 22 calls (extrusions, travels and hops with and without retraction and priming, limited and forced retractions, resets, priming, the move to the prime position, tool changes, wiping), and all of up to 6 (thorough 8) of three groups of 5-6 of them (limited retractions with limits of 1 to 3, hops, switches) x 10 flavours x absolute/relative x firmware retraction x nozzle offsets, start of print, codes at tool changes, flow compensation")
CHECKS["C08"] = dict(EXP, cflags=['-DCHECK="C08"', "-fno-access-control"], bounds="all sequences of up to 3 (thorough 4) of 34 requests (nozzle, bed, volume temperatures with and without waiting, fans, tool changes, accelerations, jerks) and of up to 4-5 (thorough 6, a fifth of those of 6) of the nozzle, bed, fan and motion requests alone x 10 flavours x 8 variants of shared heater, active tool repeated, fan scale, own fans, cooling during switches, first extruder")
POLYU = dict(src="polyutils.cpp", state_is="outlines mended, merged, smoothed or offset by the real code", bounds="all 3x3, 5x2 and half of 4x3 images (thorough all) x 3 embeddings x 5 widths, 24 contour requests; half of (thorough all) pairs of disjoint 3x3, all of 4x2 and a fortieth (thorough a third) of 4x3 images x 3 distances x growing; mending of half of all 3x3 and of 1/331 (thorough 1/11) of all 16-triangle images x 3 units x 4 embeddings x 4 settings; near crossings on all 3x3 images and 1/29 (thorough 1/5) of 16-triangle images x 3 units x 4 embeddings and with a row or column squeezed to 3-40 um; zigzags of all lattice polygons of up to 4-7 (thorough 5-8) vertices with every start")
CHECKS["C47"] = dict(POLYU)
E2E = dict(src="e2e.cpp", state_is="G-code of one whole slice by the real engine", bounds="")
CHECKS["C35"] = dict(E2E, cflags=['-DCHECK="C35"'], bounds="bodies of 2x2x2 and 3x3x1, 2x2x3 voxels (classes of them in the quick tier, all in thorough) of several sizes, thin and wide x over 20 sets of settings (walls, skin, infill patterns, heights, retraction, relative extrusion, flavours, brims of features), two parts per plate in a part of them")
CHECKS["C33"] = dict(E2E, config="asan", cflags=['-DCHECK="C33"'], bounds="assignments of the features to 2 and 3 extruders x tower, priming, retraction and temperature settings x bodies of up to 2x2x2 voxels and pairs of parts")
CHECKS["C32"] = dict(E2E, cflags=['-DCHECK="C32"'], bounds="2x2x1 bodies (quick: a quarter) and classes of 2x2x2 bodies x sets of settings x 5 minimum times x 3 minimum speeds x lifting x 4 fan curves; one extruder")
CHECKS["C43"] = dict(E2E, cflags=['-DCHECK="C43"'], bounds="3x3x1, 2x2x2, 2x2x3 and 3x3x2 bodies (classes in the quick tier) with straight and slanted sides x bottom layers, smoothing, relative extrusion, heights")
_c04 = dict(E2E, bounds="14 sets of settings x 2 bodies x 2, 3 and 4 threads: all schedules with at most one (thorough: two, for up to 3 threads) deviations at locks, unlocks, waits, starts and joins (quick: classes of the deviations); 4 orders of memory; free runs under ThreadSanitizer with 1, 2, 4 and 8 threads", state_is="schedule of the threads of one whole slice by the real engine")
CHECKS["C04"] = dict(_c04, harnesses=[dict(_c04, cflags=['-DCHECK="C04"', "-DSCHEDULES"]), dict(_c04, config="tsan", cflags=['-DCHECK="C04"', "-DFREE"])])
for _c in ("C01", "C02", "C03"):
    CHECKS[_c]["technique"] = "stateless model checking of the real threads: every schedule within a deviation bound under an interposed scheduler (plus a free-running ThreadSanitizer pass for races)"
