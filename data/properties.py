"""Source of properties.jsonl (python3 data/properties.py rewrites it)."""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, observe=None, hook=None):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over.split(), "text": text}, "why_tests_cant": why,
              "anchors": {"files": files.split(), "mechanism": [{"name": m.split("@")[0].strip(), "where": m.split("@")[1].strip()} for m in mech],
                          "observe_at": observe or [], "hook_needed": hook}})


p("C01", "Parallel loops run every element exactly once and wait for all of it",
  "A parallel loop over a range applies its body exactly once to every element of the range and to nothing else, and returns only when every application has finished. This holds for every range size, chunking, worker count, nesting of loops and interleaving of the threads, and no interleaving deadlocks.",
  "schedules inputs", "all interleavings (bounded preemptions and spurious wake-ups) x range sizes x chunk settings x worker counts x nesting",
  "No test creates a thread pool with more than one interleaving; a lost wake-up or a chunking slip needs a particular schedule or range size.",
  "include/utils/ThreadPool.h src/utils/ThreadPool.cpp", ["chunking and completion count of parallel_for @ include/utils/ThreadPool.h", "worker loop @ src/utils/ThreadPool.cpp"])
p("C02", "The layer pipeline consumes every item once, in order, one at a time",
  "When layers are produced in parallel and written in order, every index is produced exactly once and consumed exactly once, in increasing order, by at most one thread at a time, and never more items are outstanding than the configured buffer holds. The call returns only after the last item has been consumed and no worker still uses the pipeline's state, under every interleaving, including spurious wake-ups; no interleaving deadlocks.",
  "schedules inputs", "all interleavings with bounded deviations (preemptions, spurious wake-ups) x item counts x buffer sizes x worker counts",
  "Existing tests never run the pipeline with several workers; ordering, bound and termination depend on the schedule.",
  "include/utils/ThreadPool.h src/FffGcodeWriter.cpp", ["ring buffer with single consumer @ include/utils/ThreadPool.h MultipleProducersOrderedConsumer"])
p("C03", "A thread pool runs every queued task exactly once, also when shut down",
  "Every task handed to a thread pool runs exactly once, tasks start in the order they were queued, and disposing of the pool first runs whatever is still queued and then ends every worker thread. No interleaving of queuing, running and disposal loses a task, runs one twice or deadlocks.",
  "schedules histories", "all interleavings with bounded deviations x task counts x worker counts x points of disposal",
  "No existing test exercises shutdown races.", "src/utils/ThreadPool.cpp include/utils/ThreadPool.h", ["ThreadPool::worker, ThreadPool::join @ src/utils/ThreadPool.cpp"])
p("C04", "The sliced result does not depend on threads or their timing",
  "Slicing the same model with the same settings gives byte-for-byte the same G-code for every number of worker threads and every scheduling of those threads (with tree support: the same volume per layer and kind).",
  "schedules configurations", "worker counts 1..N x thread start/hand-over orders x models x feature configurations that use parallel stages",
  "Tests do not slice end to end, let alone compare thread counts.", "src/FffGcodeWriter.cpp src/FffPolygonGenerator.cpp src/slicer.cpp src/support.cpp src/TreeSupport.cpp src/TreeModelVolumes.cpp src/layerPart.cpp include/utils/ThreadPool.h",
  ["parallel stages write to disjoint per-layer slots @ src/FffPolygonGenerator.cpp", "ordered consumer @ src/FffGcodeWriter.cpp"])
p("C05", "A slice does not depend on what was sliced before it in the same process",
  "Slicing a model after any sequence of other slices in the same process gives the same G-code as slicing it alone in a fresh process.",
  "histories", "all sequences up to a bounded length over an alphabet of slices (models x configurations)",
  "Unit tests build one object each; leftover static or singleton state shows only over a history of slices.",
  "src/Application.cpp src/FffProcessor.cpp src/FffGcodeWriter.cpp src/FffPolygonGenerator.cpp src/Slice.cpp src/communication/CommandLine.cpp",
  ["per-slice reset of singletons @ src/FffProcessor.cpp, src/Slice.cpp, src/FffGcodeWriter.cpp"])
p("C06", "Extruder positions in the G-code add up to the requested material",
  "For every sequence of moves, extrusions, retractions, un-retractions, resets and tool changes, a machine interpreting the emitted G-code pushes exactly the requested material during each extrusion, retracts and restores exactly the requested amounts, and is never left retracted while extruding. This holds equally for absolute and relative extrusion, millimetre and volumetric units, firmware retraction and every supported G-code flavour.",
  "histories configurations", "all operation sequences up to a bounded length over an operation alphabet x flavours x extrusion modes",
  "The existing exporter tests check single calls against string snippets.", "src/gcode_export/gcodeExport.cpp include/gcode_export/gcodeExport.h",
  ["E bookkeeping (current_e_value, offset, retraction state) @ src/gcode_export/gcodeExport.cpp"])
p("C07", "Every number written to G-code reads back as its value",
  "Every coordinate, extruder position, speed and temperature written to the output parses back, as a decimal number, to the internal value rounded to the documented number of decimals, for every magnitude and sign, without exponents or superfluous zeros.",
  "inputs", "all values in dense ranges and around every power of ten, sign and rounding boundary x all supported precisions",
  "Tests check a few numbers.", "src/utils/string.cpp include/utils/string.h src/gcode_export/gcodeExport.cpp", ["writeInt2mm, writeDoubleToStream, PrecisionedDouble @ include/utils/string.h"])
p("C08", "Temperature, fan, acceleration and jerk commands track the last request",
  "After any sequence of requests, a machine interpreting the emitted commands has exactly the last requested nozzle and bed temperatures, fan speed, acceleration and jerk, and a request to wait for a temperature is never dropped while the machine may not have reached it.",
  "histories configurations", "all request sequences up to a bounded length x flavours",
  "Tests check single calls.", "src/gcode_export/gcodeExport.cpp", ["redundant-command suppression @ src/gcode_export/gcodeExport.cpp writeTemperatureCommand, writeFanCommand, writePrintAcceleration, writeJerk"])
p("C09", "Start/end G-code templates resolve conditions and values like the reference",
  "Resolving a custom G-code template yields, for every nesting-free sequence of text, value expressions and if/elif/else/endif directives, the text of exactly the first branch whose condition is true (the else branch if none) with every value expression replaced by its value; anything outside directives is preserved verbatim and malformed structure is reported rather than silently dropped.",
  "programs configurations", "all templates up to a bounded number of tokens over a token alphabet x condition outcomes",
  "Existing tests list a few templates.", "src/gcode_export/GcodeTemplateResolver.cpp", ["segment parser and condition state machine @ src/gcode_export/GcodeTemplateResolver.cpp"])
p("C10", "Settings resolve by the documented inheritance and units",
  "Reading a setting returns the value set on the nearest container (mesh, extruder, mesh group, global), honouring a setting's limit-to-extruder redirect, and converts it to its type and unit as documented: millimetres to exact microns, degrees to radians, percentages to ratios, comma lists to vectors, booleans from their accepted spellings. Setting or overriding a value in one container never changes what an unrelated container sees.",
  "configurations inputs", "all assignments of a key over the container tree up to a bound x redirects x value spellings",
  "Tests check one container at a time.", "src/settings/Settings.cpp include/settings/Settings.h include/settings/types", ["Settings::get / parent chain / limit_to_extruder @ src/settings/Settings.cpp"])
p("C11", "Command-line slicing honours every argument in its documented scope",
  "For every order of global, extruder and model arguments, each setting given on the command line applies to exactly the scope of the object it follows, definition files supply defaults along their inheritance chain without overriding explicit values, and each mesh group is printed with the settings given for it.",
  "programs configurations", "all argument sequences up to a bounded length over an alphabet of options x definition-file chains",
  "The command line is not tested.", "src/communication/CommandLine.cpp src/Scene.cpp src/Slice.cpp src/settings/SettingContainersEnvironmentAdapter.cpp", ["sliceNext argument interpreter, loadJSON @ src/communication/CommandLine.cpp"])
p("C12", "STL files load to exactly their triangles, and damaged ones fail cleanly",
  "Loading a well-formed ASCII or binary STL yields exactly its triangles in file units, identically for both encodings and every line-ending style, and loading a file truncated or corrupted at any point neither crashes, hangs nor reads outside the file, yielding only triangles present in the data or a reported failure.",
  "inputs fault_sequences", "all small meshes of a grid alphabet x encodings x every truncation length and every single corrupted count/keyword",
  "No test loads STL files with faults.", "src/MeshGroup.cpp src/mesh.cpp", ["loadMeshSTL_ascii/binary @ src/MeshGroup.cpp"])
p("C13", "Cross-sections equal the solid cut by the layer plane",
  "For every watertight model and layer height, each layer's outline is closed and encloses exactly the points of the solid at that height, holes and islands included, whatever the model's position, orientation, scale, triangle order or vertex order.",
  "inputs configurations", "all small polycubes x embeddings x triangle and vertex orders x layer heights",
  "Tests slice no meshes against an independent solid.", "src/slicer.cpp src/mesh.cpp src/MeshGroup.cpp", ["segment generation and polygon joining @ src/slicer.cpp", "vertex merging and face connection @ src/mesh.cpp"])
p("C14", "Every model is cut into layers that cover its height",
  "Layers of a model are in strictly increasing height, start with the initial layer height, cover the model up to its top within one layer, and every layer thickness is within the configured range: exactly the layer height, or, with adaptive layers, within the configured variation, step and limits.",
  "inputs configurations", "model heights and slopes over a grid x initial/regular layer heights x adaptive settings",
  "Layer heights are untested.", "src/slicer.cpp src/settings/AdaptiveLayerHeights.cpp src/FffPolygonGenerator.cpp", ["AdaptiveLayerHeights @ src/settings/AdaptiveLayerHeights.cpp", "buildLayersWithHeight, slicer layer count @ src/slicer.cpp, src/FffPolygonGenerator.cpp"])
p("C15", "Polygon set operations and offsets equal the operations on point sets",
  "Union, intersection, difference, symmetric difference and orthogonal offsets of outlines with holes give exactly the corresponding set of points, and area and bounding box equal those of that set; the operands are not changed.",
  "inputs", "all pairs of shapes drawn on a small grid x embeddings (scale, translation, rotation by quarter turns, vertex orders)",
  "Tests use a few polygons.", "src/geometry/Shape.cpp include/geometry/Shape.h src/geometry/Polygon.cpp src/utils/AABB.cpp", ["Clipper-based operations @ src/geometry/Shape.cpp"])
p("C16", "Inside tests and closest points agree with exact geometry",
  "For every outline and point, the inside test matches the exact point-in-polygon answer including the configured answer on the border, the closest point on the outline is a true nearest boundary point, and moving a point inside or outside ends at the requested side and distance or reports that it could not.",
  "inputs", "all small grid polygons (with holes) x all query points of a surrounding grid x embeddings x distances",
  "Tests check some points on some polygons.", "src/geometry/Polygon.cpp src/geometry/Shape.cpp src/utils/polygonUtils.cpp", ["inside, findClosest, moveInside, moveOutside @ src/utils/polygonUtils.cpp, src/geometry/Shape.cpp"])
p("C17", "Outlines split into parts that keep every area and nesting level",
  "Splitting an outline set into connected parts gives parts whose union is exactly the original area, each with one outer outline and precisely the holes directly inside it; sorting by nesting assigns each outline its exact depth, and the outer-outline, hole-removal and small-area operations keep and drop exactly the areas they name.",
  "inputs", "all raster images on a small grid (islands in holes in islands) x embeddings",
  "Tests cover single examples.", "src/geometry/Shape.cpp src/geometry/SingleShape.cpp src/geometry/PartsView.cpp", ["splitIntoParts, sortByNesting, getOutsidePolygons, removeSmallAreas @ src/geometry/Shape.cpp"])
p("C18", "Simplification never moves an outline by more than its allowed deviation",
  "Simplifying a polygon or polyline yields vertices that keep the result within the configured maximum deviation of the original line in both directions, keeps the ends of open lines, never adds vertices and leaves a line alone that has nothing to remove; for lines of varying width the same holds and the extruded area changes by no more than the configured amount per removed vertex.",
  "inputs configurations", "all closed and open lines up to a number of vertices on a small grid x resolution/deviation limits x embeddings",
  "Tests sample a few shapes.", "src/utils/Simplify.cpp include/utils/Simplify.h", ["Simplify::simplify @ include/utils/Simplify.h, src/utils/Simplify.cpp"])
p("C19", "Stitching loose lines keeps every line and joins exactly what touches",
  "Stitching polylines uses every input line exactly once, joins ends only if they are within the allowed distance, closes a loop only within the allowed closing distance, and reports as open only lines that could not be joined; no ends within snapping distance remain unjoined.",
  "inputs", "all sets of a few segments on a small grid in all orders and directions x distances",
  "Tests use one or two examples.", "include/utils/PolylineStitcher.h src/utils/PolylineStitcher.cpp src/geometry/OpenPolyline.cpp src/utils/OpenPolylineStitcher.cpp", ["PolylineStitcher::stitch @ include/utils/PolylineStitcher.h"])
p("C20", "Spatial grids find everything within the queried range",
  "A spatial index returns every stored element within the queried distance or crossed by the queried line, nearest queries return a true nearest element that satisfies the condition, and walking the cells of a line visits every cell the line passes through, contiguously, for positive and negative coordinates and any cell size.",
  "inputs histories", "all placements of a few elements on a grid straddling the origin x queries x cell sizes",
  "Tests use fixed placements.", "include/utils/SparseGrid.h include/utils/SquareGrid.h src/utils/SquareGrid.cpp include/utils/SparsePointGrid.h include/utils/SparseLineGrid.h src/utils/VoxelUtils.cpp",
  ["SquareGrid::processNearby/processLineCells @ src/utils/SquareGrid.cpp, include/utils/SquareGrid.h", "SparseGrid::getNearby/getNearest @ include/utils/SparseGrid.h"])
p("C21", "Line and angle predicates agree with exact arithmetic",
  "Side-of-line, segment intersection, collinearity, closest point on a segment, squared distance, corner angle and rotation predicates agree with exact rational arithmetic wherever the question has an exact answer, up to the rounding of the returned micron coordinates, for every relative position of the points including touching, overlapping and degenerate ones.",
  "inputs", "all tuples of points on a small grid x embeddings with large offsets and scales",
  "Tests tabulate a few configurations.", "src/utils/linearAlg2D.cpp include/utils/linearAlg2D.h include/utils/Point2D.h include/geometry/Point2LL.h", ["LinearAlg2D @ src/utils/linearAlg2D.cpp"])
p("C22", "Path ordering prints every path once and respects its constraints",
  "Ordering paths for printing outputs each input path exactly once with its points unchanged, starts closed paths at the vertex the seam settings ask for, travels an open path from one end to the other, places combined or constrained paths in an order that satisfies every given precedence, and is the same for the same input.",
  "inputs configurations", "all sets of a few paths on a small grid x start points x seam/constraint settings",
  "Tests use one or two paths.", "include/PathOrderOptimizer.h include/PathOrdering.h src/PathOrdering.cpp", ["PathOrderOptimizer::optimize @ include/PathOrderOptimizer.h"])
p("C23", "Monotonic ordering never lets adjacent lines jump backwards",
  "Ordering lines monotonically outputs each line exactly once and prints any two neighbouring overlapping parallel lines in the order of their position along the chosen direction (with interlacing: within each of the two passes), the same for the same input.",
  "inputs", "all arrangements of a few parallel lines on a grid x directions x input orders",
  "Tests use a handful of arrangements.", "include/PathOrderMonotonic.h", ["PathOrderMonotonic::optimize @ include/PathOrderMonotonic.h"])
p("C24", "Combing travels stay inside the printed region",
  "A combing travel connects exactly its start and end, and whenever start and end lie in the same connected region, its path stays within that region; a travel that has to leave the region is reported as crossing.",
  "inputs configurations", "all small raster regions (holes, several parts) x all start/end cells x combing modes",
  "Combing is not tested.", "src/pathPlanning/Comb.cpp src/pathPlanning/LinePolygonsCrossings.cpp src/pathPlanning/CombPath.cpp", ["Comb::calc @ src/pathPlanning/Comb.cpp", "LinePolygonsCrossings @ src/pathPlanning/LinePolygonsCrossings.cpp"])
p("C25", "Infill lines stay inside their area and reach its density",
  "For every infill pattern, line distance, angle, shift, origin and area, generated infill lies within the (overlap-extended) area, consists of the lines of its pattern (and of stretches along the border where lines are connected), leaves none of them out and prints none twice; on areas large compared with the pattern its length per area is that of its pattern at the requested distance; the result is the same for the same input.",
  "inputs configurations", "all patterns x densities x angles x small raster areas x layer heights",
  "Tests try a few combinations.", "src/infill.cpp src/infill", ["Infill::generate @ src/infill.cpp"])
p("C26", "Wall widths always add up to the thickness they fill",
  "For every wall thickness and wall count, the bead widths and leftover of a wall distribution add up to the thickness, widths are non-negative and in order across the wall, the optimal count never decreases with thickness, and configured outer-wall, minimum-width and maximum-count limits are respected.",
  "configurations inputs", "all strategy combinations x limits x thicknesses over a dense range",
  "Tests sample a few values.", "src/BeadingStrategy", ["BeadingStrategy chain @ src/BeadingStrategy"])
p("C27", "Walls cover their outline and do not print outside it or twice over",
  "For every outline, the generated variable-width walls stay within the outline, together with the reported inner area cover it and do not cover anything twice, apart from places about one and a half lines wide where walls meet; no more walls are made than asked for, every wall line has a positive width and is labelled with its inset number, and the same outline gives the same walls.",
  "inputs configurations", "all small raster and wedge shapes x line widths x wall counts x thin-wall settings x embeddings",
  "Tests check a few shapes for crashes.", "src/WallToolPaths.cpp src/arachne src/WallsComputation.cpp", ["SkeletalTrapezoidation @ src/arachne/SkeletalTrapezoidation.cpp", "WallToolPaths::generate @ src/WallToolPaths.cpp"])
p("C28", "Skin and infill partition what the walls leave",
  "On every layer the areas assigned to top skin, bottom skin and infill do not overlap beyond rounding and together are the region inside the walls; every place closer than the configured number of top or bottom layers to open air is skin, and everything else is infill.",
  "inputs configurations", "all small voxel models x top/bottom layer counts x expansion settings",
  "Tests do not compute skin against a model of the solid.", "src/skin.cpp src/FffPolygonGenerator.cpp", ["SkinInfillAreaComputation @ src/skin.cpp"])
p("C29", "Support is placed under every overhang and never inside the model",
  "With support enabled, every overhanging area steeper than the support angle, minus blocked areas, has support below it down to the build plate or the model, kept at the configured distances, and support never intersects the model or blocked areas.",
  "inputs configurations", "all small voxel models x support settings (angle, distances, placement, blockers)",
  "Support generation is untested.", "src/support.cpp", ["AreaSupport::generateSupportAreas @ src/support.cpp"])
p("C30", "Adhesion structures surround every part without touching the print's area",
  "Skirt, brim and raft exist as requested: a raft reaches under every part of the first layer with its margin, a brim touches the outline it is for and stays outside the model and within the requested width, a skirt stays at its distance, and lengths meet the configured minimum.",
  "inputs configurations", "all small sets of first-layer parts x adhesion type and settings",
  "Adhesion generation is untested.", "src/SkirtBrim.cpp src/raft.cpp", ["SkirtBrim::generate @ src/SkirtBrim.cpp", "Raft::generate @ src/raft.cpp"])
p("C31", "Print-time estimates respect the machine limits and add up",
  "For every sequence of moves, the estimated time of each category is non-negative, the categories sum to the total, the total is never below what the feed rates allow and never above what full stops at every corner would take, and it equals an independent trapezoidal-motion computation for the same moves.",
  "histories configurations", "all move sequences up to a bounded length over an alphabet of displacements, feed rates and limits",
  "Tests use a few moves.", "src/timeEstimate.cpp", ["TimeEstimateCalculator planner @ src/timeEstimate.cpp"])
p("C32", "Small layers take at least the minimum layer time within speed limits",
  "With one extruder, every layer takes at least the configured minimum layer time unless all of its extrusions are already at the minimum speed, speeds are never raised above the configured speed by cooling, extruded amounts do not change, and fan speeds stay between the configured minimum and maximum.",
  "configurations inputs", "layer sizes x minimum times x speeds x fan settings",
  "Tests check single examples.", "src/ExtruderPlan.cpp src/LayerPlan.cpp", ["ExtruderPlan::forceMinimalLayerTime, processFanSpeedForMinimalLayerTime @ src/ExtruderPlan.cpp"])
p("C33", "Multi-extruder prints switch, prime, heat and account each tool correctly",
  "In a print with several extruders every extrusion is made by the extruder its feature is assigned to, each tool is at printing temperature and un-retracted when it extrudes, unused tools are never selected, and every switch retracts the outgoing tool and, when enabled, primes the incoming one on the prime tower.",
  "configurations", "assignments of features to extruders x tower/retraction/temperature settings x models",
  "Needs whole slices over configuration combinations.", "src/FffGcodeWriter.cpp src/LayerPlan.cpp src/LayerPlanBuffer.cpp src/PrimeTower src/gcode_export/gcodeExport.cpp", ["extruder order and switching @ src/FffGcodeWriter.cpp, src/LayerPlan.cpp", "preheat insertion @ src/LayerPlanBuffer.cpp"])
p("C34", "Overlapping and modifier meshes never claim the same place twice",
  "Where meshes overlap, each place is printed by exactly the mesh that the mesh order assigns it to; cutting, infill, support-blocking and surface modifiers affect exactly the region they cover.",
  "inputs configurations", "all placements of two or three boxes x modifier kinds x orders",
  "Mesh interaction is untested.", "src/multiVolumes.cpp src/FffPolygonGenerator.cpp", ["carveMultipleVolumes, carveCuttingMeshes, processInfillMesh @ src/multiVolumes.cpp, src/FffPolygonGenerator.cpp"])
p("C35", "The G-code deposits the model's volume within its outline, layer by layer",
  "For every sliced solid, the layers are printed from the bottom up at their heights, every model extrusion lies within the solid's outline at that height, solid models are filled with their own volume of material within the documented overlaps, nothing is extruded while travelling, and the header's counts equal the body's.",
  "inputs configurations", "small voxel models x feature configurations",
  "Existing tests never slice end to end.", "src/FffGcodeWriter.cpp src/LayerPlan.cpp src/gcode_export/gcodeExport.cpp src/FffProcessor.cpp", ["layer processing @ src/FffGcodeWriter.cpp"])
p("C36", "Union-find and spanning trees answer like their textbook definitions",
  "Connectivity queries after any sequence of insertions and unions equal the transitive closure of the unions; the spanning tree of any set of distinct points is a tree over exactly those points with the least total length, its adjacency is mutual, and its leaves are exactly the points with at most one neighbour.",
  "histories inputs", "all operation sequences and point sets up to a bound",
  "Tests list examples.", "include/utils/UnionFind.h src/utils/MinimumSpanningTree.cpp", ["UnionFind @ include/utils/UnionFind.h", "MinimumSpanningTree::prim @ src/utils/MinimumSpanningTree.cpp"])
p("C37", "Voxel traversal visits exactly the cells a shape touches",
  "Walking a line, polygon outline or filled area over a voxel grid visits every voxel the shape passes through, for positive and negative coordinates and any cell size, conversion between points and voxels is consistent, and dilation visits exactly the voxels of its kernel.",
  "inputs", "all lines/polygons over a small grid straddling the origin x cell sizes x kernels",
  "Tests check a few lines.", "src/utils/VoxelUtils.cpp include/utils/VoxelUtils.h", ["VoxelUtils @ src/utils/VoxelUtils.cpp"])
p("C38", "Connecting polygons keeps what is printed",
  "Joining several outlines into one continuous path keeps every vertex of the outlines, bridges only distances allowed by the line width, leaves outlines too far apart separate, and never changes the enclosed area beyond the bridges.",
  "inputs", "all pairs and triples of boxes on a small grid x distances",
  "Tests use two examples.", "src/utils/PolygonConnector.cpp include/utils/PolygonConnector.h", ["PolygonConnector::connect @ src/utils/PolygonConnector.cpp"])
p("C39", "Wall printing order respects the configured nesting order",
  "Walls are printed exactly once each, in an order in which, per region, outer walls come before or after inner walls as configured, no wall is printed before the walls that must precede it, and requested grouping by region or by inset is kept.",
  "inputs configurations", "all sets of nested wall lines from small shapes x ordering settings",
  "Tests check single orders.", "src/InsetOrderOptimizer.cpp include/InsetOrderOptimizer.h", ["InsetOrderOptimizer::getRegionOrder/getInsetOrder @ src/InsetOrderOptimizer.cpp"])
p("C40", "Making overhangs printable only adds what the angle demands",
  "With printable overhangs enabled every layer covers the layer above it shrunk by the allowed step, the model only grows, it grows by nothing where the overhang is already allowed, and holes smaller than the configured size are kept as configured.",
  "inputs configurations", "all small layer stacks x angles x layer heights",
  "Untested.", "src/ConicalOverhang.cpp", ["ConicalOverhang::apply @ src/ConicalOverhang.cpp"])
p("C41", "Collision and avoidance volumes do not depend on the order of queries",
  "The volumes used to route tree support depend only on the model, the settings, the layer and the requested radius: any order, repetition or precomputation of queries gives the same answers, bigger radii never give smaller volumes, and collision contains the model grown by the radius.",
  "histories", "all query sequences up to a bounded length over an alphabet of layers, radii and kinds",
  "Untested.", "src/TreeModelVolumes.cpp include/TreeModelVolumes.h", ["caches keyed by radius and layer @ src/TreeModelVolumes.cpp"])
p("C42", "Flow smoothing conserves the extruded volume and the path",
  "Limiting the rate at which flow changes splits paths but keeps the printed geometry, the total extruded volume and the order of paths, and never lets the flow rise or fall faster than the configured rate.",
  "histories configurations", "all sequences of a few paths over an alphabet of lengths and flows x settings",
  "Untested.", "include/gradual_flow/Processor.h include/gradual_flow/FlowLimitedPath.h", ["gradual_flow::Processor::process @ include/gradual_flow/Processor.h"])
p("C43", "Spiralised prints are one continuous rising wall",
  "When spiralising, from the first spiral layer on each layer is a single closed wall whose height never decreases within the layer, every layer continues where the previous one ended, and nothing but that wall is printed, for solids whose outline keeps its corners from layer to layer.",
  "inputs configurations", "convex and concave outlines x layer heights x bottom layers x smoothing",
  "Untested.", "src/LayerPlan.cpp src/FffGcodeWriter.cpp", ["LayerPlan::spiralizeWallSlice @ src/LayerPlan.cpp"])
p("C44", "Molds surround their models and leave every cavity free",
  "With molds enabled each layer is filled up to the mold width around the model's outline, narrows upwards by no more than the mold angle demands, closes over the cavity with a roof of the configured height, never enters the cavity of any model that has a mold, and leaves models without a mold as they are.",
  "inputs configurations", "all small layer stacks of one or two models x widths x angles x roof heights",
  "Untested.", "src/Mold.cpp", ["Mold::process @ src/Mold.cpp"])

p("C45", "Lightning infill supports every internal overhang and rests on what is below",
  "With lightning infill every place of a layer's infill that has no infill above it and is farther from the wall than the overhang angle allows is within reach (half the line distance) of a printed line; lines stay inside the infill area and are the branches of trees, each of which stands on the wall of its own layer; where layers are alike a branch ends close to a branch of the layer below; and the same layers give the same lines, no matter what else runs, in support as in infill.",
  "inputs configurations", "all small stacks of images x distances x angles",
  "Untested.", "src/infill/LightningGenerator.cpp src/infill/LightningLayer.cpp src/infill/LightningTreeNode.cpp src/infill/LightningDistanceField.cpp", ["LightningGenerator::generateTrees @ src/infill/LightningGenerator.cpp", "LightningTreeNode::propagateToNextLayer @ src/infill/LightningTreeNode.cpp"])

p("C46", "Interlocking ties touching models together and changes nothing else",
  "Where two models of different extruders touch, interlocking divides the cells of a rotated lattice that lie within the interlocking depth of both models' surfaces, and not within the boundary avoidance of air, into beams of the configured widths that alternate between the models and turn a quarter every configured number of layers; each such place belongs to exactly the model of its beam, no place of either model is lost, no air is filled, the models never overlap, and everything else, every pair with one extruder and every pair with a non-model mesh stays as it was.",
  "inputs configurations", "all small stacks of two-coloured images x lattices x rotations",
  "Untested beyond one smoke test of the generated structure.", "src/InterlockingGenerator.cpp", ["InterlockingGenerator::generateInterlockingStructure @ src/InterlockingGenerator.cpp", "InterlockingGenerator::applyMicrostructureToOutlines @ src/InterlockingGenerator.cpp"])

p("C47", "Preparing outlines for printing changes them only by what cannot be printed",
  "Outlines mended for wall generation have no crossing edges and, apart from parts and gaps narrower than the smallest printable feature, lie within the allowed deviation of the original; removing near crossings and smoothing zigzags move no point further than their distance and never take area from the outside of a zigzag; thin and wide areas partition a shape exactly at the given width, merging thin parts moves exactly the thin area within the merge distance and loses nothing, and concentric contours lie at exactly the requested offsets and number.",
  "inputs configurations", "all small images of squares and triangles and all small lattice polygons x widths, distances and settings x embeddings",
  "No test covers mending, thin areas or contours beyond single examples.", "src/geometry/MendedShape.cpp src/utils/polygonUtils.cpp src/geometry/Shape.cpp src/geometry/Polygon.cpp include/utils/actions/smooth.h",
  ["MendedShape::getShape @ src/geometry/MendedShape.cpp", "mergeThinOverlap, getThinAreas, generateInsetOutset, fixSelfIntersections @ src/utils/polygonUtils.cpp", "removeNearSelfIntersections, smooth @ src/geometry/Shape.cpp"])
if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for x in P:
            assert len(x["title"]) <= 80, x["id"]
            f.write(json.dumps(x) + "\n")
