#!/usr/bin/env python3
# Regenerates /verif/properties.jsonl (kept as a script so that the statements stay readable).
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","A successful OBJ export is complete and exact; a failed one says so",
 "When saving a mesh or model as OBJ, or writing a mesh to a caller's writer, reports success, the output holds every vertex and normal with its exact coordinates, in face order, and every triangle with indices (offset by the given starts) that refer to its own face's vertices and normals, as produced by one and the same tessellation of each face. However the storage or writer behaves (short writes, interruptions, errors, a full disk), a failure is reported as an error - never success, never a panic - and without one (short writes and interruptions are none) it succeeds.",
 ["inputs","fault_sequences"],"every model and mesh, every sequence of short/interrupted/failed writes and seeks, every outcome of the random draws inside tessellation",
 "Existing tests write three OBJ files to a healthy disk and never read one back; none meets a short write, an interruption, an error, a full disk, or a model whose faces tessellate differently on each call.",
 ["src/mesh.rs","src/model.rs","src/face.rs"],
 [("write_obj emits v/vn/f lines with ? on every write","src/mesh.rs TriangleMesh::write_obj"),("running vertex_start/normal_start offsets","src/model.rs Model::save_as_obj")],
 observe=["bytes of the written file","returned io::Result"])
p("C02","A successful binary STL export is complete and exact; a failed one says so",
 "When saving a model as binary STL reports success, the file is exactly 84 + 50 x N bytes: an 80-byte header, the count N of all triangles of all faces, and N records holding each triangle's three vertices as 32-bit floats in order, taken from one and the same tessellation of each face. However the storage behaves, a failure (including one that only shows when buffered data reaches the disk, or when the file cannot be repositioned) is reported as an error - never success, never a panic - and without one (short writes and interruptions are none) it succeeds.",
 ["inputs","fault_sequences"],"every model and file name, every sequence of short/interrupted/failed writes and seeks, every outcome of the random draws inside tessellation",
 "No test calls the STL export at all.",
 ["src/model.rs"],
 [("placeholder count patched after the records are written","src/model.rs Model::save_as_stl"),("buffered writer","src/model.rs Model::save_as_stl")],
 observe=["bytes of the written file","returned io::Result"])
p("C03","A successful point-list save is complete and exact; a failed one says so",
 "When saving a point cloud, a point cloud with normals, a 2D point list or a boundary outline reports success, the file holds one entry per element, in order, whose numbers read back to exactly the saved values (and, for an outline, the closed chain of line elements), and nothing else. However the storage behaves (short writes, interruptions, errors, a full disk), a failure is reported as an error - never success with missing or damaged data, never a panic - and without one it succeeds.",
 ["inputs","fault_sequences"],"every list of finite points, every sequence of short/interrupted/failed writes",
 "One test saves one point cloud to a healthy disk and does not read it back; the other writers are never called.",
 ["src/points.rs","src/surface/bspline.rs"],
 [("one formatted write per point","src/points.rs save_point_cloud, save_point_cloud_with_normal, save_points"),("outline writer","src/surface/bspline.rs save_bound_as_obj")],
 observe=["bytes of the written file","returned io::Result"])
p("C04","Loading a point cloud is exact or an error, never a panic",
 "Loading a point cloud returns every point of the file in order with exactly the written values (comment lines skipped; space, comma and tab separated; three numbers, or a label and three numbers), however the storage delivers the bytes. A read failure is reported as an error, and a truncated or damaged file yields an error or the points of its intact lines: never a panic and never points that no line of the file spells.",
 ["inputs","fault_sequences","crash_points"],"every point file, every split of the reads, every read error, every truncation point and every flipped or overwritten byte",
 "Nothing tests loading.",
 ["src/points.rs"],
 [("line split and parse","src/points.rs load_point_cloud")],
 observe=["returned io::Result<Vec<Point3>>"])
p("C05","A file always reflects the last save; a failed save can be retried",
 "Over any history of saves to and loads from a set of files, with storage faults and restarts in between, a file whose last save succeeded holds exactly that save's data and nothing of what was there before (longer, shorter or damaged), saves to one file leave every other file unchanged, and a load of a saved point cloud returns exactly those points. Once the fault is gone (space freed, permission granted), the same save succeeds.",
 ["histories","fault_sequences","crash_points"],"every interleaved history of saves (OBJ, STL, SVG, point lists), loads, faults, crashes and restarts over a set of paths",
 "Tests perform single saves; none overwrites, retries, restarts or reads back.",
 ["src/mesh.rs","src/model.rs","src/points.rs"],
 [("files are created truncated on every save","src/mesh.rs save_as_obj; src/model.rs save_as_*; src/points.rs save_*")],
 observe=["contents of every file after every operation"])
p("C06","A successful SVG export is complete; a failed one says so",
 "When saving a model's curves as SVG reports success, the file is a complete document with the requested size whose drawing stands upright on that page (placed to whole units) and contains one path per curve, in order, and each path runs through its curve's segments in order from start to end, following the curve within twice the segment's tolerance plus the two-decimal rounding. However the storage behaves, a failure is reported as an error - never success, never a panic - and without one it succeeds.",
 ["inputs","fault_sequences"],"every set of polycurves made of lines, arcs, polylines and B-splines, every sequence of short/interrupted/failed writes, every outcome of the random draws inside sampling",
 "No test calls the SVG export.",
 ["src/model.rs","src/curve.rs"],
 [("path data builder","src/model.rs Model::save_as_svg"),("adaptive sampling for other curves","src/utils.rs parameter_division")],
 observe=["bytes of the written file","returned io::Result"])
p("C07","STEP import is complete or an error, however the file arrives",
 "When reading a STEP file reports success, the model contains every supported curve and face of the file, in file order (the bounds of one face in any order) and with the file's exact geometry and trimming, identically on every read and however the storage delivers the bytes. A read failure, or a file cut short at any point before its end marker, is reported as an error rather than as a smaller or empty model, and never as a panic.",
 ["inputs","fault_sequences","crash_points"],"every exchange file made of the supported entities, every split of the reads and wrong size hint, every read error, every truncation point, every hash seed",
 "No test reads a STEP file.",
 ["src/model/step_reader.rs"],
 [("whole-file read then parse then entity walk","src/model/step_reader.rs ModelReader::read_model")],
 observe=["returned model","returned io::Result"])
p("C08","Results do not depend on the process environment; no hidden side effects",
 "Meshing, trimming, sampling, evaluating and projecting create, modify and need no file; an export touches only the file it was asked to write, an import only the file it was asked to read. Their results are the same, and they never panic, whatever the state of the working directory, standard output and standard error (read-only, full, closed, broken pipe), the clock and the environment.",
 ["fault_sequences","configurations","inputs"],"every operation, every failure of working-directory files and of the standard streams while it runs",
 "Tests run with a writable working directory and healthy standard streams, and do not look at what else was written.",
 ["src/surface/bspline.rs","src/surface/cylinder.rs","src/surface/plane.rs","src/model.rs","src/mesh.rs","src/points.rs","src/model/step_reader.rs"],
 [("operations work on memory only, exports open only the named file","src/surface/*.rs trim; src/model.rs save_as_*")],
 observe=["all files and streams touched while the operation runs","result of the operation"])
p("C09","A crash during an export never leaves a file that lies",
 "If the process dies, or a caller's face panics, at any point of an export, the target file holds the previous contents or a prefix of the new ones (binary STL: except for the triangle count), and no other file changes. A binary STL left behind this way never declares more triangles than the complete records it stores.",
 ["crash_points","fault_sequences"],"every crash point (each system call, and inside each write), combined with short writes and errors before it",
 "No test interrupts an export.",
 ["src/model.rs","src/mesh.rs","src/points.rs"],
 [("data written front to back","src/mesh.rs write_obj; src/points.rs save_*"),("STL count is zero until all records are stored","src/model.rs Model::save_as_stl")],
 observe=["contents of the file after the crash"])
p("C10","Independent operations on different threads do not affect each other",
 "When several threads evaluate, sample, project, mesh, load and export at the same time - sharing curves, surfaces and models read-only, or each with its own, and writing different files - every operation gives a result it could give running alone: the same values and file contents for operations without internal randomness, valid ones for those with it. No schedule makes an operation panic, hang or write to another's file.",
 ["schedules","inputs"],"every interleaving of the threads' operations, down to preemption inside the geometry code",
 "The test suite runs single-threaded operations; libtest's parallelism shares no objects and checks no results across threads.",
 ["src/utils.rs","src/surface/bspline.rs","src/curve.rs","src/model.rs"],
 [("no shared mutable state; thread-local random source","src/utils.rs parameter_division")],
 observe=["results and files of each thread"])
p("C11","Adaptive curve sampling honours range and tolerance for every draw",
 "For every outcome of the random draws, the sample parameters of a curve segment start and end exactly at the segment's range, are strictly monotone, and give points on the curve; sampling ends after a number of steps bounded by the curve's size over the tolerance. For lines, circular arcs and Bezier arcs up to degree three, the polyline through the samples stays within twice the segment's tolerance of the curve at corresponding parameters.",
 ["schedules","inputs"],"every sequence of values the random source can return, for every curve segment (forward or reversed range) whose tolerance is well above rounding error",
 "Tests print the samples of two segments drawn with whatever the generator returned and assert nothing.",
 ["src/utils.rs","src/curve.rs"],
 [("recursive bisection with a randomised test point","src/utils.rs parameter_division"),("samples to points","src/curve.rs CurveSegment::get_points")],
 observe=["returned parameters and points"])
p("C12","An edge loop always becomes a closed polygon that follows its edges",
 "For every outcome of the random draws, the polygon of a closed edge loop visits its edges in order, contains every edge's start point, has no two consecutive (or first and last) vertices coinciding, does not repeat its first vertex at the end, and every vertex lies on its edge.",
 ["schedules","inputs"],"every sequence of random draws, every closed loop of lines, arcs and splines longer than the merging distance",
 "No test builds an edge loop.",
 ["src/surface.rs","src/curve.rs"],
 [("concatenate, merge near vertices, drop closing vertex","src/surface.rs EdgeLoop::to_polygon")],
 observe=["returned polygon"])
p("C13","A trimmed planar face is tiled exactly, for every draw",
 "For every outcome of the random draws, the mesh of a planar face bounded by a counter-clockwise outer loop and clockwise holes tiles the region between its boundary polygons: triangles agree in orientation with the face normal, do not overlap, leave no gap (their areas add up to the region's) and use only valid vertex indices. Every mesh vertex lies in the plane inside the region or on its boundary edges.",
 ["schedules","inputs"],"every sequence of random draws, every simple outer loop with up to several disjoint holes, straight or curved, in any plane; features several tolerances and at least 0.02 apart, tolerances of 1e-5 or more",
 "No test trims a plane; the triangulation helpers are tested on one vertex triple.",
 ["src/surface/plane.rs","src/utils/polygon.rs","src/surface.rs"],
 [("fan for convex loops, ear clipping otherwise","src/surface/plane.rs Plane::trim"),("hole bridging","src/utils/polygon.rs merge_polygons")],
 observe=["returned mesh"])
p("C14","A trimmed cylindrical face is tiled once, on the cylinder, for every draw",
 "For every outcome of the random draws, the mesh of a cylindrical face bounded by an edge loop, with or without holes, is a consistently oriented triangulation whose boundary is exactly the boundary polygons, that covers the trimmed region of the unrolled cylinder exactly once, keeps the boundary vertices on their edges and puts every other vertex on the cylinder inside the region. Meshing ends within a number of steps bounded by the number of boundary vertices.",
 ["schedules","inputs"],"every sequence of random draws, every patch spanning less than a full turn, with boundary of arcs, lines and curves on the cylinder in either direction, with and without holes running against the outer loop; features several tolerances and at least 0.05 apart",
 "One test maps one fixed grid outline to the ring and back; trimming itself is never run.",
 ["src/surface/cylinder.rs","src/utils/meshgen.rs"],
 [("ring projection, advancing front","src/surface/cylinder.rs Cylinder::trim; src/utils/meshgen.rs generate_triangular_mesh")],
 observe=["returned mesh"])
p("C15","A trimmed B-spline face is tiled once, on the surface, for every draw",
 "For every outcome of the random draws, the mesh of a B-spline face bounded by an edge loop lying on the surface, with or without holes, is a consistently oriented triangulation whose boundary is exactly the boundary polygons, that covers the trimmed region of the parameter domain exactly once, keeps the boundary vertices on their edges and puts every other vertex on the surface inside the region. Meshing ends within a number of steps bounded by the number of boundary vertices.",
 ["schedules","inputs"],"every sequence of random draws, every smooth sheet-like surface, every boundary loop on it in either direction, with and without holes running against the outer loop; features several tolerances apart",
 "No test trims a B-spline surface; the advancing front is run once on one polygon and its output is not checked.",
 ["src/surface/bspline.rs","src/utils/meshgen.rs"],
 [("Newton projection to parameters, advancing front","src/surface/bspline.rs BSplineSurface::trim; src/utils/meshgen.rs generate_triangular_mesh")],
 observe=["returned mesh"])

# --- pure functions of their input: listed, not claimed ---
PURE="Pure function of its arguments; a handful of unit tests sample a few fixed inputs."
p("C16","A result does not depend on what the process did before",
 "Within one process, after any history of earlier operations - on other objects, on the same shared objects, on look-alike arguments, some of them failed by storage errors or by a panicking caller's face - an operation on given arguments returns the same values, the same success or failure and the same file contents as it would as the first operation of a fresh process (with the same random draws). Using a curve, surface, face or mesh never changes it.",
 ["histories","fault_sequences"],"every sequence of operations in one process and every failure of the earlier ones",
 "Every test runs one operation on fresh objects; state left behind by a failed or a similar earlier call shows only in particular sequences.",
 ["src/utils.rs","src/mesh.rs","src/model.rs","src/surface/bspline.rs","src/knot.rs"],
 [("no state outside the arguments","all of src/")],
 observe=["results and files of every operation in a sequence"])
p("C20","Spline evaluation: partition of unity, end interpolation, convex hull","B-spline and Bernstein basis values are non-negative and sum to one over the whole knot range, clamped curves and surfaces start and end at their end control points, and every evaluated point lies in the convex hull of its control points.",["inputs"],"every knot vector, degree, control net and parameter in range",PURE,["src/basis.rs","src/knot.rs","src/curve/bezier.rs","src/curve/bspline.rs","src/surface/bezier.rs","src/surface/bspline.rs"],[("basis recurrences","src/knot.rs bspline_basis; src/basis.rs bernstein")])
p("C21","Derivative curves and surfaces are the derivatives","The derivative of a Bezier or B-spline curve or surface evaluates to the true derivative of the original at every parameter, and surface normals are the normalised cross product of the partial derivatives.",["inputs"],"every curve and surface, every parameter",PURE,["src/curve/bezier.rs","src/curve/bspline.rs","src/surface/bspline.rs"],[("control point differences","derivative, derivative_u, derivative_v")])
p("C22","Knot insertion, splitting, clamping and Bezier decomposition keep the curve","Inserting knots, clamping, splitting or decomposing a B-spline curve leaves the point at every parameter unchanged.",["inputs","histories"],"every curve and every sequence of insertions and splits",PURE,["src/curve/bspline.rs","src/knot.rs"],[("knot insertion","src/curve/bspline.rs add_knot, split, clamp, to_piecewise_bezier")])
p("C23","Projecting a point on a curve finds its nearest parameter","Projecting a point onto a curve returns a parameter in range whose point is the nearest one, and projecting a point of the curve returns that point.",["inputs"],"every curve and point",PURE,["src/utils.rs","src/curve/circle.rs","src/curve/line.rs","src/curve/polyline.rs"],[("grid search and Newton iteration","src/utils.rs find_nearest_parameter")])
p("C24","Projecting a point of a surface inverts evaluation","Projecting a point of a plane, cylinder or B-spline surface gives parameters that evaluate back to it, and the cylinder's ring mapping and its inverse cancel.",["inputs"],"every surface and every point on it",PURE,["src/surface/plane.rs","src/surface/cylinder.rs","src/surface/bspline.rs"],[("projections","project, project_points, project_to_ring, generate_point_from_ring")])
p("C25","Patch tessellation is a regular grid on the surface","The mesh of an untrimmed patch has (u+1)(v+1) vertices on the surface at uniform parameters with exact range ends and 2uv consistently oriented triangles that tile the grid.",["inputs"],"every surface, range and division",PURE,["src/face.rs","src/surface.rs","src/mesh.rs","src/utils.rs"],[("uniform_divide and create_triangles","src/utils.rs; src/mesh.rs")])
p("C26","Circles, cylinders, spin and sweep surfaces obey their geometry","Points of circles and cylinders keep their distance to the axis, spun points keep height and radius, and swept points are path plus section.",["inputs"],"every parameter and placement",PURE,["src/curve/circle.rs","src/surface/cylinder.rs","src/surface/spin.rs","src/surface/sweep.rs","src/surface/umbrella.rs"],[("closed formulas","get_point")])
p("C27","Polygon kernels are correct on given polygons","Winding, convexity, point-in-triangle and segment distance predicates agree with exact geometry on inputs away from degeneracy.",["inputs"],"every polygon and point",PURE,["src/utils/polygon.rs","src/utils/point.rs","src/utils.rs"],[("sign predicates","src/utils/polygon.rs; src/utils/point.rs")])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
