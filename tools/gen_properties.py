"""Writes /verif/properties.jsonl (kept as code so that the wording is easy to edit)."""
import json, pathlib
S="src/sectionproperties/"
P=[]
def prop(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    assert len(title)<=80,title
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),
      why_tests_cant=why,anchors=dict(files=[S+f for f in files],state=state or [],mechanism=[dict(name=a,where=S+b) for a,b in mech],observe_at=observe,hook_needed=hook)))
AN=["analysis/section.py","analysis/fea.py","analysis/solver.py","analysis/plastic_section.py"]
prop("C01","Results never depend on what the process computed before",
 "Everything a user obtains for a cross-section - section properties, stresses, plot contents, printed tables, fibre exports, derived geometries, meshes, imports and warnings - depends only on the geometry, mesh, materials, options and design actions supplied. Work done earlier in the same process, on the same or on any other section (repeated analyses, other sections with the same sizes or material names, discarded objects, rejected calls), never changes a later result.",
 ["histories","inputs"],"for every sequence of public calls on any number of live or discarded geometries and sections in one process",
 "The tests run a handful of fixed sections in a fixed order and compare single results with literature values; no test replays the same request after a different history.",
 AN+["post/post.py","post/stress_post.py","post/fibre.py","pre/geometry.py","pre/pre.py"],
 [("process-wide caches of shape functions and Gauss points return values that nobody modifies","analysis/fea.py"),("each analysis re-initialises what it accumulates","analysis/section.py"),("global direct-solver object re-factorises when the matrix changes","analysis/solver.py")],
 ["Section.get_*","Section.section_props","StressPost.get_stress","matplotlib axes","stdout","returned geometries"])
prop("C02","An aborted operation can be retried and then gives the exact result",
 "If an analysis, stress calculation, plot, export, import, meshing or geometry operation is aborted at any point - by an interrupt, a memory failure or an error raised below it - then repeating the same call afterwards on the same objects gives exactly the result of an execution that was never aborted. Operations on other sections after the abort are unaffected as well.",
 ["crash_points","fault_sequences","histories"],"for every operation, every point inside it at which it can be aborted, every number of consecutive aborts, and every later call",
 "No test aborts an operation part-way; the crash points inside one analysis number in the tens of thousands.",
 AN+["pre/geometry.py","pre/pre.py","post/post.py","post/fibre.py"],
 [("analyses re-initialise accumulators before summing","analysis/section.py"),("direct solver's factorisation cache","analysis/solver.py"),("function-level caches only store completed values","analysis/fea.py")],
 ["Section.get_*","StressPost.get_stress","pyplot state"])
prop("C03","A failed analysis is all-or-nothing",
 "An analysis that raises or is interrupted leaves every stored result of its section exactly as it was before the call - previously calculated properties are unchanged, and properties that were not available before are still reported as not available - or, if it was interrupted after its last step, completely up to date. A partially calculated, zero or stale-mixed value is never returned by a query or silently used by a later stress calculation.",
 ["crash_points","fault_sequences","histories"],"for every analysis (geometric, warping, frame, plastic), first or repeated, and every point at which it fails",
 "The tests check only that two calls made too early raise; nothing looks at the section after a failed or interrupted analysis.",
 ["analysis/section.py","analysis/plastic_section.py","post/post.py"],
 [("results are published only when the analysis has completed","analysis/section.py"),("queries raise while a result is missing","analysis/section.py")],
 ["Section.get_*","Section.section_props","Section.calculate_stress","Section.get_stress_at_points"],
 state=[dict(name="section_props",meaning="stored results of a section",where=S+"post/post.py")])
prop("C04","Operations never modify the objects the user passed in",
 "Analyses, stress calculations, queries, plots, exports and geometric operations leave the geometry, its mesh, its points, holes and control points, the materials, the section's mesh arrays and every list, array or dictionary passed as an argument exactly as they were; only the documented in-place operations (creating a mesh, compiling, setting recovery points) change the object they are called on. Geometric operations return new objects whose later use does not change the original, and all of this also holds when the operation fails part-way.",
 ["histories","crash_points","inputs"],"for every public operation, completed or aborted at any point",
 "Tests compare a returned value and never compare the inputs before and after, least of all after a failure.",
 ["pre/geometry.py","pre/pre.py","pre/bisect_section.py","analysis/section.py","analysis/plastic_section.py","post/post.py","post/stress_post.py","post/fibre.py"],
 [("geometry operations build new geometry objects","pre/geometry.py"),("warping analysis shifts a private copy of the elements","analysis/section.py"),("plastic analysis works on a re-aligned copy","analysis/plastic_section.py")],
 ["Geometry attributes","Geometry.mesh","Section.mesh","argument objects"])
prop("C05","Stress results are complete, independent snapshots",
 "A stress result covers every finite element of the section exactly once, under the material the user assigned to its region, also when equal materials are distinct objects (after copying, shifting or loading). Once returned it never changes: later analyses, stress calculations with other actions, plots, queries, re-meshing or aborted calls leave earlier stress results and the arrays handed out from them numerically untouched, and a new stress calculation never accumulates on an old one.",
 ["histories","crash_points","inputs"],"for every interleaving of stress calculations, analyses and post-processing on one or more sections, including aborted ones",
 "Tests calculate one stress result at a time and check a few values; equal-but-distinct materials and several live stress results are never combined.",
 ["analysis/section.py","post/stress_post.py","pre/geometry.py"],
 [("stress results hold their own copy of the material groups","post/stress_post.py"),("elements are assigned to material groups at construction","analysis/section.py")],
 ["StressPost.get_stress","StressPost.material_groups","Section.material_groups"])
prop("C06","Analyses of different sections in different threads do not interfere",
 "When different sections are built, analysed, queried and exported from several threads of one process, every thread obtains exactly the results it would obtain alone, for every interleaving, including when the sections share geometry or material objects and when one of the threads is interrupted. No thread deadlocks.",
 ["schedules","fault_sequences"],"for every interleaving of two or more threads each working on its own section, with and without an interrupt in one of them",
 "The tests are single-threaded; the numerical kernels release the interpreter lock and the direct solver is one stateful object per process.",
 AN+["post/fibre.py","pre/geometry.py","pre/pre.py"],
 [("access to the shared direct solver is serialised","analysis/solver.py"),("shape-function caches are read-only after insertion","analysis/fea.py"),("kernels have no shared scratch state","analysis/fea.py")],
 ["Section.get_*","StressPost.get_stress","to_fibre_section"])
prop("C07","One analysed section can be read from many threads at once",
 "Queries, stress calculations, stress-at-point queries, stress result extraction and fibre export on one already analysed section may run in any number of threads at once; each returns what it returns when run alone, for every interleaving. If meanwhile another thread repeats an analysis of that section, readers still see complete results and never intermediate ones.",
 ["schedules"],"for every interleaving of concurrent readers and re-analyses of one section",
 "The tests are single-threaded.",
 ["analysis/section.py","analysis/fea.py","post/stress_post.py","post/fibre.py"],
 [("stress calculation works on its own copy of the material groups","post/stress_post.py"),("queries only read stored results, which are published in one step","analysis/section.py")],
 ["Section.get_*","Section.calculate_stress","Section.get_stress_at_points","to_fibre_section"])
prop("C08","Failures of the numerical back ends are reported, never stored",
 "If a component that an analysis relies on - the iterative or direct linear solver, the preconditioner, the root finder, the mesh generator - raises or reports non-convergence, or if a linear solver returns a solution that is not finite or violates the constraint the method enforces beyond its tolerance (in either direction), then the call that used it raises an exception. No property calculated from such an answer is ever stored or returned.",
 ["fault_sequences","inputs"],"for every analysis, every use of a back end inside it, and every way the back end can fail",
 "Real back ends practically never fail on the test sections, so the tests exercise none of these branches.",
 ["analysis/solver.py","analysis/section.py","analysis/plastic_section.py","pre/pre.py","post/fibre.py"],
 [("convergence flag and constraint multiplier checks after each linear solve","analysis/solver.py"),("root-finder convergence check","analysis/plastic_section.py")],
 ["exceptions","Section.get_*","to_fibre_section"])
prop("C09","Plotting cleans up after itself and changes nothing else",
 "Every plot saved to a file closes the figure it opened, whether it succeeds or fails at any point (a disk error while saving, an invalid argument, an interrupt), and a plot that fails before returning leaves no figure of its own open; axes and figures supplied by the user are never closed. A failed save is reported as an exception, and plots never alter results or other figures.",
 ["crash_points","fault_sequences","histories"],"for every plotting method, every destination (new figure, user axes, file) and every point of failure",
 "Tests call each plot once, without faults, and ignore the process-wide figure registry.",
 ["post/post.py","post/stress_post.py","analysis/section.py","pre/geometry.py"],
 [("one plotting context manager used by every plot","post/post.py")],
 ["matplotlib.pyplot.get_fignums","exceptions","saved files"],
 state=[dict(name="pyplot figure registry",meaning="open figures of the process",where=S+"post/post.py")])
prop("C10","Fibre export: what is on disk is what was returned, or an error",
 "When an export of a fibre section to a file returns, the file holds exactly the returned text, complete, whatever the file held before; when the storage fails in any way (full disk, short or failed write, failed open or close) the call raises instead of returning. The text itself describes every element of the mesh exactly once in element order, with that element's area, centroid and material (or the tag its material name is mapped to), so that total area and areas per material are those of the mesh, and depends only on the geometry, mesh and options.",
 ["fault_sequences","crash_points","histories"],"for every geometry, analysis type and option, every previous content of the file and every storage fault during the export",
 "Tests write one export to a healthy temporary directory and do not read it back under faults.",
 ["post/fibre.py"],[("commands are assembled in memory and then written","post/fibre.py")],["returned text","file content","exceptions"])
prop("C11","Imports give the complete geometry or an error, and leave the file alone",
 "Importing a DXF or Rhino file either returns the complete geometry of the file, the same on every import, or raises; a file that is missing, unreadable, fails part-way through reading, or contains no shape raises and never yields a partial geometry. A geometry that was imported can be meshed. The source file is never modified and no file handle stays open, also on failure.",
 ["fault_sequences","histories"],"for every supported file, every read fault and every history of earlier imports",
 "Tests import intact sample files once.",
 ["pre/geometry.py","pre/rhino.py"],[("existence, empty and type checks around the importers","pre/geometry.py")],["returned geometry","exceptions","open files"])
prop("C12","Progress display, verbosity and the clock never affect results",
 "Running any analysis with progress display or verbose output gives exactly the results of running it silently, for every timing of the display's refreshes and every jump or stall of the clock. After the call returns or raises - also when the terminal fails or the analysis is interrupted - the display is stopped: its refresh activity has ended and standard output is usable again.",
 ["schedules","fault_sequences","configurations"],"for every analysis, display option, refresh schedule, clock behaviour and terminal failure",
 "Tests run a single section with progress on, on a healthy terminal, and compare nothing.",
 ["analysis/section.py","analysis/solver.py","analysis/plastic_section.py"],
 [("live display used as a context manager around each analysis","analysis/section.py"),("the same inner function runs with and without progress","analysis/section.py")],
 ["Section.get_*","stdout","live display state"])
prop("C13","Optional accelerators and solver choice do not change the answers",
 "With or without the optional accelerators (just-in-time compilation, the fast direct solver), with the direct or the iterative solver, and when an accelerator becomes unavailable or available between process starts, every analysis and export gives the same properties and stresses within solver tolerance. A missing optional dependency is reported as an import error only by the features that need it.",
 ["configurations","inputs"],"for every installed subset of the optional dependencies, solver choice and section",
 "The test environment has exactly one configuration installed; the fall-back code never runs.",
 ["analysis/fea.py","analysis/solver.py","analysis/section.py","pre/geometry.py","pre/rhino.py"],
 [("import fall-backs","analysis/fea.py"),("import fall-back of the direct solver","analysis/solver.py")],
 ["Section.get_*","StressPost.get_stress","to_fibre_section","exceptions"])
prop("C14","A section keeps the mesh it was created with",
 "Re-meshing a geometry, successfully or not, has no effect on sections and stress results already created from it: every analysis, query, stress calculation, plot and fibre export of such a section keeps using the mesh that was present when the section was created and gives the same results. A meshing attempt that fails leaves the geometry with the mesh it had.",
 ["histories","crash_points"],"for every order of meshing, section creation, analyses and failed meshing attempts on one geometry",
 "Every test meshes a geometry once per section; none analyses a section after its geometry was re-meshed.",
 ["analysis/section.py","pre/geometry.py"],[("the section keeps a reference to the mesh it was given","analysis/section.py"),("meshing replaces the mesh instead of modifying it","pre/geometry.py")],
 ["Section.get_*","Geometry.mesh"])
prop("C15","Results are available exactly when their analysis has completed",
 "After any sequence of completed, rejected and failed calls, a query returns a value if and only if an analysis that provides it has completed on that section and the query suits the section (plain or composite); otherwise it raises. Analyses and stress calculations whose prerequisites are missing raise without side effects, and the order and number of analyses does not change any value.",
 ["histories","crash_points"],"for every sequence of analyses, queries, stress calculations and failures on one section",
 "Tests check a few single queries on a fresh section; the combinations of analyses, repetition, failure and material kind are not sampled.",
 ["analysis/section.py","post/post.py","analysis/plastic_section.py"],
 [("each query checks that its result exists","analysis/section.py"),("analyses check their prerequisites","analysis/section.py")],
 ["Section.get_*","Section.calculate_*","exceptions"])
prop("C16","Saved objects survive a process restart unchanged",
 "A geometry, section, stress result or material that is pickled or deep-copied and restored - in the same process or after a crash and restart in a fresh one - yields the same results as the original and can be analysed further, from whatever point in its history it was saved. Copies are independent: using one does not change the other.",
 ["crash_points","histories"],"for every point of an analysis history at which the process crashes and only the saved bytes survive",
 "No test serialises or restores anything.",
 ["analysis/section.py","analysis/fea.py","pre/geometry.py","pre/pre.py","post/post.py","post/stress_post.py"],
 [("objects hold plain data only","analysis/section.py"),("materials compare by value","pre/pre.py")],
 ["Section.get_*","StressPost.get_stress","Geometry attributes"])
prop("C17","A long-lived process does not accumulate",
 "However many sections are built, analysed, plotted, exported and dropped in one process, and however often one live geometry, section or stress result is used again, what the process holds on to stays bounded once the user drops the objects and closes the figures: no memory, retained package objects, unbounded caches or registries, threads, open files, figures, warning filters or files on disk accumulate from one use to the next, and the work done for the same request does not grow. This also holds when requests are rejected, fail or are interrupted, and when each is made in a new thread.",
 ["histories","fault_sequences"],"for every sequence of uses of any length, including rejected, failed and interrupted ones",
 "Tests run short programs once; growth only shows in a process that goes on.",
 ["analysis/section.py","analysis/fea.py","analysis/solver.py","pre/geometry.py","post/post.py","post/stress_post.py","post/fibre.py"],
 [("bounded caches of the shape functions","analysis/fea.py"),("factorisations are released","analysis/solver.py"),("figures are the user's","post/post.py")],
 ["memory of the process","number of live objects","open files, threads and figures"])
# --- pure functions of their input: listed, not claimed ---
def pure(id,title,statement,files,why="Tests compare a finite list of sections with literature values; the statement is over all inputs."):
    prop(id,title,statement,["inputs"],"for every valid input",why,files,[("direct computation",files[0])],["returned values"])
pure("C50","Geometric properties equal the exact integrals over the shape","For every polygonal cross-section the reported area, first and second moments of area and centroid equal the exact integrals over the region, weighted by elastic modulus for composite sections.",["analysis/section.py","analysis/fea.py"])
pure("C51","Properties transform correctly under rigid motion and scaling","Translating, rotating, mirroring or scaling a section changes its properties by the corresponding transformation rules.",["analysis/section.py","pre/geometry.py"])
pure("C52","Stresses are in equilibrium with the applied actions","The integrals of the stress field over the section equal the applied design actions, and stresses are linear in the actions.",["analysis/section.py","analysis/fea.py"])
pure("C53","Plastic centroid balances forces","The plastic axes divide the section into parts of equal plastic force and plastic moduli are not smaller than elastic ones.",["analysis/plastic_section.py"])
pure("C54","Library sections have the dimensions requested","Every section generator produces a valid polygon with the dimensions, areas, radii and material regions its parameters describe.",["pre/library/steel_sections.py","pre/library/concrete_sections.py","pre/library/primitive_sections.py","pre/library/nastran_sections.py","pre/library/bridge_sections.py","pre/library/timber_sections.py"])
pure("C55","Boolean and offset operations agree with set theory","Union, difference, intersection, symmetric difference, splitting and offsetting produce regions with the corresponding areas and materials.",["pre/geometry.py","pre/bisect_section.py"])
pure("C56","Meshes are conforming and respect the requested sizes","The generated triangles tile the geometry exactly, keep region attributes, and respect the requested maximum element area and minimum angle.",["pre/pre.py","pre/geometry.py"])
pure("C57","Warping and torsion results converge with mesh refinement","Torsion constant, shear areas, shear centre and warping constant converge to the elasticity solution as the mesh is refined.",["analysis/section.py","analysis/fea.py"])
out=pathlib.Path(__file__).resolve().parent.parent/"properties.jsonl"
out.write_text("".join(json.dumps(p)+"\n" for p in P))
