# What each check explores; the single source for MANIFEST.json and the evidence files.
MC = "model_checking"
GROUPS = {
    "heap": {"src": ["h_heap.cpp"]},
    "fmm": {"src": ["h_fmm.cpp"]},
    "init": {"src": ["h_init.cpp"]},
    "boundary": {"src": ["h_boundary.cpp"]},
    "mesh": {"src": ["h_mesh.cpp"]},
    "evolve": {"src": ["h_evolve.cpp"]},
    "move": {"src": ["h_move.cpp"]},
    "sens": {"src": ["h_sens.cpp"]},
    "opt": {"src": ["h_opt.cpp"], "stub": True, "san": True, "libflags": ["-fno-sanitize=vla-bound"]},
    "cycle": {"src": ["h_cycle.cpp"], "stub": True},
    "bind": {"src": ["h_bind.cpp"], "stub": True, "bindings": True, "defs": ["-DPYBIND"], "libflags": ["-std=c++17"]},
    "indep": {"src": ["h_indep.cpp"], "stub": True},
    "indepsan": {"src": ["h_indep.cpp"], "stub": True, "san": True, "libflags": ["-fno-sanitize=vla-bound"]},
    "indepthr": {"src": ["h_indep.cpp"], "stub": True, "san": "thread"},
    "demo": {"src": ["h_demo.cpp"] + ["demo_%s.cpp" % n for n in ["shape_match", "bimodal", "bimodal_brolly", "dumbbell", "minimise_area", "minimise_perimeter", "minimise_perimeter_constrained"]], "stub": True, "demos": True, "san": True, "ld": ["-Wl,--wrap=_ZNSt13random_device9_M_getvalEv", "-Wl,--wrap=exp", "-Wl,--wrap=_ZN4slsm8LevelSet6updateEd"], "libflags": ["-fno-sanitize=vla-bound"]},
    "prog": {"src": ["h_prog.cpp"]},
    "progsan": {"src": ["h_prog.cpp"], "san": True},
    "io": {"src": ["h_io.cpp"], "ld": ["-Wl,--wrap=fopen"]},
    "iosan": {"src": ["h_io.cpp"], "ld": ["-Wl,--wrap=fopen"], "san": True},
}
PROPS = {}
def add(id, groups, technique, note, oracle, quick, thorough, level=MC, **kw):
    PROPS[id] = dict(groups=groups, technique=technique, note=note, oracle=oracle,
                     bounds={"quick": quick, "thorough": thorough}, level=level, **kw)

add("C01", ["mesh"], "exhaustive enumeration of mesh configurations against a closed-form grid model",
    "Every mesh up to the bound is built and every node and element compared; larger meshes rest on eight elongated/large sizes.",
    "closed-form row-major grid", "all w,h <= 30 plus 11 large/elongated sizes", "all w,h <= 120 plus 11 large/elongated sizes")
add("C02", ["mesh"], "exhaustive enumeration of query points on a per-cell alphabet against brute-force search",
    "All cells of all listed meshes x 22x22 in-cell offsets (incl. rounding-tolerance offsets); real-valued points between the offsets are not enumerated.",
    "brute-force nearest node and containing cell", "8 meshes x 22 offsets per axis per cell; 6 large or elongated ones on every sixth cell", "all meshes up to 12x12 and 4 more x 79 offsets per axis per cell")
add("C03", ["heap"], "bounded exhaustive exploration of heap operation histories against a reference priority queue",
    "All histories up to the depth for capacities 0..4 and three value levels, also with values that all but coincide, are tiny or huge, plus all insertion orders of up to 7/8 keys with every re-keying, and fills of large heaps in several orders; other longer histories are not covered.",
    "reference multiset of live (handle, address, value) entries, compared after every operation and by draining",
    "capacities 0..4, depth 6 (5 for capacity 4), 3 value levels; all insertion orders of 4..7 keys x every re-keying",
    "capacities 0..4, depth 7 (6 for capacity 4), 3 value levels; all insertion orders of 4..8 keys x every re-keying")

add("C04", ["fmm"], "bounded exhaustive enumeration of sign patterns on small grids, driven through the real fast-marching code and compared with a reference fast-marching model",
    "All sign words (+,-,0) on small meshes and all sign patterns of a window inside larger meshes x magnitude schemes, plus lines/circles; magnitudes outside the schemes are not enumerated. Where the outcome depends on a rounding-level tie (found by jittering the reference) only side, zeros and next-to-contour values are compared.",
    "independent fast marching (linear-search acceptance, closed-form local solver)",
    "all 3-letter sign words on meshes up to 2x2, all +/- words up to 3x3, 1x6, 2x4; all 2^9 / 3^4 windows in 7x7..12x2 meshes; lines and circles; up to 6 magnitude schemes (C13-C18 also one around the library's 1e-6 tolerance)",
    "adds 3-letter words on 3x2, +/- words on 4x3 and 1x8, 3-letter 3x3 windows at 9 positions, 4x3 windows, finer lines/circles")
add("C05", ["fmm"], "bounded exhaustive enumeration of input fields; metamorphic comparison of the real code with itself under all grid symmetries, inversion and scaling, plus exact distance for lines and circles",
    "Same field alphabet as C04 on fewer patterns; each is re-run under 7 symmetries, inversion, 3 scalings and 2 far-field changes. Tie-dependent patterns are skipped. Accuracy bounds are those the unchanged scheme attains, with a margin.",
    "self-comparison under symmetry; analytic distance to lines and circles",
    "sign words up to 3x2, windows in 7x7..12x2; 72 angles x 7 offsets x 2 meshes; circles", "adds 3x3, 4x2, 1x8 words, 3-letter windows, 144 angles x 15 offsets")
add("C06", ["fmm"], "bounded exhaustive enumeration of fields x active sets x boundary velocities, compared with a reference extension model",
    "5 active-set patterns x 5 velocity patterns on each field; other active sets and velocities rest on the local update being the same.",
    "reference fast marching with velocity transport; range and unchanged-node invariants on every case; the same speeds times 2^-40 and 2^40",
    "sign words up to 3x2, windows in 6x6..9x3, lines, circles", "adds 3x3 and 1x7 words, 3-letter windows at the corners of 7x7")
add("C08", ["init"], "bounded exhaustive enumeration of constructions and of three-step histories of one level set object, band recomputed from scratch after every step",
    "Band and mine membership recomputed from the public field after every operation; fields are lines, circles, holes and plateau patterns in which nearly every node is a mine.",
    "direct definition of band and mines", "5 meshes x all hole lists of the menu x 5 band widths x fixed/free; 1/5 of all length-3 field histories x masks", "all pairs of holes; all length-3 histories of 18 fields x 6 band widths x fixed/free x 3 mask modes")
add("C09", ["init"], "bounded exhaustive enumeration of hole lists",
    "All lists of at most two holes from a menu of 80 (inside, on the rim, outside, tiny, huge), a lattice of triples.", "closed-form minimum of distances",
    "6 meshes x all lists of <= 2 of 80 holes + every 5th triple per position; 3 large or elongated meshes; up to 300 holes at once", "10 meshes, all triples")
add("C10", ["init"], "bounded exhaustive enumeration of simple polygons over vertex menus",
    "All simple polygons, every start vertex and orientation, with 3..6 (7) vertices from six menus of 8-9 vertices incl. slivers, vertices on nodes, on the rim, non-integer and outside the domain; outlines that touch themselves; the same outline with its sides cut into pieces down to 1/500 of a cell; many-sided families; nodes exactly on a polygon edge are not judged for side.",
    "distance to segments; winding angle", "6 menus x 3..6 vertices (5 over 8 and 6 over 7 of the menu), with and without repeated vertices", "up to 7 vertices over the full menus")
add("C07", ["evolve"], "bounded exhaustive enumeration of boundary point placements, and of discretised contours, compared with a reference mapping and extension",
    "All pairs of points over a lattice of in-cell positions (on nodes, a rounding distance off, mid-edge, generic), a sublattice of triples; lines, circles, strips and sign words for the whole pipeline. Exact distance-one and distance-1e-3 thresholds hit only by rounding are not judged.",
    "weighted mean recomputed per node; reference fast marching for the extension",
    "4 tiny meshes x all pairs x 3 modes, triples strided by 5; 3 meshes of shapes x 3 band widths x fixed/free x 4 velocity patterns x masks; sign words to 3x2", "triples strided by 2, more shapes and words")
add("C11", ["evolve"], "bounded exhaustive exploration of update histories, stepped in lockstep with a model of the step and of the mine condition",
    "Every history of 3 (4) updates over 7 (time step, velocity, gradient) operations; nodal velocities and gradients are set directly.",
    "explicit step model; fresh level set for re-distanced fields", "2 meshes x ~7 shapes x 3 band widths x fixed/free x masked/unmasked x 343 histories", "~20 shapes, 2401 histories (a third of those with masks)")
add("C12", ["evolve"], "bounded exhaustive enumeration of nodal words along every row and column, compared with a reference WENO scheme and under all grid symmetries",
    "Every 3-letter word along one row/column in a generic background (longest rows strided in quick), every word on tiny meshes, corner-rule variants, planes, circles.", "reference Godunov / HJ-WENO5 modulus; self-comparison under symmetry",
    "7 meshes (9x1 to 3x3), tiny meshes exhaustively, 4 velocity patterns", "no stride")
add("C20", ["evolve"], "bounded exhaustive enumeration of temperature x time step x move limit x contour x seed, compared with a model driven by a mirror generator",
    "Mirror generator draws the same standard normals; contours with zero-length points are left out.", "closed-form noise and scale; deterministic extension of the noisy velocities",
    "2 meshes x ~14 shapes x 3 move limits x 7 temperatures x 4 time steps x 3 seeds x fresh/used generator; 19 root mean square displacements through half the move limit x 6 move limits x 5 temperatures", "all shapes")
add("C29", ["evolve"], "bounded exhaustive exploration of operation histories with the rim invariants checked after every step",
    "Every history of 4 (5) steps over grow, shrink, mixed, fast growth, re-distance from 6 initial structures; plus single steps with arbitrary nodal speeds.", "rim invariants on every state",
    "3 meshes x 6 structures x 2 band widths x fixed/free x 625 histories", "3125 histories")
add("C13", ["boundary"], "bounded exhaustive enumeration of nodal sign patterns and activity patterns, compared with a reference marching-squares model",
    "All 3-letter sign words on small meshes x magnitude schemes, all activity masks on small meshes, windows inside larger meshes, lines/circles/strips, with and without target; elements only partly in the band get a weaker check.",
    "reference marching squares", "3-letter words up to 2x2 (3x2 strided), +/- up to 3x3, activity masks, shapes", "adds full 3x2 words and further schemes")
add("C14", ["boundary"], "bounded exhaustive enumeration of nodal sign patterns and activity patterns, compared with a reference marching-squares model",
    "As C13, also comparing segments per element, all lengths, lookup lists and closedness.", "reference marching squares; recomputed lengths and adjacency", "as C13", "as C13")
add("C15", ["boundary"], "bounded exhaustive enumeration of nodal sign patterns, compared with a reference polygon-area model and with the inverted field",
    "As C13 for elements wholly visible; complement is judged where no contour runs along element edges and the saddle centre is not exactly zero.", "polygon area of the reference marching squares; inversion", "as C13", "as C13")
add("C17", ["boundary"], "bounded exhaustive enumeration of contours x move limits x mask patterns, compared with the closed-form limits",
    "Lines and circles swept across small meshes, six move limits, every single-node mask, none, all and checkerboards.", "closed-form limits", "3 meshes, contour offsets in steps of 0.1; contours 5e-9 to 0.75 either side of every row and column of nodes of 2 meshes x 4 move limits x 4 masks", "offsets in steps of 0.05, all masks for all move limits")
add("C18", ["boundary"], "bounded exhaustive enumeration of nodal fields, compared with a reference normal computation; planar contours against the plane normal",
    "As C13; points where the interpolated gradient vanishes only have to be finite.", "finite differences and inverse-square interpolation recomputed from the public field", "as C13 + 48 angles x 17 offsets of planes", "96 angles x 35 offsets of planes")
add("C19", ["sens"], "bounded exhaustive enumeration of points, normals, step sizes and callbacks observing every call-back state; Ito correction on enumerated contours against a reference curvature",
    "The callback records the object, position and every other field it sees at each call. Points of zero length are left out (the derivative per unit length is undefined).",
    "closed-form central difference; perimeter differences recomputed from the untouched boundary",
    "5x4 positions x 6 normals x 5 step sizes x 4 lengths x 7 functions (two of them huge and tiny) x 3 neighbours; 2 meshes x ~100 contours x 5 temperatures x 3 step sizes x both overloads x once/twice", "more sign patterns")
add("C21", ["sens"], "bounded exhaustive exploration of call histories of one and two generators, compared with a freshly seeded generator",
    "Every history of at most 4 (5) calls over 9 operations, re-seeded and followed by every continuation of 2-3 calls; every interleaving of two generators. Range coverage and moments are checked along deterministic 4000-draw streams of five seeds.",
    "fresh generator with the same seed; a mirror drawing standard normals", "prefixes to length 4 x continuations to length 3; interleavings to 4 calls each", "prefixes to 5, interleavings to 5 calls each")
add("C26", ["init"], "bounded exhaustive exploration of operation histories (mask, evolve, re-distance) of one level set, with the set of masked nodes tracked by a model",
    "Every history of 3 (5) steps over 5 operations from 4 initial structures x 15 mask shapes; second masks are paired on a sublattice. Nodes within rounding of a circle or on a polygon edge are not judged.",
    "mask set model; fresh unmasked level set for the re-distanced field", "4 structures x 15 masks (3 of them with nodes within a hair of the outline on either side) x all histories of length 3 over 5 operations x fixed/free", "length 5")
add("C30", ["init"], "bounded exhaustive exploration of operation histories after each target constructor, compared with separately built level sets",
    "5 hole sets and 3 polygons as initial/target, every history of 3 steps over 4 operations; and every target field over 3-5 values on meshes of up to 2x2 elements, discretised beside 6 current structures (active and inactive nodes) and compared with the same field discretised alone: points, segments, lengths, element areas.", "separately built level sets", "2 meshes x all pairs x fixed/free x all 64 histories; 28,500 target fields x 6 structures x 2", "1.5 million target fields on meshes up to 3x3")
add("C31", ["init"], "exhaustive enumeration of parameter boundary values for every constructor",
    "20+ move limits (incl. NaN, infinities, neighbours of 0 and 1) x band widths 0..8 and large x constructors.", "the documented acceptance condition", "all combinations", "all combinations")
add("C32", ["init"], "exhaustive enumeration of mesh sizes, compared with the documented hole pattern and its mirror images",
    "Mesh sizes over the range in which the number of holes changes.", "closed-form hole grid", "112 mesh sizes from 75x75 to 211x150", "all mesh sizes 75..170 in both directions")
add("C22", ["io"], "bounded exhaustive enumeration of saved fields (value alphabet at every node), round-tripped through the real save and load functions",
    "27 values incl. extremes, denormals, NaN payloads, infinities; every value at every node of small meshes, every word of values on the smallest mesh. Text files of non-finite fields may be refused.",
    "bitwise / printed-precision comparison; byte-exact snapshots of everything else", "10 meshes x 27 values x every node x 3 formats x named/numbered; every 13th word on 1x1", "13 meshes; every word on 1x1")
add("C23", ["io", "iosan"], "exhaustive enumeration of single-fault corruptions of saved files (truncation, deletion, insertion, replacement, line moves, foreign files), judged by a reference parser; run with and without address/undefined-behaviour sanitizers",
    "All single faults of files of meshes up to 1x2 (3x2 thorough), plus files of all other meshes/layouts; double faults are not enumerated. Trailing blank lines, carriage returns, nan/inf and overflowing literals may be accepted or refused.",
    "reference grammar of the text format; file size of the binary format", "3 meshes x 3 formats x every truncation/deletion/insertion/replacement; all foreign files of meshes up to 4x4", "5 meshes; foreign files up to 5x5")
add("C24", ["io"], "bounded exhaustive enumeration of exports (kind x structure x number x directory), parsed back and compared with the exported objects",
    "Numbers across all digit counts; VTK title line is free text.", "reference reader for every layout; byte equality of numbered and named files; directory listing",
    "90 structures x 12 export kinds x 20 numbers x 3 directory modes", "126 structures")
add("C25", ["io"], "exhaustive fault enumeration: the file system refuses the save at every byte position, every buffer flush fails once or for good, every write system call fails, is interrupted or is short, close fails, unwritable targets",
    "Faults injected by file size limits and by stand-in streams behind fopen; stand-in streams see nothing of saves that use C++ streams, the size limit does.", "outcome and bytes on disk", "4 structures x 12 export kinds x every byte position x every flush x close", "6 structures")
add("C27", ["opt"], "bounded exhaustive enumeration of boundary points, limits and answers of the inner optimiser, which is replaced by a stand-in that replays every answer of a menu",
    "NLopt itself is not installed: its answers (within its bounds) and its failures are enumerated instead. A zero multiplier of the objective (documented as undefined velocity) is excluded. Run under address and undefined-behaviour sanitizers.",
    "closed-form displacement, clamping and rescaling", "all 1-2 points x 6 sensitivities x 7 limit classes x 5 answers x 3 starts x failures; sensitivity words for 2-3 functions; boundaries of up to 70,000 points; functions in huge, tiny and ordinary units; up to 10 constraints in shifted patterns of distances", "all words of 3 points strided by 7")
add("C28", ["opt"], "bounded exhaustive enumeration of constraint distances, types and sensitivity sets, with every callback probed by a stand-in for the inner optimiser; repeated solves of one object",
    "Functions are probed at the origin, on the axes, at all corners and at the answer. Exact ties between a distance and the reachable change are skipped.",
    "independent computation of the active set, values, derivatives and final multipliers", "16 sensitivity sets x up to 3 constraints x 6 distance classes x both types x 6 repeat modes; functions in huge, tiny and ordinary units; up to 10 constraints in shifted patterns, solved three times", "60 sets")
add("C16", ["prog"], "bounded exhaustive exploration of programs of public calls; after every call the used objects are compared byte for byte with freshly constructed ones",
    "Fresh objects get the public fields of the used ones and are built under a different heap fill pattern. States already explored to the remaining depth are not re-explored.",
    "freshly constructed objects given the same public fields; the call repeated; what the call only reads", "48 structures on meshes 1x1 to 12x12, every program of 5 of 15 calls; one fast marching object over every triple of 10 fields; one boundary over every pair of structures", "72 structures, programs of 6 calls, 15 fields")
add("C33", ["progsan"], "bounded exhaustive exploration of programs of public calls under address and undefined-behaviour sanitizers and library bounds checks, with state invariants checked after every call",
    "Programs in the documented order (boundary-dependent calls only after a discretisation of the current field). Re-distancing when no contour is left is refused by design and ends the program.",
    "invariants over the whole public state; sanitizers", "40 structures on meshes 1x1 to 7x2, every program of 6 of 15 calls; long programs on large and elongated meshes up to 1001x1001", "64 structures, programs of 7 calls")
add("C34", ["move"], "exhaustive enumeration of initial structures, speed fields and steps driven through the whole step pipeline (speeds at points, extension, upwind gradients, update, re-discretisation), compared with the exact motion of the structure",
    "Planes are compared exactly (contour, nodes, cell areas); discs and speed fields varying along the contour are compared with the analytic motion within the stated discretisation tolerance. Bounded meshes, speeds and step counts.",
    "closed-form motion of half-planes, discs and holes; inclusion of structures; conservation of area",
    "48 angles x 5 offsets x 5 speeds x 2 step sizes x 4 meshes, 3 steps each; discs and holes x 3 band widths x speed patterns x several steps with and without re-distancing; one-signed speeds on all sign words, windows, lines and circles",
    "adds finer angles, offsets, radii and larger meshes")
add("C35", ["move"], "bounded exhaustive exploration of operation programs; every program is run on the structure and on its images under the seven other symmetries of the grid and under shifts, and the real code is compared with itself",
    "Structures in general position: ties and nodes on the contour, which the library may decide either way, are replaced by generic equivariant values. Programs up to the depth bound.",
    "equivariance of field, band, contour, speeds, gradients and areas under the symmetry group of the grid and under shifts of a larger mesh",
    "5 structures x 4 meshes x 2 band widths x fixed/free x all programs of 3 operations x 7 symmetries; shifts of 4 materials in larger meshes",
    "programs of 4 operations")
add("C36", ["cycle"], "exhaustive enumeration of structures, objectives, constraints, scales, move limits and optimiser answers driven through the whole documented optimisation cycle, with the inner optimiser replaced by an enumerated menu or a grid search",
    "The inner optimiser (NLopt, not installed) is a stand-in that returns enumerated multipliers or the best of a refined grid. First-order quantities are compared within the stated tolerances; contours in general position with the edge of the domain left at rest.",
    "the step's own announcement (sum of sensitivity, length and displacement) against the measured change of length, area and weighted area; curvature flow of a circle in closed form; the isoperimetric optimum",
    "12 shapes x 11 sets of functions x 2 move limits x 2 band widths x fixed/free x min/max x all answers of 5 per function, 3 steps each; circles shrunk over up to 60 steps; 4 shapes x 3 area goals x one-sided/equality constraints run to the optimum over 100-160 steps",
    "adds 16 discs and holes and all scales and re-distancing intervals at every goal")
add("C37", ["opt"], "bounded exhaustive exploration of histories of optimisations with every way in which the inner optimiser can end, with the report read after each and before the first, the object placed in memory of known content",
    "The inner optimiser (NLopt, not installed) is a stand-in; endings that NLopt turns into exceptions which the library lets through (generic failure, out of memory, forced stop) are not explored.",
    "the ending injected by the stand-in; problem direction, algorithm and constraint count as given by the caller", "0 to 2 constraints, histories of up to 4 optimisations over 8 endings, 0 to 2 retried round-off failures, 4 memory contents; every pattern of up to 3 constraints at 5 distances, equality or not, both directions and 4 algorithm choices", "histories of up to 5, up to 4 constraints")
add("C38", ["bind"], "bounded exhaustive exploration of programs on two objects in lockstep, one driven by name through the real binding code and one through the C++ interface, over every way of passing the arguments",
    "pybind11 is not installed, so a stand-in records what the binding code registers and applies pybind11's rules for overloads, names, defaults, conversions and unregistered types; the Python interpreter, reference counting and object lifetimes are not covered. The hidden flag for self-testing heaps has no visible default.",
    "the C++ member of the same name with the same arguments, on a copy of the object", "every attribute read and written on 2-4 objects; every constructor with every positional/named/default split; 12 operations to depth 3 on 4 structures; every file call with every option and split; 7 random draws to depth 4; every optimiser constructor with 4 answers", "all variants of the constructors, operations to depth 4, draws to depth 5")
add("C39", ["indepthr", "indepsan", "indep"], "exhaustive exploration of the interleavings of sessions at call and callback granularity, with happens-before race detection on two unordered threads as the reduction for finer interleavings",
    "Sessions of six calls over all parts of the library. Finer interleavings of threads aren't executed one by one: with no two conflicting accesses in the whole of both sessions they are all equivalent to the one that was. The inner optimiser is a stand-in.",
    "each session run alone in a process of its own", "21 sessions (7 kinds x 3 variants), all 924 interleavings of pairs (a third of the pairs of different kinds), every nesting of a run of calls in each of 9 callbacks, all pairs in two threads, all interleavings of original and copy from every call on in 3 ways of copying (also under address and undefined-behaviour sanitizers), a seventh of the triples strided by 5", "all pairs, all triples, every third order of their calls (each order for a third of the triples)")
add("C40", ["demo"], "exhaustive enumeration of shapes, boundary positions, mismatch words, parameters and command lines, driven through the functions and the programs of the shipped demonstrations",
    "Functions of the C++ demos are called as compiled from demos/*.cpp, those of the Python demos as defined in python/*.py on stand-in objects; nodes that must not count are poisoned with NaN. The umbrella sampling program is run as a whole with short trajectories and a stand-in inner optimiser; the other programs are run up to their first few optimisation steps, their full length is out of reach.",
    "closed-form inverse-square mean, ten-part line integral, centre of mass, bias and acceptance; recomputation of every recorded row from the boundary saved with it; a restarted run against the run it continues",
    "5 meshes x every cell x 9x9 offsets x 3^5 mismatch words x 4 C++ demos (a twelfth for 3 Python demos); 131 boundaries x 5 weightings; 180 umbrella runs; all pairs of options in all spellings, every incomplete option, restart names of 9 lengths; 7 programs' first steps",
    "also 4x3 cells, all Python words, longer trajectories, 12 optimisation steps")
# Sweeps over the mesh size, three generic fields each: every size up to the first (quick) and
# second (thorough) number in both directions, then long, flat and square ones up to 257 cells
# (thorough: also large ones up to 256x256 where the third entry says so).
for id, (q, t, big) in {"C04": (20, 48, 1), "C05": (14, 32, 0), "C06": (14, 32, 0), "C07": (16, 40, 1), "C08": (24, 48, 1), "C11": (16, 40, 1), "C12": (20, 40, 1), "C13": (16, 40, 1), "C14": (16, 40, 1), "C15": (16, 40, 1), "C17": (20, 40, 1), "C18": (16, 40, 1), "C20": (16, 40, 1), "C29": (16, 40, 1)}.items():
    b = PROPS[id]["bounds"]
    b["quick"] += "; generic fields on every mesh size up to %dx%d and 183 long, flat and square ones up to 257 cells" % (q, q)
    b["thorough"] += "; every mesh size up to %dx%d%s" % (t, t, ", large ones up to 256x256" if big else "")
NOT_APPLICABLE = []
