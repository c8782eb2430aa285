#!/usr/bin/env python3
"""Write known_findings.json: open findings (listed here) and repaired defects (one per fix: commit)."""
import json, os, subprocess
H = os.path.dirname(os.path.abspath(__file__))
FIXED = [  # subject prefix -> properties, what failed
 ("fix: Heap::push overran", "C03", "after a pop, push wrote past the heap's list (history push*N, pop, push)"),
 ("fix: fast marching mixed second-order", "C04 C05", "second-order value combined a neighbour on one side with a second neighbour on the other side"),
 ("fix: fast marching kept the input value", "C04 C05", "nodes whose quadratic has no real root kept their input value instead of the one-sided solution"),
 ("fix: fast marching flipped the side", "C04", "a node with a value of about +1e-17 came out negative"),
 ("fix: nodes that left the edge", "C08", "isMine stayed set for nodes that left the band's edge (two re-initialisations of one object)"),
 ("fix: point-in-polygon test truncated", "C10", "polygons with non-integer vertices: side of a node decided by a value truncated to int"),
 ("fix: overran the segment lookup", "C14 C30 C33", "more than two segments meeting at a point wrote past BoundaryPoint::segments/neighbours"),
 ("fix: discretise drew a segment between unset points", "C14", "element whose cut edges are all inactive produced a segment between stale point indices"),
 ("fix: saddle element with a zero centre", "C15 C14", "saddle with centre value exactly zero: segments and area disagreed"),
 ("fix: mapped velocities of nodes outside", "C07", "nodes outside the narrow band kept the unnormalised velocity sum and fed it to the extension"),
 ("fix: velocity mapping overflowed the stack", "C07 C33", "computeVelocities on a 1000x1000 mesh crashed (variable-length arrays of mesh size)"),
 ("fix: boundary normals were NaN", "C18", "a node with zero gradient next to the contour made point normals NaN"),
 ("fix: a fast marching object could only be used once", "C16", "second march() of one FastMarchingMethod object used the first one's node states"),
 ("fix: element segment lookup was too small", "C14 C30", "element with all four corners on the contour wrote past Element::boundarySegments"),
 ("fix: gradients on meshes with fewer than four", "C12 C29 C33", "computeGradients on e.g. a 3x3 mesh read xyToIndex[4] (out of bounds)"),
 ("fix: re-seeding kept the normal draw", "C21", "normal(); setSeed(s); normal() returned the draw cached before re-seeding"),
 ("fix: normals of boundary points on the domain edge", "C18 C19", "normals of points on the rim were left as unnormalised weighted sums; the Ito correction displaced them by many grid units"),
 ("fix: numbered VTK files never held", "C24", "saveLevelSetVTK(datapoint, ..., isVelocity, isGradient) wrote neither field"),
 ("fix: malformed level set text files", "C22 C23", "text files with wrong tokens or layout were half-loaded; surplus values were read past the level set"),
 ("fix: binary level set files of the wrong size", "C23", "truncated and over-long binary files were accepted"),
 ("fix: failed writes were not noticed", "C25", "every save returned normally after a failed write (full disk, file size limit)"),
 ("fix: optimiser gradients were stored", "C28 C27", "two constraints, the first inactive: gradient entries misplaced and written past the end"),
 ("fix: lambdas of dropped constraints", "C28", "two constraints, the first inactive: its multiplier came back non-zero; index map read past its end"),
 ("fix: solving again used what", "C28", "second solve() of one object: constraints shifted, fixed points moved"),
 ("fix: move limits of points near the domain", "C27", "point 0.15 away from the domain boundary moved out by 0.5"),
 ("fix: a function without any sensitivity", "C27", "all sensitivities of one function zero: NaN bounds and velocities"),
 ("fix: whether a failed optimisation was repeated", "C27", "round-off failure of the inner optimiser: repeated or not depending on uninitialised memory"),
 ("fix: reporting before any optimisation", "C37", "queryReturnCode before the first solve named whatever ending was in memory"),
 ("fix: the segments of a boundary", "C38", "Boundary.segments raised a type error in Python: its vector type was not registered with the module"),
 ("fix: new meshes, boundaries and level sets had", "C39", "copying a mesh or level set before discretisation read members that were never set (invalid enumeration values)"),
 ("fix: copying a fast marching object", "C39", "double free of the heap after a fast marching object that has marched was copied"),
 ("fix: demos read outside of the mesh", "C40", "computeSensitivity for a boundary point on the rim of the mesh read nodes[nNodes]"),
 ("fix: python demos left out one neighbour", "C40", "the Python demos' sensitivity ignored the upper neighbour and failed with an index error on the rim"),
 ("fix: umbrella sampling demo refused its documented", "C40", "command line --umbrella-interval 0.75 was refused as unknown"),
 ("fix: umbrella sampling demo read past its arguments", "C40", "command line ending in an option without its value (-t): null pointer dereferenced"),
 ("fix: umbrella sampling demo overran its buffer", "C40", "restart file name of 100 characters and more overran a fixed buffer"),
 ("fix: umbrella sampling demo measured its first bias", "C40", "centre 20 and above: trials that change nothing were rejected, the recorded centre of mass was off by half the width"),
 ("fix: dumbbell demo wrote past", "C40", "configuration file with more values than nodes wrote past the signed distance"),
 ("fix: bimodal demos recorded the y position", "C40", "y position in the results file relative to half the width instead of half the height (found by reading; the program is too long to be run to its results)"),
 ("fix: the objective change returned", "C27", "objective change wrong after rescaling with capped points; garbage after a failed optimisation"),
]
OPEN = []
try:
    from open_findings import OPEN
except ImportError: pass
log = [l.split(" ", 1) for l in subprocess.check_output(["git", "-C", "/repo", "log", "--format=%h %s", "--reverse"], text=True).splitlines()]
out = list(OPEN)
used = set()
for h, s in log:
    if not s.startswith("fix:"): continue
    m = [f for f in FIXED if s.startswith(f[0])]
    assert len(m) == 1, s
    for p in m[0][1].split():
        out.append({"property": p, "case": "-", "status": "fixed", "commit": h, "what": m[0][2], "line": "fixed: property=%s %s %s" % (p, h, m[0][2])})
json.dump({"findings": out}, open(os.path.join(H, "..", "known_findings.json"), "w"), indent=1)
print(len(out), "entries")
