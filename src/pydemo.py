"""Run the functions of one of the shipped Python demos on described objects.

  pydemo.py SCRIPT CASES     one answer per line; MISSING where the script has no such function
Only imports, literal constants and function definitions of the script are executed.
"""
import ast, sys, types, math, inspect

class Box: pass

def load(path):
    tree = ast.parse(open(path).read())
    keep = []
    for n in tree.body:
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)): keep.append(n)
        elif isinstance(n, (ast.Import, ast.ImportFrom)): keep.append(n)
        elif isinstance(n, ast.Assign):
            try: ast.literal_eval(n.value)
            except Exception: continue
            keep.append(n)
    sys.modules["pyslsm"] = types.ModuleType("pyslsm")
    g = {"__name__": "demo"}
    exec(compile(ast.Module(keep, []), path, "exec"), g)
    return g

def find(g, names, n):
    for k in names:
        f = g.get(k)
        if callable(f) and len(inspect.signature(f).parameters) == n: return f
    return None

def call(f, *a):
    if f is None: return "MISSING"
    try: return f(*a)
    except Exception as e: return "%s: %s" % (type(e).__name__, e)

def show(v): print(v if isinstance(v, str) else repr(float(v)))

def main():
    g = load(sys.argv[1])
    sens = find(g, ["computeSensitivity", "computeConstraintSensitivity"], 2)
    mis = find(g, ["computeObjective", "computeMismatch"], 2)
    per, plen, wt = find(g, ["computePerimeter"], 1), find(g, ["computePointLength"], 1), find(g, ["computePerimeterWeight"], 1)
    com = find(g, ["computeCentreOfMass"], 0)
    # the measures are judged only if the script's globals are the ones that are set here
    known = (all(k in wt.__code__.co_names for k in ("uppergravityCutOff", "lowergravityCutOff", "gravityRange", "reduce")) or
             all(k in wt.__code__.co_names for k in ("upperLobeCentre", "lowerLobeCentre", "lobeSeparation", "reduce"))) if wt else False
    if not known or (plen and "boundary" not in plen.__code__.co_names): per = plen = wt = com = None
    mesh, level, bd, points = Box(), Box(), Box(), []
    level.mesh = mesh; n = ne = 0
    for line in open(sys.argv[2]):
        t = line.split(); k, t = t[0], t[1:]
        if k == "M":
            n, ne = int(t[0]), int(t[1]); mesh.nNodes, mesh.nElements, mesh.nodes, mesh.elements = n, ne, [], []
            for i in range(n):
                q = t[2 + 6 * i:8 + 6 * i]; b = Box(); b.coord = Box(); b.coord.x, b.coord.y = float(q[0]), float(q[1]); b.neighbours = [int(x) for x in q[2:]]
                mesh.nodes.append(b)
            for i in range(ne):
                b = Box(); b.area = float(t[2 + 6 * n + i]); mesh.elements.append(b)
        elif k == "S":
            node = int(t[0]); mesh.getClosestNode = lambda *a: node
            c = Box(); c.x, c.y = float(t[1]), float(t[2])
            level.target = [float(x) for x in t[3:3 + n]]; level.signedDistance = [float(x) for x in t[3 + n:3 + 2 * n]]
            if sens is None: print("MISSING"); return
            show(call(sens, c, level))
        elif k == "A":
            show(call(mis, mesh, [float(x) for x in t]))
        elif k == "G":
            up, lo, red = [float(x) for x in t]
            g.update(uppergravityCutOff=up, lowergravityCutOff=lo, gravityRange=up - lo, upperLobeCentre=up, lowerLobeCentre=lo, lobeSeparation=up - lo, reduce=red, boundary=bd)
        elif k == "W": show(call(wt, float(t[0])))
        elif k == "B":
            points = []; t = t[1:]
            while t:
                b = Box(); b.coord = Box(); b.coord.x, b.coord.y, b.nNeighbours = float(t[0]), float(t[1]), int(t[2])
                b.neighbours = [int(x) for x in t[3:3 + b.nNeighbours]]; t = t[3 + b.nNeighbours:]; points.append(b)
            bd.points = points
        elif k == "L": show(call(per, points))
        elif k == "C":
            r = call(com)
            if isinstance(r, str): print(r); print(r)
            else: show(r[0]); show(r[1])
        elif k == "P": show(call(plen, points[int(t[0])]))

main()
