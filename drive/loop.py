"""Refine control meshes: those TLC enumerated from LoopModel, and wheels, fans, solids, grids and disconnected pieces."""
from common import setup, attempt, enc, vec, mat, scenarios
a = setup()
import pytracer.geometry as geo
from pytracer.transform import Transform
from pytracer.shape import LoopSubdiv, create_loop_subdiv
rng = a.rng
U = rng.uniform
def wheel(n, closed):
    k = n if closed else n - 1
    f = [[0, 1 + i, 1 + (i + 1) % n] for i in range(k)]
    return f, n + 1
def grid(x, y):
    f = []
    for i in range(x):
        for j in range(y):
            p, q, r, s = i * (y + 1) + j, (i + 1) * (y + 1) + j, (i + 1) * (y + 1) + j + 1, i * (y + 1) + j + 1
            f += [[p, q, r], [p, r, s]]
    return f, (x + 1) * (y + 1)
def prism(n):   # double pyramid: closed, poles of valence n, waist of valence 4
    f = []
    for i in range(n):
        j = (i + 1) % n
        f += [[n, i, j], [n + 1, j, i]]
    return f, n + 2
def torus(p, q):
    f = []
    at = lambda i, j: (i % p) * q + j % q
    for i in range(p):
        for j in range(q):
            f += [[at(i, j), at(i + 1, j), at(i + 1, j + 1)], [at(i, j), at(i + 1, j + 1), at(i, j + 1)]]
    return f, p * q
def run(f, nv, n, what):
    f = [list(t) for t in f]
    rng.shuffle(f)
    for t in f:
        k = rng.randrange(3)
        t[:] = t[k:] + t[:k]
    perm = list(range(nv))
    rng.shuffle(perm)
    f = [[perm[v] for v in t] for t in f]
    P = [geo.Point(U(-1, 1), U(-1, 1), U(-1, 1)) for _ in range(nv)]
    o2w = Transform.translate(geo.Vector(U(-2, 2), U(-2, 2), U(-2, 2))) * Transform.rotate(U(-180, 180), geo.Vector(U(-1, 1), U(-1, 1), 1.)) * Transform.scale(U(.5, 2), U(.5, 2), 1.) if rng.random() < .4 else Transform()
    w2o = o2w.inverse()
    again = rng.random() < .3
    p0, vi = [vec(p) for p in P], [v for t in f for v in t]
    def go():
        if rng.random() < .5:
            sh = LoopSubdiv(o2w, w2o, False, len(f), nv, vi, P, n)
        else:
            sh = create_loop_subdiv(o2w, w2o, False, dict(nlevels=n, indices=vi, P=[c for p in P for c in p]))
        if again:       # a surface asked a second time: nothing of the first time stays
            sh.refine()
        ob, wb = sh.object_bound(), sh.world_bound()
        r = sh.refine()
        m = r[0]
        back = [w2o(p) for p in m.p]
        k = list(m.vertexIndex)
        return dict(count=len(r), rf=[[int(x) + 1 for x in k[i:i + 3]] for i in range(0, len(k), 3)], rp=[vec(p) for p in back], rn=[vec(x) for x in m.n],
                    ob=dict(lo=vec(ob.pMin), hi=vec(ob.pMax)), wb=dict(lo=vec(wb.pMin), hi=vec(wb.pMax)))
    ok, w = attempt(go, 60)
    a.out.put(op="refine", cls="%s/%d%s" % (what, n, "/again" if again else ""), sig="loop", f=[[v + 1 for v in t] for t in f], p=p0, kept=[vec(p) for p in P] == p0 and vi == [v for t in f for v in t], n=n, m=mat(o2w.m), err="" if ok else w, **(w if ok else {}))
for s in scenarios(a):
    run([[v - 1 for v in t] for t in s["f"]], s["nv"], rng.choice([0, 1, 1, 2]), "enumerated")
for has in range(8):
    for extra in ((0, 0), (1, 0), (2, 0), (0, 1), (0, 2)):
        ps = {}
        lv = rng.choice([0, 1, 2, 4, 5])
        if has & 1: ps["nlevels"] = lv
        nt = rng.choice([1, 2])
        if has & 2: ps["indices"] = [0, 1, 2, 0, 2, 3][:3 * nt] + [0] * extra[0]
        if has & 4: ps["P"] = [U(-1, 1) for _ in range(6 + 3 * nt + extra[1])]
        def mk():
            given = {k: list(v) if isinstance(v, list) else v for k, v in ps.items()}
            sh = create_loop_subdiv(Transform(), Transform(), False, given)
            if sh is None:
                return dict(made=False, faces=0, kept=given == ps, nv=0, lo=[], hi=[])
            m = sh.refine()[0]
            xs = [[float(p[c]) for p in m.p] for c in range(3)]
            return dict(made=True, faces=len(m.vertexIndex) // 3, kept=given == ps, nv=len(set(m.vertexIndex)), lo=[enc(min(x)) for x in xs], hi=[enc(max(x)) for x in xs])
        ok, w = attempt(mk, 60)
        a.out.put(op="create", cls="create", sig="create", lv=lv if has & 1 else 3, ni=len(ps.get("indices", [])), np=len(ps.get("P", [])), ps=[enc(x) for x in ps.get("P", [])], hasi=bool(has & 2), hasp=bool(has & 4), err="" if ok else w, **(w if ok else {}))
shapes = [("wheel%d" % n, wheel(n, True)) for n in (3, 4, 5, 6, 7, 9, 13)] + [("fan%d" % n, wheel(n, False)) for n in (2, 3, 4, 5, 6, 8, 11)] + \
    [("grid%d%d" % g, grid(*g)) for g in ((1, 2), (2, 2), (3, 2))] + [("double%d" % n, prism(n)) for n in (3, 4, 5, 6, 8)] + [("torus", torus(3, 3))]
g, n = grid(1, 1), wheel(3, True)
shapes.append(("pieces", (g[0] + [[v + g[1] for v in t] for t in n[0]], g[1] + n[1])))
for k, (w, (f, nv)) in enumerate([("tetra", ([[0, 1, 2], [0, 3, 1], [1, 3, 2], [2, 3, 0]], 4)), ("wheel3", wheel(3, True)), ("fan2", wheel(2, False)), ("fan3", wheel(3, False))]):
    if k == a.part:
        run(f, nv, 3, w)
for k, (w, (f, nv)) in enumerate(shapes):
    if k % a.parts != a.part:
        continue
    for n in ([0, 1, 2] if a.quick else [0, 1, 2, 2, 3, 3]):
        if len(f) * 4 ** n <= (150 if a.quick else 600):
            run(f, nv, n, w)
    if not a.quick:
        for _ in range(4):
            run(f, nv, rng.choice([1, 2]), w)
a.out.close()
