"""Exercise refinement, identifiers, hit records and instances.  MODE: P05 or P06."""
import os, sys, math
from common import setup, attempt, enc, vec, mat, scenarios
import shapes as S
from shapes import a, rng, U, V, rigid, placement, quadric, ray_to, ray_rec, state, dg_rec, box, INF
import numpy as np
import pytracer.geometry as geo
from pytracer.transform import Transform, AnimatedTransform
from pytracer.shape import Shape, Sphere, Cylinder, Disk, TriangleMesh, LoopSubdiv
from pytracer.aggregate import Primitive, GeometricPrimitive, TransformedPrimitive, Intersection, SimpleAggregate, GridAccel, BVH
from pytracer.spectral import Spectrum
MODE = os.environ["MODE"]

class Node(Primitive):
    def __init__(self, name, tree):
        super().__init__()
        self.name, self.tree = name, tree
    def world_bound(self): return geo.BBox(geo.Point(0., 0., 0.), geo.Point(1., 1., 1.))
    def can_intersect(self): return self.tree["can"][self.name - 1]
    def intersect(self, r, isect): return False
    def intersect_p(self, r): return False
    def refine(self, refined):
        for k in range(2, self.tree["n"] + 1):
            if self.tree["parent"][k - 1] == self.name:
                refined.append(Node(k, self.tree))
    def get_area_light(self): return None
    def get_bsdf(self, dg, o2w): return None
    def get_bssrdf(self, dg, o2w): return None
class NodeShape(Shape):
    def __init__(self, name, tree):
        super().__init__(Transform(), Transform(), False)
        self.name, self.tree = name, tree
    def object_bound(self): return geo.BBox(geo.Point(0., 0., 0.), geo.Point(1., 1., 1.))
    def can_intersect(self): return self.tree["can"][self.name - 1]
    def intersect(self, r): return False, 0., 0., None
    def intersect_p(self, r): return False
    def area(self): return 1.
    def refine(self):
        return [NodeShape(k, self.tree) for k in range(2, self.tree["n"] + 1) if self.tree["parent"][k - 1] == self.name]
def footprint(dg):
    return [enc(v) for d in (dg.dpdx, dg.dpdy) for v in d] + [enc(v) for v in (dg.dudx, dg.dvdx, dg.dudy, dg.dvdy)]
class Mat(object):
    def __init__(self, name):
        self.name = name
        self.calls = []
    def get_bsdf(self, dg, dgs):
        self.calls.append((dg, dgs))
        return ("bsdf", self.name, footprint(dg))
    def get_bssrdf(self, dg, dgs):
        return ("bssrdf", self.name, footprint(dg))
class Lamp(object):
    def __init__(self, name):
        self.name = name
    def l(self, p, n, w):
        return Spectrum([float(self.name), 0., 0.])

def bush(n, deep):
    """a tree too large to enumerate"""
    par = [0] + [rng.randrange(max(1, k - deep), k + 1) for k in range(1, n)]
    return dict(n=n, parent=par, can=[k + 1 not in par and rng.random() < .9 or k > 0 and rng.random() < .1 for k in range(n)])
def trees():
    for t in scenarios(a) + [bush(rng.choice([60, 130]), rng.choice([2, 6, 80])) for _ in range(2 if a.quick else 20)]:
        for variant in ("plain", "shapes", "instance", "inshapes"):
            m, l = Mat(1), Lamp(1)
            def go():
                if variant == "plain":
                    root = Node(1, t)
                elif variant == "instance":
                    root = TransformedPrimitive(Node(1, t), AnimatedTransform(Transform(), 0., Transform(), 1.))
                else:
                    root = GeometricPrimitive(NodeShape(1, t), m, l)
                    if variant == "inshapes":
                        root = TransformedPrimitive(root, AnimatedTransform(Transform(), 0., Transform(), 1.))
                first = Node(99, dict(n=0, parent=[], can=[]))
                out = [first]
                root.full_refine(out)
                return root, first, out
            ok, w = attempt(go, 30)
            rec = dict(op="tree", cls="tree/%s/%d" % (variant, t["n"]), sig=variant, variant=variant, err="" if ok else w, n=t["n"], parent=t["parent"], can=t["can"], out=[], kept=True, itself=True, mats=True, lamps=True, ids=[])
            if ok:
                root, first, out = w
                names = []
                for p in out[1:]:
                    q = p.primitive if variant in ("instance", "inshapes") and isinstance(p, TransformedPrimitive) else p
                    names.append(q.shape.name if isinstance(q, GeometricPrimitive) else q.name)
                    if variant in ("instance", "inshapes") and not isinstance(p, TransformedPrimitive):
                        names[-1] = 0
                    if isinstance(q, GeometricPrimitive):
                        rec["mats"] = rec["mats"] and q.material is m
                        rec["lamps"] = rec["lamps"] and q.areaLight is l and q.get_area_light() is l
                rec.update(out=names, kept=out[0] is first, itself=not t["can"][0] or (len(out) == 2 and out[1] is root), ids=[str(p.primitiveId) for p in out])
            a.out.put(**rec)

def mesh(o2w, w2o, ro, big=True):
    nv = rng.choice([3, 4, 6])
    P = [geo.Point(U(-2, 2), U(-2, 2), U(-2, 2)) for _ in range(nv)]
    vi = []
    for _ in range(rng.choice([1, 2, 4])):
        vi += rng.sample(range(nv), 3)
    uv = [U(0, 1) for _ in range(2 * nv)] if rng.random() < .5 else None
    N = [geo.Normal(U(-1, 1), U(-1, 1), U(.2, 1)) for _ in range(nv)] if rng.random() < .5 else None
    T = [V() for _ in range(nv)] if rng.random() < .3 else None
    m = TriangleMesh(o2w, w2o, ro, len(vi) // 3, nv, list(vi), list(P), N, T, uv)
    return m, [dict(kind="tri", v=[vec(P[k]) for k in vi[3 * f:3 * f + 3]], hasuv=uv is not None, uv=[[enc(uv[2 * k]), enc(uv[2 * k + 1])] for k in vi[3 * f:3 * f + 3]] if uv else [],
                    hasn=N is not None, n=[vec(N[k]) for k in vi[3 * f:3 * f + 3]] if N else [["0"] * 3] * 3, hass=T is not None, sv3=[vec(T[k]) for k in vi[3 * f:3 * f + 3]] if T else [], ro=ro, s={}) for f in range(len(vi) // 3)]

def ids(n):
    for _ in range(n):
        prims, shs, hist = [], [], []
        def go():
            for _ in range(rng.choice([3, 8, 15])):
                k = rng.choice(["quad", "quad", "mesh", "loop", "refine", "inst", "agg"])
                hist.append(k)
                o2w = placement()
                if k == "quad":
                    s = quadric(o2w, o2w.inverse())[1]()
                    shs.append(s)
                    prims.append(GeometricPrimitive(s, None))
                elif k == "mesh":
                    s, _ = mesh(o2w, o2w.inverse(), False)
                    shs.append(s)
                    prims.append(GeometricPrimitive(s, None))
                elif k == "loop":
                    s = LoopSubdiv(o2w, o2w.inverse(), False, 4, 4, [0, 1, 2, 0, 2, 3, 0, 3, 1, 1, 3, 2], [geo.Point(0., 0., 0.), geo.Point(1., 0., 0.), geo.Point(0., 1., 0.), geo.Point(0., 0., 1.)], 1)
                    shs.append(s)
                    prims.append(GeometricPrimitive(s, None))
                elif k == "refine" and prims:
                    p = rng.choice(prims)
                    if not p.can_intersect() and not isinstance(p, TransformedPrimitive):
                        out = []
                        p.full_refine(out)
                        prims.extend(out)
                        shs.extend(q.shape for q in out)
                elif k == "inst" and prims:
                    prims.append(TransformedPrimitive(rng.choice(prims), AnimatedTransform(Transform(), 0., placement(), 1.)))
                elif k == "agg" and prims:
                    q = [p for p in prims if isinstance(p, GeometricPrimitive)][:6]
                    prims.append(rng.choice([lambda: SimpleAggregate(q, False), lambda: BVH(q, 2, "sah") if q else SimpleAggregate(q, False), lambda: SimpleAggregate(q, True)])())
        ok, w = attempt(go, 60)
        a.out.put(op="ids", cls="ids/%d" % min(9, len(prims)), sig="ids", err="" if ok else w, prim=[str(p.primitiveId) for p in prims], shape=[str(s.shapeId) for s in shs], hist=hist)

def aggregate(prims, lazy=False):
    k = rng.choice(["simple", "bvh", "bvh", "grid"])
    if k == "simple":
        return k, SimpleAggregate(prims, True)
    if k == "bvh":
        return k, BVH(prims, rng.choice([1, 2, 8]), rng.choice(["sah", "middle"]))
    return k, GridAccel(prims, not lazy)

def info(n):
    """which primitive, with which identifiers, a query through an aggregate reports"""
    for _ in range(n):
        def make():
            given = []
            for k in range(rng.choice([1, 2, 4, 7])):
                o2w = placement(flip=False)
                sh = quadric(o2w, o2w.inverse(), False)[1]() if rng.random() < .6 else mesh(o2w, o2w.inverse(), False)[0]
                given.append(GeometricPrimitive(sh, Mat(k + 1), Lamp(k + 1) if rng.random() < .7 else None))
            leaves = []
            for g in given:
                g.full_refine(leaves)
            kind, agg = aggregate(leaves)
            return leaves, kind, agg
        ok, w = attempt(make, 60)
        if not ok:
            a.out.put(op="info", cls="info/build", sig="info", err=w)
            continue
        leaves, kind, agg = w
        isect = Intersection()       # one record reused for all the queries
        for _ in range(8):
            b = rng.choice(leaves).world_bound()
            q = geo.Point(*[U(b.pMin[c], b.pMax[c]) for c in range(3)])
            r0 = ray_to(q, 1.)
            mk = lambda: geo.RayDifferential(r0.o, r0.d, r0.mint, r0.maxt, 0, .5)
            singles = []
            for p in leaves:
                r = mk()
                ok, h = attempt(lambda: p.intersect(r, Intersection()))
                singles.append(enc(r.maxt) if ok and h else "miss")
            r = mk()
            def ask():
                h = agg.intersect(r, isect)
                if not h:
                    return dict(hit=False)
                p = isect.primitive
                k = [j for j, q2 in enumerate(leaves) if q2 is p]
                le = isect.le(-r.d)
                def aux():
                    x = geo.RayDifferential(r.o, r.d, r.mint, r.maxt, 0, r.time)
                    x.has_differentials = rng.random() < .9
                    e = lambda v: type(v)(*[float(c) + U(-.02, .02) for c in v])
                    x.rxOrigin, x.ryOrigin, x.rxDirection, x.ryDirection = e(r.o), e(r.o), e(r.d), e(r.d)
                    d = isect.dg.copy()
                    d.compute_differential(x)
                    return x, footprint(d)
                ra, wa = aux()
                rb, wb = aux()
                bs = isect.get_bsdf(ra)
                bss = isect.get_bssrdf(rb)
                return dict(hit=True, who=k[0] + 1 if k else 0, pid=str(isect.primitiveId), sid=str(isect.shapeId), o2w=mat(isect.o2w.m), w2o=mat(isect.w2o.m), le=enc(le[0]), t=enc(r.maxt),
                            point=vec(isect.dg.p), bsdf=bs[1], bssrdf=bss[1], feet=[bs[2], bss[2]], wantfeet=[wa, wb], eps=enc(isect.rEps), shape=isect.dg.shape is p.shape)
            ok, w = attempt(ask)
            rec = dict(op="info", cls="info/%s/%s" % (kind, ok and w["hit"]), sig="info", err="" if ok else w, ray=ray_rec(r0), singles=singles,
                       leaves=[dict(pid=str(p.primitiveId), sid=str(p.shape.shapeId), o2w=mat(p.shape.o2w.m), w2o=mat(p.shape.w2o.m), mat=p.material.name, lamp=str(p.areaLight.name) if p.areaLight else "0") for p in leaves], got=w if ok else dict(hit=False))
            a.out.put(**rec)

def anim():
    """world-to-instance, possibly moving over [0, 1]"""
    t1 = placement().inverse() if rng.random() < .8 else Transform()
    if rng.random() < .5:
        return AnimatedTransform(t1, 0., t1, 1.)
    r = Transform.rotate(U(-150, 150), V())
    sg = rng.choice([[1., 1., 1.]] * 3 + [[-1., 1., 1.], [1., -1., -1.], [-1., -1., -1.]])     # mirrored alike at both ends
    s = lambda: Transform.scale(*[sg[i] * rng.choice([1., U(.5, 2)]) for i in range(3)])
    mv = lambda: Transform.translate(geo.Vector(U(-3, 3), U(-3, 3), U(-3, 3)))
    return AnimatedTransform(mv() * r * s(), 0., mv() * Transform.rotate(U(-120, 120), V()) * r * s(), 1.)

class World(object):
    pass
def world(bare=False):
    if True:
        leaves = []     # (record, chain of AnimatedTransforms outermost first, leaf primitive)
        def leafset():
            o2w = placement() if rng.random() < .6 else Transform()
            w2o = o2w.inverse()
            if rng.random() < .55:
                s, mk, surf, rad = quadric(o2w, w2o, False)
                return mk(), [dict(kind="quad", s=s, m=mat(o2w.m), mi=mat(w2o.m), ro=s["ro"])], Mat(1)
            sh, recs = mesh(o2w, w2o, rng.random() < .4)
            return sh, [dict(r, m=mat(o2w.m), mi=mat(w2o.m)) for r in recs], Mat(1)
        shape_of = {}
        def prim(depth):
            """(primitive, [(leaf record, chain)])"""
            k = rng.choice(["geo", "geo", "group"]) if depth else "geo"
            if k == "geo":
                sh, recs, m = leafset()
                g = GeometricPrimitive(sh, m, None)
                out = []
                g.full_refine(out)
                if sh.can_intersect():
                    order = recs
                else:   # refinement yields the faces in some order: identify each by its vertices
                    order = []
                    for p in out:
                        f = p.shape
                        ix = f.mesh.vertexIndex[f.v:f.v + 3]
                        pts = [[enc(x) for x in Transform()(f[c])] for c in range(3)]
                        order.append(pts)
                for q, rec in zip(out, order):
                    if isinstance(rec, list):
                        best = None
                        for c in recs:
                            wv = [[enc(x) for x in sh.o2w(geo.Point(*[float.fromhex(y) for y in v]))] for v in c["v"]]
                            d = max(abs(float.fromhex(wv[i][j]) - float.fromhex(rec[i][j])) for i in range(3) for j in range(3))
                            if best is None or d < best[0]:
                                best = (d, c)
                        rec = best[1]
                    rec = dict(rec, sid=str(q.shape.shapeId))
                    shape_of[q.shape.shapeId] = q
                    leaves.append([rec, []])
                mine = leaves[-len(out):]
                if rng.random() < .5 or not sh.can_intersect():
                    return (rng.choice([lambda: SimpleAggregate(out, False), lambda: BVH(out, 1, "sah")])() if len(out) > 1 or rng.random() < .3 else out[0]), mine
                return g, mine
            parts = [wrap(prim(depth - 1)) for _ in range(rng.choice([1, 2, 3]))]
            ps = [p for p, _ in parts]
            mine = [l for _, ls in parts for l in ls]
            return rng.choice([lambda: SimpleAggregate(ps, False), lambda: BVH(ps, 1, "sah")])(), mine
        def wrap(x):
            p, mine = x
            w2p = anim()
            t = TransformedPrimitive(p, w2p)
            for l in mine:
                l[1].insert(0, (w2p, t))
            return t, mine
        deep = rng.choice([0, 0, 1, 1, 2])
        w = World()
        w.leaves, w.shape_of = leaves, shape_of
        w.top = (prim(0) if bare else wrap(prim(deep)))[0]
        return w
def chain(l, time):
    return [dict(m=mat(x.m), mi=mat(x.m_inv)) for x in (w2p.interpolate(time) for w2p, _ in l[1])]
def spot(l, time, off=1.):
    """a world point on leaf l at that time, or near it"""
    f = math.tau * rng.random()
    if l[0]["kind"] == "quad":
        s = l[0]["s"]
        rad, z0, z1 = (float.fromhex(s[k]) for k in ("rad", "z0", "z1"))
        z = U(*sorted((max(-rad, z0), min(rad, z1)))) if s["kind"] == "sphere" else U(*sorted((z0, z1)))
        rr = math.sqrt(max(0, rad * rad - z * z)) if s["kind"] == "sphere" else rad * (1 if s["kind"] == "cylinder" else math.sqrt(rng.random()))
        q = geo.Point(rr * math.cos(f), rr * math.sin(f), z)
    else:
        v = [[float.fromhex(x) for x in y] for y in l[0]["v"]]
        b = [rng.random() + .05 for _ in range(3)]
        q = geo.Point(*[sum(b[k] * v[k][c] for k in range(3)) / sum(b) for c in range(3)])
    if rng.random() < .2:
        q = geo.Point(*[x + off * U(-1., 1.) for x in q])
    m = np.array([[float.fromhex(x) for x in row] for row in l[0]["m"]])
    q = Transform(m)(q)
    for w2p, _ in reversed(l[1]):
        q = w2p.interpolate(time).inverse()(q)
    return q
def instances(n):
    for _ in range(n):
        ok, w = attempt(world, 60)
        if not ok:
            a.out.put(op="inst", cls="inst/build", sig="instance", err=w)
            continue
        top, leaves, shape_of = w.top, w.leaves, w.shape_of
        # bounds at several times
        ok, wb = attempt(lambda: top.world_bound(), 60)
        for time in (rng.choice([0., 1.]), rng.random()) if len(leaves) < 4 else (rng.random(),):
            a.out.put(op="instbound", cls="instbound", sig="instance", err="" if ok else wb, wb=box(wb) if ok else {}, leaves=[dict(l[0], chain=chain(l, time)) for l in leaves])
        time = .5
        for _ in range(10):
            time = rng.choice([0., 1., -1., 2., .5, rng.random(), rng.random(), rng.random(), time + rng.choice([1e-3, -1e-3, 4e-4, 5e-3, .02])])
            l = rng.choice(leaves)
            q = spot(l, time)
            r = ray_to(q, 1.)
            r = type(r)(r.o, r.d, r.mint, r.maxt, 1, time)
            rp = type(r)(r.o, r.d, r.mint, r.maxt, 1, time)
            before, isect = state(r), Intersection()
            ray = ray_rec(r)
            ok, w = attempt(lambda: (top.intersect(r, isect), top.intersect_p(rp)))
            h = ok and bool(w[0])
            after = state(r)
            rec = dict(op="inst", cls="inst/%d/%s" % (len(l[1]), h), sig="instance", ray=ray, err="" if ok else w, hit=h, occ=bool(w[1]) if ok else False, serr="", exact=False, cut=[],
                       keep=state(rp) == before and after[:7] + after[8:] == before[:7] + before[8:], maxt=enc(r.maxt), leaves=[dict(x[0], chain=chain(x, time)) for x in leaves])
            if h:
                dg = isect.dg
                own = shape_of.get(isect.shapeId)
                tops = [x for x in leaves if x[0]["sid"] == str(isect.shapeId)]
                rec.update(t=enc(r.maxt), eps=enc(isect.rEps), v2=enc(dg.v), gsid=str(isect.shapeId), who=isect.primitive is own, io2w=mat(isect.o2w.m), iw2o=mat(isect.w2o.m), **dg_rec(dg))
                rec["vv"] = enc(dg.v)
                rec["ident"] = isect.primitiveId == top.primitiveId
                def shade():
                    m2 = own.material
                    m2.calls.clear()
                    dg.dudx, dg.dvdy = .25, -.5
                    dg.dpdx = geo.Vector(1., 2., 3.)
                    isect.primitive.get_bsdf(dg, isect.o2w)
                    return m2.calls[0][1]
                ok, sg = attempt(shade)
                if ok:
                    rec.update(sp=vec(sg.p), su=enc(sg.u), sv=enc(sg.v), snn=vec(sg.nn), sdpdu=vec(sg.dpdu), sdndu=vec(sg.dndu), sdndv=vec(sg.dndv), diffs=bool(sg.dudx == .25 and sg.dvdy == -.5 and list(sg.dpdx) == [1., 2., 3.]))
                else:
                    rec["serr"] = sg
            a.out.put(**rec)
        def misc():
            return repr(top), top.can_intersect()
        ok, w = attempt(misc)
        a.out.put(op="misc", cls="inst/misc", sig="instance", err="" if ok else w, can=bool(w[1]) if ok else True)

def shadows(n):
    from pytracer.light.utility import VisibilityTester
    from pytracer.scene import Scene
    for _ in range(n):
        def build():
            ws = [world(bare=rng.random() < .5) for _ in range(rng.choice([1, 1, 2, 3]))]
            ps = [w.top for w in ws]
            leaves = [l for w in ws for l in w.leaves]
            agg = rng.choice([lambda: SimpleAggregate(ps, True), lambda: BVH(ps, 1, "sah"), lambda: GridAccel(ps, True)])()
            return Scene(agg, [], None), leaves
        ok, w = attempt(build, 60)
        if not ok:
            a.out.put(op="vis", cls="vis/build", sig="shadow", err=w)
            continue
        scene, leaves = w
        vis = VisibilityTester()
        asked = []
        for _ in range(6):
            time = rng.choice([0., 1., rng.random(), rng.random()])
            l = rng.choice(leaves)
            q = spot(l, time, .3)
            k = rng.random()
            p1 = q if k < .3 else geo.Point(*[x + U(-4, 4) for x in q])
            if k < .5:
                p2 = spot(rng.choice(leaves), time, .3)
            else:
                f = rng.choice([1., 2., .5, 1.2])
                p2 = geo.Point(*[y + f * (x - y) for x, y in zip(q, p1)]) if k > .3 and (q - p1).length() > 0 else geo.Point(*[x + U(-4, 4) for x in q])
            if (p2 - p1).length() < 1e-2:
                continue
            e1, e2 = rng.choice([0., 1e-3, .1, 1.]), rng.choice([0., 1e-5, 1e-3, .2])
            if e1 >= (p2 - p1).length() * (1 - e2):
                e1 = 0.
            kind = rng.choice(["seg", "seg", "ray"])
            wdir = geo.normalize(p2 - p1)
            rec = dict(op="vis", cls="", sig="shadow", kind=kind, p1=vec(p1), p2=vec(p2), w=vec(wdir), e1=enc(e1), e2=enc(e2), time=enc(time), err="", leaves=[dict(x[0], chain=chain(x, time)) for x in leaves])
            keep1, keep2, keepw = list(p1), list(p2), list(wdir)
            class Tap(object):
                """stands in for the scene: records the ray"""
                def intersect_p(self, r):
                    self.r = r
                    return False
            def go():
                v = vis if rng.random() < .7 else VisibilityTester()
                if kind == "seg":
                    v.set_segment(p1, e1, p2, e2, time)
                else:
                    v.set_ray(p1, e1, wdir, time)
                one = bool(v.unoccluded(scene))
                if asked and rng.random() < .5:
                    r = geo.Ray(*asked[-1])
                    scene.intersect(r, Intersection())
                t = Tap()
                clear = bool(v.unoccluded(t))
                two = bool(v.unoccluded(scene))
                asked.append((p1, p2 - p1, 0., INF, 0, time))
                class Dim(object):
                    """stands in for the renderer: records what it is asked the transmittance of"""
                    def transmittance(self, sc, r, smp, rng=None):
                        self.got = sc, r, smp
                        return "dimmed"
                dim, smp = Dim(), object()
                through = v.transmittance(scene, dim, smp) == "dimmed" and dim.got[0] is scene and dim.got[2] is smp
                r, x = dim.got[1], v.ray
                through = through and list(r.o) == list(x.o) and list(r.d) == list(x.d) and (r.mint, r.maxt, r.time) == (x.mint, x.maxt, x.time)
                return one, two, clear, t.r, bool(through)
            ok, w = attempt(go)
            if ok:
                rec.update(one=w[0], two=w[1], clear=w[2], through=w[4], ray=ray_rec(w[3]), rtime=enc(w[3].time), keep=(keep1, keep2, keepw) == (list(p1), list(p2), list(wdir)))
                rec["cls"] = "vis/%s/%s" % (kind, w[0])
            else:
                rec["err"] = w
            a.out.put(**rec)

k = 1 if a.quick else 10
if MODE == "P05":
    trees()
    ids(12 * k)
    info(25 * k)
elif MODE == "P24":
    shadows(20 * k)
else:
    instances(13 * k)
a.out.close()
