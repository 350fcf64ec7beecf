"""Exercise BVH and SimpleAggregate with stand-in primitives (axis-aligned boxes) and with real triangles."""
import os, sys
from common import setup, attempt, enc, vec
a = setup()
import numpy as np
import pytracer.geometry as geo
import pytracer.transform as trans
from pytracer.aggregate import Primitive, GeometricPrimitive, Intersection, SimpleAggregate, GridAccel
from pytracer.aggregate.accelerator.bvh import BVH
rng = a.rng
INF = float("inf")
GRID = os.environ.get("MODE") == "P03"

class Box(Primitive):
    """a solid box: hit where the ray enters it, or leaves it when it starts inside"""
    def __init__(self, lo, hi, ghost=False, pad=None):
        super(Box, self).__init__()
        self.lo, self.hi, self.ghost = lo, hi, ghost
        self.pad = pad or ([0., 0., 0.], [0., 0., 0.])      # how far its bounds reach beyond its surface
        self.log = None
        self.box = self.fresh() if rng.random() < .5 else None     # hand out the same box every time, or a new one
    def world_bound(self):
        return self.fresh() if self.box is None else self.box
    def fresh(self):
        return geo.BBox(geo.Point(*[x - p for x, p in zip(self.lo, self.pad[0])]), geo.Point(*[x + p for x, p in zip(self.hi, self.pad[1])]))
    def can_intersect(self):
        return True
    def refine(self, refined):
        raise AssertionError("refined an intersectable primitive")
    def get_area_light(self):
        return None
    def get_bsdf(self, dg, o2w):
        return None
    def get_bssrdf(self, dg, o2w):
        return None
    def solve(self, r):
        t0, t1 = -INF, INF
        o, d = r.o, r.d
        for k in range(3):
            if d[k] == 0.:
                if not (self.lo[k] < o[k] < self.hi[k]):
                    return None
            else:
                u, v = (self.lo[k] - o[k]) / d[k], (self.hi[k] - o[k]) / d[k]
                t0, t1 = max(t0, min(u, v)), min(t1, max(u, v))
        if t0 > t1:
            return None
        for t in (t0, t1):
            if r.mint <= t <= r.maxt:
                return float(t)
        return None
    def intersect(self, r, isect):
        if self.log is not None:
            self.log.append(self)
        t = None if self.ghost else self.solve(r)
        if t is None:
            return False
        r.maxt = t
        isect.primitive, isect.primitiveId, isect.dg, isect.rEps = self, self.primitiveId, None, 1e-3 * t
        return True
    def intersect_p(self, r):
        if self.log is not None:
            self.log.append(self)
        return (not self.ghost) and self.solve(r) is not None

class Bag(Primitive):
    """needs refinement"""
    def __init__(self, kids):
        super(Bag, self).__init__()
        self.kids = kids
    def world_bound(self):
        raise AssertionError("bound of an unrefined primitive")
    def can_intersect(self):
        return False
    def intersect(self, r, isect):
        raise AssertionError("intersected an unrefined primitive")
    intersect_p = intersect
    def refine(self, refined):
        refined.extend(self.kids)
    def get_area_light(self):
        return None
    def get_bsdf(self, dg, o2w):
        return None
    def get_bssrdf(self, dg, o2w):
        return None

def lat(lo, hi, step=.5):
    return rng.randrange(int(lo / step), int(hi / step) + 1) * step

def boxes(kind, n):
    out = []
    for j in range(n):
        if kind == "random":
            lo = [lat(-8, 8) for _ in range(3)]
            ext = [lat(0.5, 4) for _ in range(3)]
        elif kind == "coincident":
            lo, ext = [1., -2., .5], [1., 2., 1.]
        elif kind == "concentric":
            s = lat(.5, 6)
            lo, ext = [-s, -s, -s], [2 * s] * 3
        elif kind == "line":
            lo, ext = [float(rng.randrange(-20, 21)), 0., 0.], [.5, 1., 1.]
        elif kind == "flat":
            ax = 2
            lo = [lat(-8, 8), lat(-8, 8), 1.]
            ext = [lat(.5, 3), lat(.5, 3), 0.]
        elif kind == "flats":
            lo = [lat(-8, 8) for _ in range(3)]
            ext = [lat(.5, 3) for _ in range(3)]
            ext[rng.randrange(3)] = 0.
        elif kind == "points":
            lo, ext = [float(rng.randrange(-20, 21)), 0., 0.], [0., 0., 0.]
        elif kind == "samepoint":
            lo, ext = [1., 2., 3.], [0., 0., 0.]
        elif kind == "expo":
            x = 2. ** (j - n // 2)
            lo, ext = [x, -1., -1.], [x / 4, 2., 2.]
        elif kind == "expo12":
            x = 13. ** (j - n // 2)
            lo, ext = [x, -1., -1.], [x / 4, 2., 2.]
        elif kind == "cluster":
            c = [-10., 0., 13.][rng.randrange(3)]
            lo = [c + lat(-1, 1), c + lat(-1, 1), lat(-1, 1)]
            ext = [lat(.5, 1) for _ in range(3)]
        elif kind == "near":
            lo = [1. + rng.randrange(3) * 2. ** -52, 0., 0.]
            ext = [1., 1., 1.]
        else:
            lo = [rng.uniform(-5, 5) for _ in range(3)]
            ext = [rng.uniform(.01, 3) for _ in range(3)]
        out.append((lo, [x + e for x, e in zip(lo, ext)]))
    if kind in ("line", "random", "expo", "cluster", "float"):
        order = rng.randrange(3)
        if order == 0:
            rng.shuffle(out)
        elif order == 1:
            out.reverse()
    return out

DIRS = [-2., -1., -.5, .25, .5, 1., 2.]
def ray_for(bs, aim=True):
    mode = rng.randrange(4)
    if mode == 0:
        d = [0., 0., 0.]
        d[rng.randrange(3)] = rng.choice(DIRS)
    elif mode == 1:
        d = [rng.choice(DIRS + [0., 0.]) for _ in range(3)]
        if d == [0., 0., 0.]:
            d[0] = 1.
    elif mode == 2:
        d = [rng.uniform(-1, 1) for _ in range(3)]
    else:
        d = [rng.uniform(-1, 1) * rng.choice([1., 1., .01]) for _ in range(3)]
    if bs and aim:
        lo, hi = rng.choice(bs)
        tgt = [l + (h - l) * rng.choice([.25, .5, .625, .3]) + (0. if h - l > 0 else 0.) for l, h in zip(lo, hi)]
        s = rng.choice([0., 3., 8., 20.])
        if mode >= 2 and rng.random() < .3:
            s = rng.uniform(0, 30)
        o = [t - s * x for t, x in zip(tgt, d)]
    else:
        o = [lat(-12, 12) + .2 for _ in range(3)]
    if mode < 2:
        o = [x + rng.choice([.0625, -.0625, .1875]) * (1 if True else 0) for x in o]
    mint, maxt = 0., INF
    q = rng.random()
    if q < .3:
        maxt = rng.choice([1., 4., 10., 25.]) + 1. / 64 + 1. / 1024
    if q > .7:
        mint = rng.choice([-5., .001, 2., 6., 15.]) + 1. / 128 + 1. / 2048
    return o, d, mint, maxt

def mkray(o, d, mint, maxt, depth, time):
    return geo.Ray(geo.Point(*o), geo.Vector(*d), mint, maxt, depth, time)

def same(r, o, d, mint, depth, time):
    return bool(list(r.o) == list(o) and list(r.d) == list(d) and r.mint == mint and r.depth == depth and r.time == time)

def build(kind, prims, leaf):
    if kind == "simple":
        return SimpleAggregate(prims, True)
    if kind == "lazy":
        return SimpleAggregate(prims, False)
    if kind == "grid":
        return GridAccel(prims, True)
    if kind == "gridlazy":
        return GridAccel(prims, False)
    return BVH(prims, leaf, kind)

def wrap(prims):
    """sometimes hide the primitives in nested bags that need refinement"""
    prims = list(prims)
    if rng.random() < .7 or len(prims) < 2:
        return prims
    k = rng.randrange(1, len(prims))
    inner = Bag(prims[:k])
    return ([Bag([inner] + prims[k:])] if rng.random() < .5 else prims[k:] + [inner])

def world(kind, bs, agg, leaf, sig):
    loose = kind in ("random", "float", "cluster", "line") and rng.random() < .5
    pads = [([lat(0, 6) for _ in range(3)], [lat(0, 6) for _ in range(3)]) if loose and rng.random() < .6 else None for _ in bs]
    prims = [Box(lo, hi, False, p) for (lo, hi), p in zip(bs, pads)]
    ghosts = [Box(lo, hi, True, p) for (lo, hi), p in zip(bs, pads)]
    rec = dict(op="build", cls="%s/%s/%d" % (agg, kind, min(len(bs), 6)), sig=sig, boxes=[dict(lo=vec(p.world_bound().pMin), hi=vec(p.world_bound().pMax)) for p in prims],
               err="", errkind="", wlo=[], whi=[], agg=agg, leaf=leaf, nt=len(bs) > 1)
    given = list(prims if agg in ("lazy", "gridlazy") else wrap(prims))
    before, bounds = list(given), [(vec(p.world_bound().pMin), vec(p.world_bound().pMax)) for p in prims]
    ok, g = attempt(lambda: build(agg, given, leaf), 60)
    if ok:
        ok2, wb = attempt(lambda: g.world_bound())
        if ok2:
            rec["wlo"], rec["whi"] = vec(wb.pMin), vec(wb.pMax)
        else:
            rec["err"], rec["errkind"] = wb, "raised"
    else:
        rec["err"], rec["errkind"] = g, ("did-not-terminate" if g == "Timeout" else "raised")
    a.out.put(**rec)
    if not ok:
        return
    nr = (8 if len(bs) <= 12 else 5) if a.quick else 14
    for _ in range(nr):
        o, d, mint, maxt = ray_for(bs)
        query("query", g, prims, bs, o, d, mint, maxt, agg, kind, sig)
    nested = attempt(lambda: SimpleAggregate([Box([90., 90., 90.], [91., 91., 91.]), g, Box([-91., -91., -91.], [-90., -90., -90.])], True).world_bound())
    class Fog(object):
        def world_bound(self):
            return geo.BBox(geo.Point(-95., -95., -95.), geo.Point(95., 95., 95.))
    from pytracer.scene import Scene
    sc = attempt(lambda: Scene(g, [], Fog()).world_bound())
    nb = attempt(lambda: g.world_bound())
    nested = nested if sc[0] else sc
    a.out.put(op="kept", cls="kept/%s" % agg, sig=sig, err="" if nested[0] and nb[0] else str(nested[1]),
              list=len(before) == len(given) and all(x is y for x, y in zip(before, given)),
              boxes=bounds == [(vec(p.world_bound().pMin), vec(p.world_bound().pMax)) for p in prims],
              own=nb[0] and not rec["err"] and (vec(nb[1].pMin), vec(nb[1].pMax)) == (rec["wlo"], rec["whi"]))
    if GRID:
        return
    # probe: nothing hits, so every crossed primitive must be offered once
    ok, gg = attempt(lambda: build(agg, ghosts, leaf), 60)
    if not ok:
        return
    for _ in range(3):
        o, d, mint, maxt = ray_for(bs)
        for full in (True, False):
            log = []
            for p in ghosts:
                p.log = log
            r = mkray(o, d, mint, maxt, 1, .5)
            ok, v = attempt((lambda: gg.intersect(r, Intersection())) if full else (lambda: gg.intersect_p(r)))
            idx = {id(p): k + 1 for k, p in enumerate(ghosts)}
            a.out.put(op="probe", cls="probe/%s/%s" % (agg, kind), sig=sig, err="" if ok else v,
                      boxes=rec["boxes"], ray=dict(o=vec(o), d=vec(d), mint=enc(mint), maxt=enc(maxt)),
                      offers=[idx.get(id(p), 0) for p in log], agg=agg, leaf=leaf)

def query(op, g, prims, bs, o, d, mint, maxt, agg, kind, sig):
    singles = []
    for p in prims:
        r = mkray(o, d, mint, maxt, 2, .25)
        ok, h = attempt(lambda: p.intersect(r, Intersection()))
        if not ok:
            return
        singles.append(dict(hit=bool(h), t=enc(r.maxt) if h else "0"))
    r, isect = mkray(o, d, mint, maxt, 2, .25), Intersection()
    rp = mkray(o, d, mint, maxt, 2, .25)
    ok, v = attempt(lambda: (bool(g.intersect(r, isect)), bool(g.intersect_p(rp))))
    best = 0
    if ok and v[0]:
        for k, p in enumerate(prims):
            if p is isect.primitive and p.primitiveId == isect.primitiveId:
                best = k + 1
    a.out.put(op=op, cls="%s/%s/%s" % (agg, kind, "hit" if any(s["hit"] for s in singles) else "miss"), sig=sig,
              boxes=[dict(lo=vec(l), hi=vec(h)) for l, h in bs],
              ray=dict(o=vec(o), d=vec(d), mint=enc(mint), maxt=enc(maxt)), singles=singles,
              err="" if ok else v, hit=v[0] if ok else False, hitp=v[1] if ok else False, maxt=enc(r.maxt), best=best,
              rest=same(r, o, d, mint, 2, .25), prest=same(rp, o, d, mint, 2, .25) and rp.maxt == maxt, agg=agg)

def triangles(n):
    from pytracer.shape import create_triangle_mesh
    pts, idx = [], []
    for j in range(n):
        c = [rng.uniform(-4, 4) for _ in range(3)]
        for _ in range(3):
            pts.append(geo.Point(*[x + rng.uniform(-2, 2) for x in c]))
        idx += [3 * j, 3 * j + 1, 3 * j + 2]
    mesh = TriangleMesh(trans.Transform(), trans.Transform(), False, n, 3 * n, idx, pts, None, None, None, None)
    leaves = []
    GeometricPrimitive(mesh, None).full_refine(leaves)
    return leaves

KINDS = ["random", "coincident", "concentric", "line", "flat", "flats", "points", "samepoint", "expo", "expo12", "cluster", "near", "float"]
AGGS = ["sah", "middle", "simple", "lazy"]
jobs = []
sizes = [0, 1, 2, 3, 5, 6, 9, 14] if a.quick else [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 24, 40, 80]
if GRID:
    AGGS = ["grid", "grid", "gridlazy"]
    KINDS = KINDS + ["float", "random"]
    sizes = [0, 1, 2, 3, 5, 9, 14, 30] if a.quick else [0, 1, 2, 3, 4, 5, 7, 9, 12, 16, 24, 40, 60]
for kind in KINDS:
    for agg in AGGS:
        for n in sizes:
            for rep in range(1 if a.quick else 3):
                jobs.append((kind, agg, n))
for kind in () if GRID else ("expo", "expo12", "random", "coincident", "line"):
    for agg in ("sah", "middle"):
        jobs.append((kind, agg, 75 if kind.startswith("expo") else (150 if a.quick else 600)))
if not GRID:
    for k, agg in enumerate(("SAH", "Middle", "mIDDLE", "median")):      # other spellings, and a method the library does not know
        for n in (3, 9, 14) if a.quick else (3, 7, 14, 40):
            jobs.append((KINDS[(3 * k + n) % len(KINDS)], agg, n))
            jobs.append((rng.choice(KINDS) if a.parts == 1 else "random", agg, n + 2))
if not a.quick and not GRID:
    for agg in ("sah", "middle"):
        jobs.append(("expo", agg, 200))
        jobs.append(("random", agg, 2000))
for k, (kind, agg, n) in enumerate(jobs):
    if k % a.parts != a.part:
        continue
    leaf = rng.choice([0, 1, 2, 4, 8, 16, 255])
    world(kind, boxes(kind, n), agg, leaf, "%s/%s" % (agg, kind))
# real triangles, through the primitives that carry them
try:
    from pytracer.shape import TriangleMesh
    for k in range(2 if a.quick else 12):
        prims = triangles(rng.choice([1, 3, 8, 20]))
        bs = []
        for p in prims:
            b = p.world_bound()
            bs.append((list(b.pMin), list(b.pMax)))
        for agg in ("grid",) if GRID else ("sah", "middle", "simple"):
            ok, g = attempt(lambda: build(agg, prims, 4))
            if ok:
                for _ in range(6):
                    o = [rng.uniform(-6, 6) for _ in range(3)]
                    p = rng.choice(bs)
                    d = [(l + h) / 2 - x for l, h, x in zip(p[0], p[1], o)]
                    query("query", g, prims, bs, o, d, 0., INF, agg, "triangles", "%s/triangles" % agg)
except ImportError:
    pass
a.out.close()
