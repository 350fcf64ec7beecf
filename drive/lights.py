"""Exercise every light source (P23)."""
import os, math, tempfile, shutil
os.environ.setdefault("MODE", "P23")
from common import attempt, enc, vec, mat
import shapes as S
from shapes import a, rng, U, V, rigid, placement, quadric, mesh_data
import numpy as np
import pytracer.geometry as geo
from pytracer.transform import Transform
from pytracer.spectral import Spectrum
from pytracer.shape import create_triangle_mesh
import pytracer.montecarlo as mc
import pytracer.light as lt
from pytracer.light import PointLight, SpotLight, ProjectionLight, GonioPhotometricLight, DistantLight, DiffuseAreaLight, InfiniteAreaLight
from pytracer.light.utility import LightSample
TMP = tempfile.mkdtemp(prefix="light")
N = [0]
def col():
    return [rng.choice([0., 1., U(0, 20)]) for _ in range(3)]
def picture():
    """(pixels, file name), sometimes none"""
    if rng.random() < .25:
        return [], rng.choice([None, os.path.join(TMP, "missing.png")])
    import PIL.Image
    h, w = rng.choice([(2, 2), (4, 4), (2, 4), (4, 2), (1, 2), (4, 1), (8, 4), (1, 1)])
    dark = rng.choice([0., 0., .4, .9])      # the share of black pixels
    px = [[[rng.randrange(256) for _ in range(3)] if rng.random() >= dark else [0, 0, 0] for _ in range(w)] for _ in range(h)]
    px[rng.randrange(h)][rng.randrange(w)] = [200, 10, 30]
    N[0] += 1
    name = os.path.join(TMP, "p%d.png" % N[0])
    PIL.Image.fromarray(np.array(px, dtype=np.uint8), mode="RGB").save(name)
    return px, name
class Scn(object):
    def __init__(self):
        p, q = [U(-5, 5) for _ in range(3)], [U(-5, 5) for _ in range(3)]
        self.b = geo.BBox(geo.Point(*p), geo.Point(*q))
        self.lo, self.hi = [min(x) for x in zip(p, q)], [max(x) for x in zip(p, q)]
    def world_bound(self):
        return self.b
def rray(r):
    return dict(o=vec(r.o), d=vec(r.d), mint=enc(r.mint), maxt=enc(r.maxt), time=enc(r.time), depth=int(r.depth))
def direction():
    d = geo.normalize(V())
    if rng.random() < .25:
        d = geo.Vector(*[rng.choice([-1., 0., 1.]) if k == rng.randrange(3) else 0. for k in range(3)])
        if d.length() == 0:
            d = geo.Vector(0., 0., 1.)
        d = geo.normalize(d)
    return d

def build(kind):
    """(record, light, parts)"""
    l2w = rng.choice([rigid(), rigid(), Transform(), Transform.rotate(U(-180, 180), V())])
    if kind in ("point", "spot", "gonio") and rng.random() < .2:       # a light placed by a scaling frame
        l2w = l2w * Transform.scale(*rng.choice([[.5] * 3, [2.] * 3, [.1] * 3, [20.] * 3, [U(.3, 2), U(.3, 2), U(.3, 2)]]))
        SCALED[:] = [True]
    else:
        SCALED[:] = [False]
    c = col()
    I = Spectrum(np.array(c))
    r = dict(kind=kind, m=mat(l2w.m), mi=mat(l2w.inverse().m), c=vec(c), map=[], width="0", fall="0", fov="0", di=vec([0, 0, 1]))
    if kind == "point":
        return r, lambda: PointLight(l2w, I), l2w
    if kind == "spot":
        w = rng.choice([30., 60., 89., U(2, 120)])
        f = w * rng.choice([.5, .9, .99, .999, U(.05, .95)])
        r.update(width=enc(w), fall=enc(f))
        return r, lambda: SpotLight(l2w, I, w, f), l2w
    if kind == "proj":
        px, name = picture()
        fov = rng.choice([45., 90., U(5, 140)])
        r.update(map=px, fov=enc(fov))
        return r, lambda: ProjectionLight(l2w, I, name, fov), l2w
    if kind == "gonio":
        px, name = picture()
        r.update(map=px)
        return r, lambda: GonioPhotometricLight(l2w, I, name), l2w
    if kind == "distant":
        d = V() * rng.choice([1., 1., 5.])
        r.update(di=vec(d))
        return r, lambda: DistantLight(l2w, I, d), l2w
    if kind == "area":
        o2w = rigid()
        w2o = o2w.inverse()
        if rng.random() < .6:
            s, mk, surf, rad = quadric(o2w, w2o, False)
            def shape():
                return mk()
            WHOLE[:] = [[], shape]
        else:
            nt = rng.choice([1, 2, 3, 5, 18, 18])
            pts = [geo.Point(U(-2, 2), U(-2, 2), U(-2, 2)) for _ in range(nt + 2)]
            idx = [j for k in range(nt) for j in (k, k + 1, k + 2)]
            WHOLE[:] = [[[vec(o2w(pts[k + j])) for j in range(3)] for k in range(nt)], None]
            ro = rng.random() < .4
            def shape():
                from pytracer.shape import TriangleMesh
                return TriangleMesh(o2w, w2o, ro, nt, len(pts), idx, pts)
        return r, lambda: DiffuseAreaLight(l2w, I, rng.choice([1, 4]), shape()), l2w
    px, name = picture()
    r.update(map=px)
    return r, lambda: InfiniteAreaLight(l2w, I, 1, name), l2w

WHOLE = [[], None]
SCALED = [False]
def aim(kind, r, l2w):
    """a receiving point in an interesting direction as the light sees it"""
    if kind in ("area", "distant", "env") or rng.random() < .3:
        return [U(-6, 6) for _ in range(3)]
    if kind == "spot":
        w, f = math.radians(float.fromhex(r["width"])), math.radians(float.fromhex(r["fall"]))
        th = rng.choice([U(0, f), U(f, w), U(f, w), U(0, math.pi), w * 1.01, w * .99, f * .99])
    elif kind == "proj":
        th = rng.choice([U(0, 1.) * math.radians(float.fromhex(r["fov"])) / 2, U(0, math.pi), U(0, 1.5)])
    else:
        th = U(0, math.pi)
    ph = U(0, 2 * math.pi)
    k = rng.choice([1., .1, U(.2, 9), U(.2, 9), .01, .003, 40., 300.])
    q = l2w(geo.Point(k * math.sin(th) * math.cos(ph), k * math.sin(th) * math.sin(ph), k * math.cos(th)))
    return [float(x) for x in q]

def parts_of(light, p, ls, wi=None):
    out = []
    for sh in light.shape_set.shapes:
        if p is None:
            pt, n = sh.sample(ls.u_pos[0], ls.u_pos[1])
        else:
            pt, n = sh.sample_p(geo.Point(*p), ls.u_pos[0], ls.u_pos[1])
        out.append(dict(area=enc(sh.area()), pt=vec(pt), n=vec(n), dens=enc(sh.pdf_p(geo.Point(*p), wi)) if wi is not None else "0"))
    return out
def grid_of(light, r, l2w):
    nv, nu = (2 * len(r["map"]), 2 * len(r["map"][0])) if r["map"] else (2, 2)
    g = []
    for v in range(nv):
        row = []
        for u in range(nu):
            th, ph = (v + .5) / nv * math.pi, (u + .5) / nu * 2 * math.pi
            d = l2w(geo.Vector(math.sin(th) * math.cos(ph), math.sin(th) * math.sin(ph), math.cos(th)))
            row.append(enc(float(light.pdf(geo.Point(0., 0., 0.), d)) * 2 * math.pi * math.pi * math.sin(th)))
        g.append(row)
    return g

KINDS = ["point", "spot", "spot", "proj", "proj", "gonio", "distant", "area", "area", "env", "env"]
def owned(ask):
    """what is returned is the caller's: changing it must not change later answers"""
    def flat(x):
        if x is None: return [None]
        if isinstance(x, geo.Ray): return flat(x.o) + flat(x.d) + [x.mint, x.maxt, x.time]
        return [float(y) for y in np.ravel(np.asarray(x, dtype=float))]
    first = ask()
    was = [flat(x) for x in first]
    for x in first:
        for y in ([x.o, x.d] if isinstance(x, geo.Ray) else [x]):
            if isinstance(y, np.ndarray):
                y *= -3.
    assert repr([flat(x) for x in ask()]) == repr(was), "a caller can change the light"
def main():
    for n in range(77 if a.quick else 600):
        kind = KINDS[n % len(KINDS)]
        base, mk, l2w = build(kind)
        sig = "light/%s" % kind
        def put(op, ok, v, **more):
            if not ok and op != "build":
                more = dict(more)
            a.out.put(op=op, cls="%s/%s%s" % (op, kind, "/map" if base["map"] else ""), sig=sig, err="" if ok else v, **dict(base, **dict(v if ok else {}, **more)))
        ok, light = attempt(mk)
        if not ok:
            put("build", ok, light)
            continue
        scn = Scn()
        bx = dict(lo=vec(scn.lo), hi=vec(scn.hi))
        extra = {}
        if kind == "env":
            ok, g = attempt(lambda: grid_of(light, base, l2w))
            put("grid", ok, dict(grid=g) if ok else g)
            if not ok:
                continue
            extra = dict(grid=g)
        for k in range(5 if a.quick else 8):
            p = aim(kind, base, l2w)
            u = [rng.choice([rng.random(), rng.random(), 0., .5, .999]) for _ in range(3)]
            ls = LightSample(u[0], u[1], u[2])
            eps, time = rng.choice([0., 1e-3, 1e-5]), rng.choice([0., .25, U(0, 2)])
            def go():
                P = geo.Point(*p)
                v, wi, pdf, vis = light.sample_l(P, eps, ls, time)
                assert [float(x) for x in P] == p, "receiving point changed"
                wi2 = wi if kind in ("area", "env") else direction()
                d = dict(v=vec(v), wi=vec(wi), pdf=enc(pdf), pdf2=enc(light.pdf(P, wi2)), vis=rray(vis.ray))
                d["parts"] = parts_of(light, p, ls, wi) if kind == "area" else []
                # what was returned is the caller's: changing it must not change the light
                v *= 3.
                wi *= -1.
                v2, wi2, pdf2, _ = light.sample_l(P, eps, ls, time)
                assert all(x == float.fromhex(y) for x, y in zip([float(q) for q in v2], d["v"])) and [enc(x) for x in wi2] == d["wi"] and enc(pdf2) == d["pdf"], "sampling is not repeatable"
                return d
            ok, v = attempt(go)
            put("sample", ok, v, p=vec(p), eps=enc(eps), time=enc(time), u=[enc(x) for x in u[:2]], ucom=enc(u[2]), **extra)
        for k in range(0 if SCALED[0] else 2 if a.quick else 5):
            u = [rng.random() for _ in range(3)]
            u1, u2 = rng.random(), rng.random()
            ls = LightSample(u[0], u[1], u[2])
            time = rng.choice([0., .25, U(0, 2)])
            def go():
                owned(lambda: [None if x is None else x for x in light.sample_r(scn, ls, u1, u2, time)])
                ray, n, pdf, v = light.sample_r(scn, ls, u1, u2, time)
                if ray is None:
                    return dict(ray=rray(geo.Ray(geo.Point(0., 0., 0.), geo.Vector(0., 0., 1.))), n=vec([0, 0, 1]), pdf=enc(pdf), v=vec(v), parts=[], warp=vec([0, 0, 1]), disk=vec([0, 0], 2))
                d = dict(ray=rray(ray), n=vec(n), pdf=enc(pdf), v=vec(v), parts=parts_of(light, None, ls) if kind == "area" else [])
                warp, disk = [0., 0., 1.], [0., 0.]
                if kind in ("point", "gonio"):
                    warp = mc.uniform_sample_sphere(u[0], u[1])
                elif kind == "area":
                    warp = mc.uniform_sample_sphere(u1, u2)
                elif kind in ("spot", "proj"):
                    warp = mc.uniform_sample_cone(u[0], u[1], light.cos_width)
                elif kind == "distant":
                    disk = mc.concentric_sample_disk(u[0], u[1])
                else:
                    disk = mc.concentric_sample_disk(u1, u2)
                d.update(warp=vec(warp), disk=vec(disk, 2))
                return d
            ok, v = attempt(go)
            put("emit", ok, v, time=enc(time), u=[enc(x) for x in u[:2]], ucom=enc(u[2]), box=bx, **extra)
        def go():
            owned(lambda: [light.power(scn)])
            return dict(v=vec(light.power(scn)), parts=[dict(area=enc(sh.area())) for sh in light.shape_set.shapes] if kind == "area" else [],
                        tris=WHOLE[0], whole=enc(WHOLE[1]().area()) if kind == "area" and WHOLE[1] else "0")
        ok, v = attempt(go)
        put("power", ok, v, box=bx)
        w = direction()
        def go():
            owned(lambda: [light.le(geo.RayDifferential(geo.Point(0., 0., 0.), w.copy(), 0., float("inf")))])
            return dict(v=vec(light.le(geo.RayDifferential(geo.Point(*[U(-3, 3) for _ in range(3)]), w, 0., float("inf")))), delta=bool(light.is_delta_light()), w=vec(w),
                        dens=enc(light.pdf(geo.Point(*[U(-3, 3) for _ in range(3)]), w)) if kind != "area" else "0")
        for _ in range(16 if kind == "env" else 1):
            w = direction()
            ok, v = attempt(go)
            put("le", ok, v)
        if kind == "area":
            for _ in range(2):
                nn, w = direction(), direction()
                ok, v = attempt(lambda: owned(lambda: [light.l(geo.Point(1., 2., 3.), geo.Normal.from_arr(nn), w)]) or dict(v=vec(light.l(geo.Point(1., 2., 3.), geo.Normal.from_arr(nn), w)), n=vec(nn), w=vec(w)))
                put("side", ok, v)
try:
    main()
finally:
    shutil.rmtree(TMP)
a.out.close()
