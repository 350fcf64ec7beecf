"""Render whole scenes with the real pipeline and record what reaches the film (P39).

Scenes are built from the repository's own shapes, placements, instances, aggregates, materials, lights, cameras,
sampler and film.  Each sample handed to the film is recorded with its radiance; the specification traces it anew."""
import os, math
os.environ["MODE"] = "P39"
from common import attempt, enc, vec, mat, scenarios
from shapes import a, rng, U, V, rigid, Alpha
import materials as M
from materials import Tex, q
import numpy as np
import pytracer.geometry as geo
import pytracer.material as mt
from pytracer import Spectrum
from pytracer.transform import Transform, AnimatedTransform
from pytracer.shape import Sphere, Cylinder, Disk, TriangleMesh
from pytracer.aggregate import GeometricPrimitive, TransformedPrimitive, SimpleAggregate, GridAccel, BVH
from pytracer.light import PointLight, SpotLight, DistantLight, DiffuseAreaLight, InfiniteAreaLight
from pytracer.scene import Scene
from pytracer.camera import PerspectiveCamera, OrthoCamera, EnvironmentCamera
from pytracer.film import ImageFilm
from pytracer.filter import BoxFilter, TriangleFilter
from pytracer.sampler import StratifiedSampler
from pytracer.integrator import DirectLightingIntegrator, WhittedIntegrator, PathIntegrator, LightStrategy
from pytracer.renderer import SamplerRenderer
import pytracer.montecarlo as mc

def tex(n, lo, hi, vary):
    t = Tex([q(lo, hi) for _ in range(n)], *([[q(-.1, .3) for _ in range(n)], [q(0., .3) for _ in range(n)]] if vary else []))
    return t
def material(kind, vary=False):
    """(description, the real material)"""
    r, args = dict(k=kind, bump=dict(k="none")), {}
    def put(name, t):
        r[name] = t.rec()
        return M.real(t)
    col = lambda lo=.1, hi=.9, v=vary: tex(3, lo, hi, v)
    ior = lambda: Tex([rng.choice([1.5, 1.25, 4. / 3.])])
    black = lambda: Tex([0., 0., 0.])
    if kind == "matte":
        return r, mt.MatteMaterial(put("kd", col()), put("sigma", Tex([rng.choice([0., 0., 20.])])), None)
    if kind == "black":
        r["k"] = "matte"
        return r, mt.MatteMaterial(put("kd", black()), put("sigma", Tex([0.])), None)
    if kind == "mirror":
        return r, mt.MirrorMaterial(put("kr", col(.4)), None)
    if kind == "glass":
        return r, mt.GlassMaterial(put("kr", col(.5)), put("kt", col(.5)), put("eta", ior()), None)
    if kind == "plastic":
        return r, mt.PlasticMaterial(put("kd", col()), put("ks", col(.2)), put("rough", Tex([q(.05, .5)])), None)
    if kind == "metal":
        return r, mt.MetalMaterial(put("eta", Tex([q(.2, 3.) for _ in range(3)])), put("kk", Tex([q(.5, 4.) for _ in range(3)])), put("rough", Tex([q(.05, .5)])), None)
    if kind == "uber":
        return r, mt.UberMaterial(put("kd", col()), put("ks", rng.choice([col, black])()), put("kr", rng.choice([lambda: col(.3), black])()), put("kt", rng.choice([lambda: col(.3), black])()),
                                  put("rough", Tex([q(.05, .5)])), put("op", Tex([1., 1., 1.])), put("eta", ior()), None)
    if kind == "mix":
        r1, m1 = material("matte", vary)
        r2, m2 = material("mirror", vary)
        if rng.random() < .5:
            r1, m1, r2, m2 = r2, m2, r1, m1
        s = tex(3, .2, .8, False)
        return dict(k="mix", m1=r1, m2=r2, scale=s.rec()), mt.MixMaterial(m1, m2, M.real(s))
    raise ValueError(kind)

class Thing(object):
    """a shape with its description, placement and material"""
    def __init__(self, kind, place, matk, emit=0, inst=None, ro=False, part=False, vary=False, **g):
        self.kind, self.o2w, self.ro, self.emit, self.inst = kind, place, ro, emit, inst
        self.vary = vary and matk not in ("black",)
        self.matr, self.mat = material(matk, self.vary)
        self.g = dict(rad=1., z0=-1., z1=1., ri=0., pm=360.)
        self.g.update(g)
    def shape(self):
        g, w2o = self.g, self.o2w.inverse()
        if self.kind == "sphere":
            return Sphere(self.o2w, w2o, self.ro, g["rad"], g["z0"], g["z1"], g["pm"])
        if self.kind == "cylinder":
            return Cylinder(self.o2w, w2o, self.ro, g["rad"], g["z0"], g["z1"], g["pm"])
        if self.kind == "disk":
            return Disk(self.o2w, w2o, self.ro, g["z0"], g["rad"], g["ri"], g["pm"])
        n = len(g["idx"]) // 3
        return TriangleMesh(self.o2w, w2o, self.ro, n, len(g["P"]), g["idx"], [geo.Point(*p) for p in g["P"]], [geo.Normal(*x) for x in g["N"]] if g.get("N") else None, None, g.get("uv"), Alpha(g["cut"]) if g.get("cut") else None)
    def recs(self):
        """one description per surface (a mesh is its triangles)"""
        g = self.g
        m, mi = self.o2w.m, self.o2w.m_inv
        mv, moves = {}, False
        if self.inst:
            moves = True
            t0, d0, t1, d1 = self.inst
            mv = dict(t0=enc(t0), t1=enc(t1), d0=vec(d0), d1=vec(d1))
        base = dict(kind=self.kind, ro=self.ro, m=mat(m), mi=mat(mi), moves=moves, mv=mv, mat=self.matr, emit=self.emit, vary=self.vary)
        if self.kind != "tri":
            base.update(rad=enc(g["rad"]), z0=enc(g["z0"]), z1=enc(g["z1"]), ri=enc(g["ri"]), pm=enc(g["pm"]))
            return [base]
        out = []
        for f in range(len(g["idx"]) // 3):
            c = g["idx"][3 * f:3 * f + 3]
            uv = [[enc(g["uv"][2 * j]), enc(g["uv"][2 * j + 1])] for j in c] if g.get("uv") else [["0", "0"], ["1", "0"], ["1", "1"]]
            out.append(dict(base, v=[vec(g["P"][j]) for j in c], uv=uv, n=[vec(g["N"][j]) for j in c] if g.get("N") else [], cut=[enc(x) for x in g.get("cut") or []]))
        return out
    def prim(self, light=None):
        p = GeometricPrimitive(self.shape(), self.mat, light)
        if self.inst:
            t0, d0, t1, d1 = self.inst
            inner = rng.choice([lambda: p, lambda: BVH([p], 1), lambda: SimpleAggregate([p], True), lambda: GridAccel([p], False)])() if self.kind != "tri" else rng.choice([lambda: BVH([p], 1), lambda: GridAccel([p], rng.random() < .5)])()
            w = lambda d: Transform.translate(geo.Vector(*[-x for x in d]))
            p = TransformedPrimitive(inner, AnimatedTransform(w(d0), t0, w(d1), t1))
        return p

T = lambda x, y, z: Transform.translate(geo.Vector(x, y, z))
def floor(matk, **k):
    """the ground: a disk or two triangles in the plane z = -1"""
    if rng.random() < .5:
        return Thing("disk", T(q(-.5, .5), q(-.5, .5), -1.), matk, rad=8., z0=0., z1=0., **k)
    s = q(5., 9.)
    uv = [0., 0., 1., 0., 1., 1., 0., 1.] if rng.random() < .6 else None
    idx = rng.choice([[0, 1, 2, 2, 3, 0], [0, 1, 2, 0, 2, 3], [0, 2, 1, 0, 3, 2]])
    return Thing("tri", T(0., 0., -1.) * Transform.rotate_z(U(0, 90)), matk, P=[(-s, -s, 0.), (s, -s, 0.), (s, s, 0.), (-s, s, 0.)], idx=idx, uv=uv, **k)
def ball(x, y, matk, **k):
    r = q(.5, .95)
    whole = k.pop("whole", False) or rng.random() < .7
    o2w = T(x, y, q(-.2, .4)) * rng.choice([lambda: Transform(), lambda: Transform.rotate(U(-180, 180), V())])()
    if rng.random() < .2:
        o2w = o2w * Transform.scale(*[rng.choice([1., .8, 1.2]) for _ in range(3)])
    if rng.random() < .1:
        o2w = o2w * Transform.scale(-1., 1., 1.)
    if whole:
        return Thing("sphere", o2w, matk, rad=r, z0=-r, z1=r, **k)
    if rng.random() < .5:
        return Thing("sphere", o2w, matk, rad=r, z0=-r * q(.2, 1.), z1=r * q(.3, 1.), pm=rng.choice([360., 270., 200.]), **k)
    return Thing("cylinder", o2w, matk, rad=r * .8, z0=-r, z1=r, pm=rng.choice([360., 360., 250.]), **k)
def pane(x, y, matk, **k):
    """a leaning sheet of two triangles, or a small tetrahedron, with or without corner normals"""
    o2w = T(x, y, q(-.2, .3)) * Transform.rotate(U(-180, 180), V())
    if rng.random() < .35 and matk != "glass":       # parts of the sheet are cut away by its alpha texture
        k["cut"] = rng.choice([[1., 0., 0., 0., 0., .4], [1., -1., 0., 0., 0., .1], [3., 2., q(0., 1.), q(0., 1.)], [2., 4., .5, 0.]])
    if rng.random() < .5:
        N = [(q(-.2, .2), q(-.2, .2), 1.) for _ in range(4)] if rng.random() < .5 and matk != "glass" else None
        return Thing("tri", o2w, matk, P=[(-.9, -.8, 0.), (.9, -.8, 0.), (.9, .9, 0.), (-.8, .9, 0.)], idx=[0, 1, 2, 2, 3, 0], uv=[0., 0., 1., 0., 1., 1., 0., 1.] if rng.random() < .5 else None, N=N, **k)
    return Thing("tri", o2w, matk, P=[(0., 0., .9), (.9, 0., -.5), (-.5, .8, -.5), (-.5, -.8, -.5)], idx=[0, 1, 2, 0, 2, 3, 0, 3, 1, 1, 3, 2], **k)

ROUGH = ["matte", "matte", "plastic", "metal", "uber", "mix"]
def lamp(kind):
    c = [q(.5, 3.) for _ in range(3)]
    if kind == "distant":
        l2w = rigid()
        d = geo.Vector(U(-.6, .6), U(-.6, .6), 1.)
        d = l2w.inverse()(d)
        return dict(kind="distant", c=vec(c), m=mat(l2w.m), mi=mat(l2w.m_inv), di=vec(d)), lambda: DistantLight(l2w, Spectrum(c), d)
    c = [8. * x for x in c]
    at = (U(-3, 3), U(-3, 3), U(2.5, 5))
    if kind == "point":
        l2w = T(*at)
        return dict(kind="point", c=vec(c), m=mat(l2w.m), mi=mat(l2w.m_inv)), lambda: PointLight(l2w, Spectrum(c))
    l2w = Transform.look_at(geo.Point(*at), geo.Point(U(-.5, .5), U(-.5, .5), -.5), geo.Vector(0., 1., .1))
    w, f = q(20., 50.), q(5., 18.)
    return dict(kind="spot", c=vec(c), m=mat(l2w.m), mi=mat(l2w.m_inv), width=enc(w), fall=enc(f)), lambda: SpotLight(l2w, Spectrum(c), w, f)

class Film(ImageFilm):
    def __init__(self, *args):
        super().__init__(*args)
        self.seen = []
    def add_sample(self, s, L):
        self.seen.append((float(s.imageX), float(s.imageY), float(s.lens_u), float(s.lens_v), float(s.time), [float(v) for v in L]))
        super().add_sample(s, L)

def camera(film_args):
    pos = (U(-1.5, 1.5), U(-8, -6), U(.3, 3.5))
    el = Transform.look_at(geo.Point(*pos), geo.Point(U(-.4, .4), U(-.4, .4), U(-.4, .2)), geo.Vector(0., U(-.1, .1), 1.))
    xr, yr = film_args
    asp = xr / yr
    win = [-asp, asp, -1., 1.] if rng.random() < .7 else [U(-1, -.5), U(.5, 1), U(-1, -.5), U(.5, 1)]
    kind = rng.choice(["persp", "persp", "persp", "persp", "ortho", "env"])
    if kind == "env":       # in the midst of the scene
        pos = (U(-.4, .4), U(-3.5, -2.5), U(.3, 1.5))
        el = Transform.look_at(geo.Point(*pos), geo.Point(U(-3, 3), U(-.4, .4), U(-.8, .2)), geo.Vector(0., U(-.1, .1), 1.))
    lensr = rng.choice([0., 0., .05, .2])
    focal = U(4, 9)
    fov = rng.choice([25., 35., 50.])
    if kind == "ortho":
        win = [2.5 * x for x in win]
    c = dict(kind=kind, win=[enc(x) for x in win], res=[xr, yr], fov=enc(fov), lensr=enc(lensr), focal=enc(focal), m=mat(el.m))
    def mk(film, op, cl):
        an = AnimatedTransform(el, 0., el, 1.)
        if kind == "persp":
            return PerspectiveCamera(an, win, op, cl, lensr, focal, fov, film)
        if kind == "env":
            return EnvironmentCamera(an, op, cl, film)
        return OrthoCamera(an, win, op, cl, lensr, focal, film)
    return c, mk

def scene(spec):
    """spec: slots (list of material kinds), lights (list of kinds), integ, maxd"""
    things, lights, mk = [], [], []
    sky = "sky" in spec["lights"]
    for l in spec["lights"]:
        if l == "sky":
            c = [q(.2, 1.) for _ in range(3)]
            lights.append(dict(kind="sky", c=vec(c)))
            mk.append(("sky", lambda c=c: InfiniteAreaLight(rigid(), Spectrum(c), 1, "")))
        elif l == "area":
            lights.append(None)
            mk.append(None)
        else:
            r, f = lamp(l)
            lights.append(r)
            mk.append((l, f))
    if "area" in spec["lights"]:
        k = spec["lights"].index("area")
        c = [q(.5, 3.) for _ in range(3)]
        e = rng.choice([lambda: ball(q(1., 2.), q(1.5, 3.), "black", whole=True), lambda: Thing("disk", T(q(-1., 1.), q(-1., 1.), 3.) * Transform.rotate_x(180.), "black", rad=1.5, z0=0., z1=0., ro=rng.random() < .3), lambda: pane(q(.5, 1.5), q(.5, 2.5), "black", ro=rng.random() < .3)])()
        e.emit = k + 1
        lights[k] = dict(kind="area", c=vec(c))
        mk[k] = ("area", lambda s: DiffuseAreaLight(e.o2w, Spectrum(c), 1, s))
        things.append(e)
    places = [(-.9, .2), (1., -.3), (0., 1.8), (.2, -1.6)]
    rng.shuffle(places)
    n = 0
    for matk in spec["slots"]:
        if matk == "none":
            n += 1
            continue
        if matk == "rough":
            matk = rng.choice(ROUGH)
        vary = matk != "glass" and rng.random() < .25
        k = dict(ro=rng.random() < .3 and matk != "glass", vary=vary)
        if n == 0:
            things.append(floor(matk, **k))
        else:
            x, y = places[(n - 1) % 4]
            if rng.random() < .2:
                t1 = q(.5, 1.)
                k["inst"] = (0., (0., 0., 0.), t1, (q(-.5, .5), q(-.5, .5), q(-.2, .2)))
            things.append((ball if rng.random() < .65 else pane)(x, y, matk, **(dict(k, whole=True) if matk == "glass" else k)))
        n += 1
    return things, lights, mk

def render(spec, cls):
    things, lights, mk = scene(spec)
    xr, yr = rng.choice([(2, 2), (3, 2), (2, 3), (4, 1)])
    ns = rng.choice([(1, 1), (1, 2), (2, 1)])
    op, cl = rng.choice([(0., 0.), (0., 1.), (.25, .75)])
    camr, mkcam = camera((xr, yr))
    maxd, integ = spec["maxd"], spec["integ"]
    agg = rng.choice(["bvh", "bvh", "grid", "simple"])
    recs = [x for t in things for x in t.recs()]
    base = dict(op="render", cls=cls, sig="render/" + integ, shapes=recs, lights=lights, cam=camr, integ=integ, maxd=maxd, agg=agg)
    def go():
        made, prims, emitters = {}, [], {}
        for t in things:
            if t.emit:
                s = t.shape()
                l = mk[t.emit - 1][1](s)
                made[t.emit - 1] = l
                prims.append(GeometricPrimitive(s, t.mat, l))
            else:
                prims.append(t.prim())
        ls = [made[k] if k in made else mk[k][1]() for k in range(len(mk))]
        A = {"bvh": lambda: BVH(prims, rng.choice([1, 2, 4]), rng.choice(["sah", "middle", "equal_count"])), "grid": lambda: GridAccel(prims, rng.random() < .5), "simple": lambda: SimpleAggregate(prims, True)}[agg]()
        sc = Scene(A, ls, None)
        film = Film(xr, yr, rng.choice([BoxFilter(.5, .5), TriangleFilter(1., 1.)]), [0., 1., 0., 1.], os.path.join(os.environ["VERIF_SCRATCH"], "r%d.png" % a.part))
        cam = mkcam(film, op, cl)
        x0, x1, y0, y1 = film.get_sample_extent()
        smp = StratifiedSampler(x0, x1, y0, y1, ns[0], ns[1], rng.random() < .7, op, cl)
        I = {"whitted": lambda: WhittedIntegrator(maxd), "direct": lambda: DirectLightingIntegrator(LightStrategy.SAMPLE_ALL_UNIFORM, maxd), "one": lambda: DirectLightingIntegrator(LightStrategy.SAMPLE_ONE_UNIFORM, maxd), "path": lambda: PathIntegrator(maxd - 1)}[integ]()
        SamplerRenderer(smp, cam, I, None).render(sc)
        return film, (x1 - x0) * (y1 - y0) * ns[0] * ns[1]
    ok, w = attempt(go, 60)
    if not ok:
        a.out.put(smp=[], total=0, want=0, lost=0, err=w, **base)
        return
    film, want = w
    smp = []
    for (x, y, lu, lv, t, L) in film.seen:
        smp.append(dict(px=enc(x), py=enc(y), lens=[enc(v) for v in mc.concentric_sample_disk(lu, lv)], time=enc(t), L=[enc(v) for v in L]))
    n = 4
    for k in range(0, len(smp), n):
        a.out.put(smp=smp[k:k + n], total=len(smp), want=int(want), lost=sum(1 for f in film.seen if not all(math.isfinite(v) for v in f[5])), err="", **base)

def anyspec():
    integ = rng.choice(["whitted", "direct", "one", "path"])
    maxd = rng.choice([1, 2, 3, 4])
    if rng.random() < .3 or integ == "path" and maxd > 1:
        lights = rng.choice([["sky"], ["area"], ["sky", "area"], ["area", "sky"], ["sky", "area", "sky"]])
        slots = [rng.choice(["mirror", "glass", "mirror", "black", "none"] if integ != "path" else ["mirror", "black", "mirror", "none"]) for _ in range(rng.choice([2, 3, 4]))]
    else:
        lights = [rng.choice(["point", "distant", "spot"]) for _ in range(1 if integ in ("one", "path") else rng.choice([1, 1, 2, 3]))]
        slots = ["rough"] + [rng.choice(["rough", "rough", "mirror", "glass", "none"]) for _ in range(rng.choice([1, 2, 3]))]
    return dict(lights=lights, slots=slots, integ=integ, maxd=maxd)
if __name__ == "__main__":
    if a.scen:
        sc = scenarios(a)
        rng.shuffle(sc)
        for s in sc[:12 if a.quick else 90]:
            render(s, "model/%s" % s["integ"])
    for _ in range(6 if a.quick else 60):
        s = anyspec()
        render(s, "%s/%s" % (s["integ"], "+".join(sorted(set(s["lights"])))))
    a.out.close()
