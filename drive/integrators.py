"""Run the real integrators, renderer and visibility queries in scripted worlds (P25, P26).

A world is a finite graph of surface points.  Lights, surfaces, geometry and media are stand-ins answering from the
script; which light, which component and which ray is asked for is up to the code under test.  The script, the calls
and the returned radiance are recorded; the specification computes what the radiance must be."""
import os, math
from common import setup, attempt, enc, vec, scenarios
a = setup()
import numpy as np
import pytracer.geometry as geo
from pytracer import Spectrum
from pytracer.transform import Transform
from pytracer.aggregate import Intersection, Primitive
from pytracer.scene import Scene
from pytracer.light import Light, AreaLight, VisibilityTester, LightSample
from pytracer.reflection import BSDF, BDFType, BSDFSample
from pytracer.renderer import SamplerRenderer
from pytracer.sampler.sample import Sample
from pytracer.integrator import (DirectLightingIntegrator, WhittedIntegrator, PathIntegrator, LightStrategy, estimate_direct,
                                 uniform_sample_all_lights, uniform_sample_one_light, compute_light_sampling_cdf)
from pytracer.geometry import RayDifferential
from pytracer.geometry.diffgeom import DifferentialGeometry
rng = a.rng
MODE = os.environ["MODE"]
U = lambda x, y: rng.uniform(x, y)
q = lambda x, y: round(U(x, y) * 64) / 64.
def mag(): return rng.choice([1.] * 12 + [2. ** -7, 2. ** -10, 2. ** -14, 2. ** 6])     # dim and bright, rare and frequent
def col(lo=.125, hi=1.5):
    m = mag()
    return [q(lo, hi) * m for _ in range(3)]
def dens(lo, hi): return q(lo, hi) * mag()
ZERO, ONE = [0., 0., 0.], [1., 1., 1.]
def unit(v):
    v = np.array([float(x) for x in v])
    return v / math.sqrt(v.dot(v))
def rdir(n=None, lo=.15):
    hi = 2.
    if n is not None and rng.random() < .1:       # nearly along the surface
        lo, hi = .003, .1
    while True:
        v = unit([rng.gauss(0, 1) for _ in range(3)])
        if n is None or hi > abs(v.dot(n)) > lo:
            return v
class Ent(object):
    """a direction leaving a surface point (or the camera): what is met there"""
    def __init__(self, wi, f=ZERO, pdf=0., spec=False, to=0, tr=ONE, lvi=ZERO, esc=(), lp=(), kind=""):
        self.wi, self.f, self.pdf, self.spec, self.to, self.tr, self.lvi, self.esc, self.lp, self.kind = wi, f, pdf, spec, to, tr, lvi, esc, lp, kind
    def rec(self):
        return dict(wi=vec(self.wi), f=vec(self.f), pdf=enc(self.pdf), spec=self.spec, to=self.to, tr=vec(self.tr), lvi=vec(self.lvi), esc=[vec(e) for e in self.esc], lp=[enc(x) for x in self.lp])
class LS(object):
    """what sampling one light from one point yields"""
    def __init__(self, wi, L, pdf, occ, tr, f, bpdf):
        self.wi, self.L, self.pdf, self.occ, self.tr, self.f, self.bpdf = wi, L, pdf, occ, tr, f, bpdf
    def rec(self):
        return dict(wi=vec(self.wi), L=vec(self.L), pdf=enc(self.pdf), occ=self.occ, tr=vec(self.tr), f=vec(self.f), bpdf=enc(self.bpdf))
class Vtx(object):
    pass
class World(object):
    def __init__(self, lights, vol, depth=0):
        self.L, self.vol, self.vs, self.odd, self.rays, self.lsl, self.nbl, self.pbl, self.pdfs, self.shadow = lights, vol, [], [], [], [], [], [], [], []
        self.scale = False
        self.rev = {}
        self.time = q(0, 1)
    def n(self):
        return len(self.L)
    def tr(self):
        return col(.25, 1.) if self.vol else ONE
    def esc(self):
        return [col() if l["env"] else ZERO for l in self.L]
    def vertex(self, wo, emit=0, dark=.15, at=None):
        v = Vtx()
        self.vs.append(v)
        v.k, v.wo, v.emit = len(self.vs), wo, emit
        v.le = col() if emit else ZERO
        v.eps = rng.choice([1e-3, 1e-5, .25, 0.])
        d = U(1, 6)
        v.p = geo.Point(*[at[k] - d * wo[k] for k in range(3)]) if at is not None else geo.Point(U(-4, 4), U(-4, 4), v.k * 16. + U(-4, 4))
        n = rdir(wo)
        t = unit(np.cross(n, rdir()))
        b = np.cross(n, t)
        N = lambda s: geo.Normal(*(t * U(-s, s) + b * U(-s, s)))
        v.dg = DifferentialGeometry(v.p, geo.Vector(*(t * U(.5, 2))), geo.Vector(*(b * U(.5, 2) + t * U(-.3, .3))), N(.5), N(.5), q(0, 1), q(0, 1), None)
        v.n = np.array([v.dg.nn.x, v.dg.nn.y, v.dg.nn.z])
        v.eta = rng.choice([1.5, 1.25, 1., 2., .75])
        v.ls = []
        for l in self.L:
            z = lambda: rng.random() < dark
            v.ls.append(LS(rdir(v.n), ZERO if z() else col(), 0. if z() else 1. if l["delta"] else dens(.1, 3), z(), self.tr(), ZERO if z() else col(), rng.choice([0., dens(.1, 3), dens(.1, 3)])))
        v.nb, v.pb, v.sr, v.st = [], None, None, None
        v.has = False
        return v
    def leaf(self):
        """a target of surface-sampled rays"""
        return self.vertex(rdir(), rng.choice([0] + [k + 1 for k, l in enumerate(self.L) if l["area"]])).k if rng.random() < .7 else 0
    def surf(self, v, dark=.15, to=None, spec=False):
        z = lambda: rng.random() < dark
        return Ent(rdir(v.n), ZERO if z() else col(), 0. if z() else dens(.1, 3), spec, self.leaf() if to is None else to, self.tr(), ZERO, self.esc(),
                   [0. if l["delta"] or z() else dens(.1, 3) for l in self.L], "nb")
    def mirror(self, v):
        return 2 * v.wo.dot(v.n) * v.n - v.wo
    def bend(self, v):
        c = v.wo.dot(v.n)
        h = 1. / v.eta if c > 0 else v.eta
        s2 = 1. - h * h * (1. - c * c)
        if s2 < .02:
            return None
        return -h * v.wo + (h * c - math.copysign(math.sqrt(s2), c)) * v.n
    # ---- lookups ----
    def at(self, p):
        for v in self.vs:
            if max(abs(p[k] - v.p[k]) for k in range(3)) < 1e-9:
                return v
        return None
    def ents(self, v):
        if v is None:
            return [self.cam]
        return [e for e in v.nb + [v.pb, v.sr, v.st] if e is not None]
    def ent(self, v, d):
        d = unit(d)
        best = max(self.ents(v), key=lambda e: e.wi.dot(d), default=None)
        return best if best is not None and best.wi.dot(d) > 1 - 1e-9 else None
    def lsof(self, v, d):
        d = unit(d)
        best = max(v.ls, key=lambda s: s.wi.dot(d), default=None) if v is not None else None
        return best if best is not None and best.wi.dot(d) > 1 - 1e-9 else None
    def ray(self, r):
        v = self.at(r.o)
        if v is None and max(abs(r.o[k] - self.eye[k]) for k in range(3)) > 1e-9:
            self.odd.append("ray from nowhere")
            return None, None
        return v, self.ent(v, r.d)
W = None
class Prim(Primitive):
    def __init__(self, v):
        super().__init__()
        self.v = v
    def world_bound(self): return geo.BBox(geo.Point(-99., -99., -99.), geo.Point(99., 99., 999.))
    def can_intersect(self): return True
    def refine(self, refined): pass
    def get_area_light(self): return W.lights[self.v.emit - 1] if self.v.emit else None
    def get_bssrdf(self, dg, o2w): return None
    def get_bsdf(self, dg, o2w): return Surf(self.v, dg)
    def intersect(self, r, isect): raise RuntimeError
    def intersect_p(self, r): raise RuntimeError
class Agg(Prim):
    def __init__(self): Primitive.__init__(self)
    def intersect(self, r, isect):
        v, e = W.ray(r)
        rec = dict(fr=v.k if v else 0, kind=e.kind if e else "?", depth=int(r.depth), time=enc(r.time), mint=enc(r.mint), maxt=enc(r.maxt), has=False, lost=bool(v is not None and v.has and not getattr(r, "has_differentials", False)))
        if v is not None and e is not None and e.kind in ("sr", "st") and v.has and getattr(r, "has_differentials", False):
            g = v.dg
            dn = lambda u, w: vec([g.dndu[k] * u + g.dndv[k] * w for k in range(3)])
            rec.update(has=True, rxo=vec(r.rxOrigin), ryo=vec(r.ryOrigin), rxd=vec(r.rxDirection), ryd=vec(r.ryDirection), inx=vec(v.rx), iny=vec(v.ry),
                       dnx=dn(g.dudx, g.dvdx), dny=dn(g.dudy, g.dvdy), dpx=vec(g.dpdx), dpy=vec(g.dpdy))
        W.rays.append(rec)
        if e is None:
            W.odd.append("unscripted ray")
            return False
        if e.to == 0:
            return False
        t = W.vs[e.to - 1]
        t.has = bool(getattr(r, "has_differentials", False))
        if t.has:
            t.rx, t.ry = r.rxDirection.copy(), r.ryDirection.copy()
        isect.dg, isect.primitive, isect.w2o, isect.o2w, isect.shapeId, isect.primitiveId, isect.rEps = t.dg, Prim(t), Transform(), Transform(), 1, 1, t.eps
        r.maxt = 7.5
        return True
    def intersect_p(self, r):
        v = W.at(r.o)
        s = W.lsof(v, r.d)
        W.shadow.append(dict(time=enc(r.time), mint=enc(r.mint), eps=enc(v.eps) if v else "nan"))
        if s is not None:
            return s.occ
        e = W.ent(v, r.d)
        if e is None:
            W.odd.append("unscripted shadow ray")
            return False
        return e.to != 0
def code(u, com):
    """which requested values are these?"""
    p, c = W.rev.get((u[0], u[1]), [-1, -1]), W.rev.get(com, [-1, -1])
    return [c[0], c[1], p[0], p[1]]
def ufac(u, com):
    return 1. + com + u[0] / 2. + u[1] / 4. if W.scale else 1.
class Lamp(AreaLight):
    def __init__(self, k, spec):
        super().__init__(Transform(), spec["ns"])
        self.k, self.s = k, spec
    def sample_l(self, p, pEps, ls, time):
        v = W.at(p)
        if v is None:
            W.odd.append("light sampled from nowhere")
            return [Spectrum(0.), geo.Vector(0., 0., 1.), 0., VisibilityTester()]
        s = v.ls[self.k]
        if pEps != v.eps or enc(time) != enc(W.time):
            W.odd.append("light sampled with another clearance or time")
        f = ufac(ls.u_pos, ls.u_com)
        W.lsl.append(dict(v=v.k, i=self.k + 1, fac=enc(f), use=code(ls.u_pos, ls.u_com)))
        vis = VisibilityTester()
        wi = geo.Vector(*s.wi)
        if self.s["env"]:
            vis.set_ray(p, pEps, wi, time)
        else:
            vis.set_segment(p, pEps, p + wi * 3., 1e-3, time)
        return [Spectrum(np.array(s.L) * f), wi, s.pdf, vis]
    def pdf(self, p, wi):
        v = W.at(p)
        e = W.ent(v, wi) if v else None
        s = W.lsof(v, wi) if v else None
        if e is not None and e in v.nb:
            W.pdfs.append((v.k, v.nb.index(e), self.k))
            return e.lp[self.k]
        if s is not None:
            return s.pdf if s is v.ls[self.k] and not self.s["delta"] else 0.
        if e is not None:
            return e.lp[self.k] if len(e.lp) else 0.
        W.odd.append("density of an unscripted direction")
        return 0.
    def le(self, rd):
        v, e = W.ray(rd)
        if e is None:
            return Spectrum(0.)
        return Spectrum(np.array(e.esc[self.k]))
    def l(self, p, n, w):
        v = W.at(p)
        if v is None or v.emit != self.k + 1 or unit(w).dot(v.inc) < 1 - 1e-9:
            W.odd.append("emission asked in another direction")
            return Spectrum(0.)
        return Spectrum(np.array(v.le))
    def is_delta_light(self): return self.s["delta"]
    def power(self, scene): return Spectrum(np.array(self.s["power"]))
    def sample_r(self, *x): raise RuntimeError
class Surf(BSDF):
    def __init__(self, v, dg):
        super().__init__(dg, dg.nn, v.eta)
        self.v = v
        self._BSDF__nBDF = 4
    def n_components(self, flags): return 1
    def ok(self, wo):
        if unit(wo).dot(self.v.wo) < 1 - 1e-9:
            W.odd.append("surface evaluated for another outgoing direction")
    def f(self, wo_w, wi_w, flags=BDFType.ALL):
        self.ok(wo_w)
        s = W.lsof(self.v, wi_w)
        if s is not None and BDFType(flags).v & 15 == 15:
            return Spectrum(np.array(s.f))
        e = W.ent(self.v, wi_w)
        return Spectrum(np.array(e.f)) if e is not None and not e.spec else Spectrum(0.)
    def pdf(self, wo, wi, flags=BDFType.ALL):
        self.ok(wo)
        s = W.lsof(self.v, wi)
        if s is not None:
            return s.bpdf
        e = W.ent(self.v, wi)
        return e.pdf if e is not None and not e.spec else 0.
    def sample_f(self, wo_w, smp, flags=BDFType.ALL):
        self.ok(wo_w)
        fl, v, fac = int(BDFType(flags).v), self.v, 1.
        typ = rng.choice([1, 2]) | rng.choice([4, 8])
        if fl == W.nbflags:
            if len(v.nb) == 1:
                e = v.nb[0]
                W.nbl.append(dict(v=v.k, k=0, fac="1", use=code(smp.u_dir, smp.u_com)))
            else:
                e = v.nb[min(v.next, len(v.nb) - 1)]
                fac = ufac(smp.u_dir, smp.u_com)
                W.nbl.append(dict(v=v.k, k=v.next, fac=enc(fac), use=code(smp.u_dir, smp.u_com)))
                v.next += 1
        elif fl == 31:
            e = v.pb
            W.pbl.append(dict(v=v.k, use=code(smp.u_dir, smp.u_com)))
        elif fl == 17:
            e, typ = v.sr, 1
        elif fl == 18:
            e, typ = v.st, 2
        else:
            e = None
            W.odd.append("surface sampled with mask %d" % fl)
        if e is None:
            return [0., None, None, Spectrum(0.)]
        t = BDFType((16 | (typ & 3)) if e.spec else typ)
        if e.pdf == 0.:
            return [0., None, t, Spectrum(0.)]
        return [e.pdf, geo.Vector(*e.wi), t, Spectrum(np.array(e.f) * fac)]
class Vol(object):
    def preprocess(self, *x): pass
    def request_samples(self, *x): pass
    def of(self, ray):
        v = W.at(ray.o)
        s = W.lsof(v, ray.d) if v is not None else None
        if s is None:
            _, s = W.ray(ray)
        return s
    def transmittance(self, scene, renderer, ray, sample, rng=None):
        s = self.of(ray)
        if s is None:
            W.odd.append("transmittance of an unscripted ray")
            return Spectrum(0.)
        return Spectrum(np.array(s.tr))
    def li(self, scene, renderer, ray, sample, rng=None):
        s = self.of(ray)
        return Spectrum(np.array(s.lvi)), Spectrum(np.array(s.tr))
def lights(n=None):
    out = []
    for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 4] * 3 + [5, 7, 9]) if n is None else n):
        k = rng.choice(["delta", "area", "area", "env"])
        out.append(dict(delta=k == "delta", area=k == "area", env=k == "env", ns=rng.choice([1, 1, 2, 3] * 4 + [5, 9]), power=col()))
    return out
def finish(w):
    global W
    W = w
    w.lights = [Lamp(k, s) for k, s in enumerate(w.L)]
    w.scene = Scene(Agg(), w.lights, None)
    w.nbflags = 15
    for v in w.vs:
        v.next = 0
    for v in w.vs:          # emission leaves towards where the ray came from
        v.inc = v.wo
    for v in [None] + w.vs:
        for e in w.ents(v):
            if e.to:
                t = w.vs[e.to - 1]
                t.inc = -e.wi
def fill(w, smp, lo=0., hi=1.):
    """give every requested value its own number"""
    smp.oneD = [[U(lo, hi) for _ in range(n)] for n in smp.n1D]
    smp.twoD = [[[U(0, 1), U(0, 1)] for _ in range(n)] for n in smp.n2D]
    smp.time = w.time
    for i, x in enumerate(smp.oneD):
        for j, y in enumerate(x):
            w.rev[y] = [i, j]
    for i, x in enumerate(smp.twoD):
        for j, y in enumerate(x):
            w.rev[(y[0], y[1])] = [i, j]
def base(w, **kw):
    return dict(n=w.n(), lights=[dict(delta=l["delta"], env=l["env"], ns=max(1, l["ns"])) for l in w.L], vol=w.vol, time=enc(w.time),
                vs=[dict(p=vec(v.p), n=vec(v.n), wo=vec(v.wo), eps=enc(v.eps), eta=enc(v.eta), emit=v.emit, le=vec(v.le), ls=[s.rec() for s in v.ls], nb=[e.rec() for e in v.nb],
                         pb=v.pb.rec() if v.pb else Ent(v.wo).rec(), sr=v.sr.rec() if v.sr else Ent(v.wo).rec(), st=v.st.rec() if v.st else Ent(v.wo).rec()) for v in w.vs],
                cam=w.cam.rec(), **kw)
def logs(w):
    return dict(odd=sorted(set(w.odd)), rays=w.rays, shadow=w.shadow, lsl=w.lsl, nbl=w.nbl, pbl=w.pbl, who=[sorted(set(i + 1 for (v, k, i) in w.pdfs if v == 1 and k == x)) for x in range(len(w.vs[0].nb) if w.vs else 0)])
def camera(w, to):
    w.eye = geo.Point(q(-3, 3), q(-3, 3), -20.)
    w.cam = Ent(rdir(), to=to, tr=w.tr(), lvi=col(0, .5) if w.vol else ZERO, esc=w.esc(), kind="cam")
    return w.cam
def camray(w, diff):
    r = RayDifferential(w.eye, geo.Vector(*w.cam.wi), 0., np.inf, w.depth, w.time)
    if diff:
        s = 10. ** U(-7, -5)
        r.has_differentials = True
        r.rxOrigin = geo.Point(*[w.eye[k] + s * U(-1, 1) for k in range(3)])
        r.ryOrigin = geo.Point(*[w.eye[k] + s * U(-1, 1) for k in range(3)])
        r.rxDirection = geo.Vector(*unit(w.cam.wi + s * rdir()))
        r.ryDirection = geo.Vector(*unit(w.cam.wi + s * rdir()))
    return r
# =============================================================== P25
def single(ls, vol, dark, nnb):
    w = World(ls, vol)
    w.depth = rng.choice([0, 0, 2])
    d = rdir()
    w.eye = geo.Point(0., 0., -20.)
    v = w.vertex(-d, 0, dark)
    v.nb = [w.surf(v, dark) for _ in range(nnb)]
    w.cam = Ent(d, to=1, tr=ONE, esc=w.esc(), kind="cam")
    return w, v
class Rounder(object):
    """a sampler that wants powers of two"""
    def round_size(self, n):
        return 1 << (n - 1).bit_length()
def bsdf_at(v):
    return Surf(v, v.dg)
if MODE == "P25":
    def est(sc):
        """estimate_direct for one light, case by case from the model"""
        l = dict(delta=sc["light"] == "delta", area=sc["light"] == "area", env=sc["light"] == "env", ns=1, power=col())
        o = dict(delta=False, area=True, env=False, ns=1, power=col())
        w, v = single([l, o], rng.random() < .5, 0., 1)
        s, e = v.ls[0], v.nb[0]
        s.L, s.f, s.pdf, s.occ = (ZERO if sc["dark"] == "L" else col()), (ZERO if sc["dark"] == "f" else col()), (0. if sc["dark"] == "pdf" else dens(.1, 3)), sc["dark"] == "occ"
        e.spec = sc["spec"]
        e.f, e.pdf = (ZERO if sc["bs"] == "black" else col()), (0. if sc["bs"] == "zero" else dens(.1, 3))
        e.lp = [0. if sc["bs"] == "unlit" or l["delta"] else dens(.1, 3), dens(.1, 3)]
        e.to = 0
        if sc["to"] != "escape":
            t = w.vertex(rdir(), 0)
            t.emit = dict(self=1, other=2, plain=0)[sc["to"]]
            t.le = col() if t.emit else ZERO
            e.to = t.k
        finish(w)
        w.nbflags = 31 if sc["spec"] else rng.choice([15, 31])
        ren = SamplerRenderer(None, None, None, Vol() if w.vol else None)
        def go():
            n = v.dg.nn
            return estimate_direct(w.scene, ren, w.lights[0], v.p, n, geo.Vector(*v.wo), v.eps, w.time, bsdf_at(v), LightSample(.25, .5, .75), BSDFSample(.25, .5, .75), BDFType(w.nbflags), lambda: .5)
        ok, L = attempt(go)
        a.out.put(op="est", cls="est/%(light)s/%(dark)s/%(bs)s/%(to)s" % sc, sig="estimate_direct", err="" if ok else L, L=vec(L) if ok else [], **base(w), **logs(w))
    for sc in scenarios(a):
        est(sc)
    for t in range(60 if a.quick else 1500):
        op = ["all", "one", "all", "one", "allr", "oner", "whitted"][t % 7]
        L = lights()
        w, v = single(L, rng.random() < .5, rng.choice([0., .15, .4]), max(17, sum(2 * l["ns"] + 2 for l in L)))
        finish(w)
        w.scale = op not in ("allr", "oner", "whitted")
        ren = SamplerRenderer(None, None, None, Vol() if w.vol else None)
        c = rng.choice([0., .5, q(0, 1), 1. - 2. ** -53])
        rr = lambda: c
        if op in ("allr", "oner"):
            w.nbl = []
        def go():
            if op in ("all", "one", "whitted"):
                it = WhittedIntegrator(0) if op == "whitted" else DirectLightingIntegrator(LightStrategy.SAMPLE_ALL_UNIFORM if op == "all" else LightStrategy.SAMPLE_ONE_UNIFORM, 0)
                rounding = op == "all" and rng.random() < .5
                smp = Sample(Rounder() if rounding else None, it, None, w.scene)
                if rounding:
                    for l in w.L:
                        l["ns"] = Rounder.round_size(None, max(1, l["ns"]))
                if rng.random() < .3:
                    smp = smp.duplicate(2)[1]
                fill(w, smp)
                w.sel = sorted(enc(x[0]) for x in smp.oneD if len(x) == 1)
                ray = camray(w, rng.random() < .5)
                ray.depth = w.depth
                isect = Intersection()
                assert w.scene.intersect(ray, isect)
                w.rays[:] = []
                return it.li(w.scene, ren, ray, isect, smp, rr)
            f = uniform_sample_all_lights if op == "allr" else uniform_sample_one_light
            kw = dict(light_offsets=None, bsdf_offsets=None) if op == "allr" else {}
            return f(w.scene, ren, v.p, v.dg.nn, geo.Vector(*v.wo), v.eps, w.time, bsdf_at(v), sample=None, rng=rr, **kw)
        w.sel = []
        ok, L = attempt(go)
        a.out.put(op=op, cls="%s/%d%s" % (op, w.n(), "/media" if w.vol else ""), sig=op, err="" if ok else L, L=vec(L) if ok else [], sel=w.sel, c=enc(c), **base(w), **logs(w))
    for t in range(6 if a.quick else 60):
        w, v = single(lights(rng.randrange(1, 6)), False, 0., 1)
        finish(w)
        def go():
            d = compute_light_sampling_cdf(w.scene)
            return [d.sample_dis(x)[0] for x in us]
        us = [0., 1. - 2. ** -53] + [U(0, 1) for _ in range(6)]
        ok, k = attempt(go)
        a.out.put(op="cdf", cls="cdf/%d" % w.n(), sig="cdf", err="" if ok else k, k=[int(x) for x in k] if ok else [], us=[enc(x) for x in us], power=[vec(l["power"]) for l in w.L])
# =============================================================== P26
def run(w, kind, maxd, c, sc=""):
    finish(w)
    if maxd == 5 and rng.random() < .7:        # the depth a user gets without asking
        it = dict(path=PathIntegrator, whitted=WhittedIntegrator, all=DirectLightingIntegrator, one=lambda: DirectLightingIntegrator(LightStrategy.SAMPLE_ONE_UNIFORM))[kind]()
    else: it = dict(path=lambda: PathIntegrator(maxd), whitted=lambda: WhittedIntegrator(maxd), all=lambda: DirectLightingIntegrator(LightStrategy.SAMPLE_ALL_UNIFORM, maxd),
              one=lambda: DirectLightingIntegrator(LightStrategy.SAMPLE_ONE_UNIFORM, maxd))[kind]()
    ren = SamplerRenderer(None, None, it, Vol() if w.vol else None)
    n = max(1, w.n())
    lo = min(n - 1, int(c * n)) / n
    def go():
        smp = Sample(None, it, None, w.scene)
        fill(w, smp, lo + 1e-6, lo + 1. / n - 1e-6)
        ray = camray(w, rng.random() < .6)
        keep = (enc(ray.mint), vec(ray.o), vec(ray.d), int(ray.depth), enc(ray.time))
        L, T = ren.li(w.scene, ray, smp, Intersection(), lambda: c)
        return vec(L), vec(T), keep == (enc(ray.mint), vec(ray.o), vec(ray.d), int(ray.depth), enc(ray.time))
    ok, v = attempt(go)
    a.out.put(op=kind, cls="%s/depth%d%s%s" % (kind, maxd, "/media" if w.vol else "", sc), sig=kind, err="" if ok else v, L=v[0] if ok else [], T=v[1] if ok else [], keep=v[2] if ok else True,
              maxd=maxd, c=enc(c), depth0=w.depth, pick=min(n - 1, int(c * n)) + 1, **base(w), **logs(w))
def emitters(w):
    return [k + 1 for k, l in enumerate(w.L) if l["area"]]
def path(steps, maxd, c, hit=True, dark=.1, emit0=None):
    w = World(lights(), rng.random() < .4)
    w.depth = rng.choice([0, 0, 1])
    cam = camera(w, 0)
    em = emitters(w)
    if not hit:
        return run(w, "path", maxd, c)
    v = w.vertex(-cam.wi, rng.choice([0] + em), dark, w.eye)
    cam.to = v.k
    for s in steps:
        v.nb = [w.surf(v, dark)]
        e = v.pb = Ent(rdir(v.n), col(.25, 1.5), dens(.25, 1.5), s["spec"], 0, w.tr(), ZERO, w.esc(), [0.] * w.n(), "pb")
        if s["to"] == "black":
            e.f = ZERO
        elif s["to"] == "zero":
            e.pdf = 0.
        elif s["to"] == "escape":
            pass
        else:
            t = w.vertex(-e.wi, rng.choice(em) if s["to"] == "emit" and em else 0, dark, v.p)
            e.to = t.k
            v = t
            continue
        break
    else:
        v.nb = [w.surf(v, dark)]
        v.pb = Ent(rdir(v.n), ZERO, 0., False, 0, kind="pb", esc=w.esc(), lp=[0.] * w.n())
    run(w, "path", maxd, c)
def tree(kind, node, maxd, c, dark=.1):
    w = World(lights(), rng.random() < .4)
    w.depth = rng.choice([0, 0, 1, 2])
    cam = camera(w, 0)
    em = emitters(w)
    def grow(wo, node, at):
        v = w.vertex(wo, rng.choice([0] + em), dark, at)
        v.nb = [w.surf(v, dark)]
        for side, name in (("r", "sr"), ("t", "st")):
            kid = node[side]
            what = kid["k"]
            if what == "none":
                continue
            d = w.mirror(v) if side == "r" else w.bend(v)
            if d is None:
                continue
            e = Ent(unit(d), col(.25, 1.2), dens(.25, 1.5), True, 0, w.tr(), col(0, .5) if w.vol else ZERO, w.esc(), [0.] * w.n(), name)
            if what == "black":
                e.f = ZERO
            elif what == "zero":
                e.pdf = 0.
            elif what == "node":
                t = grow(-e.wi, kid, v.p)
                e.to = t.k
            setattr(v, name, e)
        return v
    if node["k"] == "node":
        cam.to = grow(-cam.wi, node, w.eye).k
    run(w, kind, maxd, c)
if MODE == "P26":
    CS = lambda: rng.choice([0., .5, .999, q(0, 1), U(0, 1)])
    for sc in scenarios(a):
        if sc["what"] == "path":
            path(sc["steps"], sc["maxd"], CS())
        else:
            kinds = ["whitted", "all", "one"]
            for kind in (kinds if not a.quick else [kinds[(sc["maxd"] + a.out.n) % 3]]):
                tree(kind, sc["root"], sc["maxd"], CS())
    for t in range(20 if a.quick else 400):
        L = rng.randrange(3, 9) if t % 10 else rng.randrange(9, 14)
        steps = [dict(spec=rng.random() < .4, to=rng.choice(["plain"] * 4 + ["emit", "emit"])) for _ in range(L)]
        path(steps, rng.choice([L, L, L - 1, 3, 5, 5, 20]) if L < 9 else rng.choice([L, L - 1, 20]), 0. if L >= 9 else rng.choice([0., .1, .2, .3, .45, .6, U(0, .5)]))
        path([], rng.choice([0, 5]), CS(), hit=False)
        def rn(d):
            if d == 0 or rng.random() < .15:
                return dict(k=rng.choice(["none", "escape", "black", "zero"]))
            return dict(k="node", r=rn(d - 1), t=rn(d - 1))
        tree(rng.choice(["whitted", "all", "one"]), dict(k="node", r=rn(2), t=rn(2)), rng.choice([0, 1, 2, 3, 5]), CS())
        if t % 5 == 0:          # one long chain of mirrors or of panes
            node = dict(k="escape")
            for _ in range(rng.randrange(5, 10)):
                node = dict(k="node", r=node, t=dict(k="none")) if rng.random() < .5 else dict(k="node", r=dict(k="none"), t=node)
            tree(rng.choice(["whitted", "all", "one"]), node, rng.choice([6, 8, 12, 20]), CS())
        tree(rng.choice(["whitted", "all", "one"]), dict(k="escape"), rng.choice([0, 5]), CS())
a.out.close()
