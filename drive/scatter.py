"""Exercise the reflection package.  MODE selects P20 (composites), P21 (frames) or P22 (models)."""
import os
from common import setup, attempt, enc, vec
a = setup()
import numpy as np
import pytracer.geometry as geo
import pytracer.reflection as rf
from pytracer.spectral import Spectrum
from pytracer.reflection.bdf.bdf import BDF, BDFType, BRDF2BTDF, ScaledBDF, SpecularReflection, SpecularTransmission, Lambertian
from pytracer.reflection.bdf.orennayar import OrenNayar
from pytracer.reflection.bdf.torrance import Blinn, Anisotropic, Microfacet
from pytracer.reflection.bdf.fresnelblend import FresnelBlend
from pytracer.reflection.fresnel import FresnelConductor, FresnelDielectric, FresnelFullReflect
from pytracer.reflection.utility import cos_theta, abs_cos_theta, sin_theta_sq, sin_theta, cos_phi, sin_phi
from pytracer.montecarlo import uniform_sample_hemisphere
from pytracer.reflection.bsdf import BSDF, BSDFSample
rng = a.rng
U = rng.uniform
MODE = os.environ["MODE"]
K = 1 if a.quick else 15

def unit():
    while True:
        v = geo.Vector(U(-1, 1), U(-1, 1), U(-1, 1))
        if rng.random() < .15:
            v = geo.Vector(*rng.choice([(0., 0., 1.), (0., 0., -1.), (1., 0., 0.), (0., -1., 0.), (.6, .8, 0.), (0., .6, -.8)]))
        if v.length() > .1:
            return geo.normalize(v)

def local(minz=.03):
    while True:
        v = unit()
        if abs(v.z) > minz:
            return v

def col(lo=0., hi=1.):
    return [rng.choice([0., 1., U(lo, hi), U(lo, hi)]) for _ in range(3)]

class Comp(BDF):
    """a stand-in component with a declared value, density and sampled direction"""
    def __init__(self, t, d):
        super(Comp, self).__init__(t)
        self.d = d
        self.bits = t
    def f(self, wo, wi):
        d = self.d
        return Spectrum([(d["f"][0] + d["f"][1] * wi.x + d["f"][2] * (wi.z * wo.z)) * c for c in d["col"]])
    def pdf(self, wo, wi):
        return 0. if self.bits & 16 else self.d["p"][0] + self.d["p"][1] * (wi.z * wi.z)
    def sample_f(self, wo, u1, u2):
        if self.d["zero"]:
            return [0., None, None]
        wi = geo.Vector(*self.d["wi"])
        if self.bits & 16:
            return [self.d["p"][0], wi, Spectrum(list(self.d["col"]))]
        return [self.pdf(wo, wi), wi, self.f(wo, wi)]

TYPES = [1 | 4, 1 | 8, 1 | 16, 2 | 16, 2 | 8, 2 | 4]
def comp():
    t = rng.choice(TYPES)
    d = dict(f=[U(0, 2), U(-.5, .5), U(-.5, .5)], p=[U(.1, 2), U(0, 2)], col=[0., 0., 0.] if rng.random() < .15 else [U(0, 1) for _ in range(3)], wi=[float(x) for x in local()], zero=rng.random() < .1)
    return Comp(t, d), dict(t=t, f=[enc(x) for x in d["f"]], p=[enc(x) for x in d["p"]], col=[enc(x) for x in d["col"]], wi=[enc(x) for x in d["wi"]], zero=d["zero"])

def surface():
    n = unit()
    while True:
        v = unit()
        s = v - n * float(v.dot(n))
        if s.length() > .2:
            break
    du = geo.Vector(*[float(x) for x in s * U(.2, 4.)])
    nn = geo.Normal(n.x, n.y, n.z)
    dv = n.cross(du)
    if rng.random() < .5:       # parametric directions at any angle, of any length, either way round
        dv = dv * rng.choice([-1., .2, 3.]) + du * U(-2, 2)
    dg = geo.DifferentialGeometry(geo.Point(U(-1, 1), 0., 0.), du, dv, geo.Normal(0., 0., 0.), geo.Normal(0., 0., 0.), .1, .2, None)
    dg.nn = nn
    g = n if rng.random() < .4 else geo.normalize(n + unit() * .6)
    ng = geo.Normal(g.x, g.y, g.z)
    return dg, ng, nn, du

def p20():
    for _ in range(300 * K):
        dg, ng, nn, du = surface()
        n = rng.choice([0, 1, 1, 2, 3, 5, 5, 10])
        seen = lambda: [[float(x) for x in v] for v in (dg.p, dg.dpdu, dg.dpdv, dg.dndu, dg.dndv, dg.nn, ng)]
        before = seen()
        cs = [comp() for _ in range(n)]
        def mk():
            b = BSDF(dg, ng)
            for c, _d in cs:
                b.push_back(c)
            return b
        ok, b = attempt(mk)
        base = dict(comps=[d for _, d in cs], nn=vec(nn), ng=vec(ng), dpdu=vec(du))
        for _q in range(3):
            mask = rng.choice([31, 31, 31, 1 | 28, 2 | 28, 1 | 2 | 16, 1 | 16, 1 | 2 | 4 | 8, 1 | 4, 2 | 16, 0, 1, 1 | 2 | 4])
            flag = mask if rng.random() < .5 else BDFType(mask)
            fl = [] if mask == 31 and rng.random() < .3 else [flag]      # every component unless told otherwise
            sig = "mask-int" if flag is mask else "mask-type"
            wo, wi = unit(), unit()
            r = dict(base, mask=mask, wo=vec(wo), wi=vec(wi), err="", n=0, total=0, f=["0"] * 3, pdf="0")
            if not ok:
                r["err"] = b
            else:
                ok1, v = attempt(lambda: dict(n=int(b.n_components(flag)), total=int(b.n_BDF), f=vec(b.f(wo, wi, *fl)), pdf=enc(b.pdf(wo, wi, *fl))))
                r.update(v if ok1 else dict(err=v))
            r["kept"] = seen() == before and vec(wo) == r["wo"] and vec(wi) == r["wi"] and bool(mask == flag if flag is mask else int(flag.v) == mask)
            a.out.put(op="eval", cls="eval/%d" % n, sig=sig, nt=n > 0, **r)
            u = rng.choice([0., .5, 1. - 2. ** -53, rng.random(), rng.random()])
            r = dict(base, mask=mask, wo=vec(wo), u=enc(u), kept=True, err="", f=["0"] * 3, pdf="0", type=0, haswi=False, wi=["0"] * 3)
            if not ok:
                r["err"] = b
            else:
                def go():
                    pdf, w, t, f = b.sample_f(wo, BSDFSample(.3, .6, u), flag)
                    return dict(f=vec(f), pdf=enc(pdf), type=0 if t is None else int(getattr(t, "v", t)), haswi=w is not None, wi=["0"] * 3 if w is None else vec(w))
                ok1, v = attempt(go)
                r.update(v if ok1 else dict(err=v))
                r["kept"] = seen() == before and vec(wo) == r["wo"] and bool(mask == flag if flag is mask else int(flag.v) == mask)
            a.out.put(op="sample", cls="sample/%d" % n, sig=sig, nt=n > 0, **r)
    for _ in range(60 * K):
        dg, ng, nn, du = surface()
        cs = [comp() for _ in range(rng.choice([0, 1, 2, 3]))]
        mask = rng.choice([31, 31, 1 | 28, 2 | 28, 1 | 16, 1 | 2 | 4 | 8, 1 | 4])
        flag = mask if rng.random() < .5 else BDFType(mask)
        wo, n, ph = unit(), rng.choice([1, 2]), U(0, 1)
        def rho():
            b = BSDF(dg, ng)
            for c, _d in cs:
                b.push_back(c)
            r = lambda k: np.full(k, ph)
            return dict(hd=vec(b.rho_hd(wo, flag, n, r)), hh=vec(b.rho_hh(flag, n, r)))
        ok, v = attempt(rho)
        a.out.put(op="rho", cls="rho/%d" % len(cs), sig="rho", comps=[d for _, d in cs], nn=vec(nn), ng=vec(ng), dpdu=vec(du), mask=mask, wo=vec(wo), n=n, ph=enc(ph), err="" if ok else v, **(v if ok else {}))
    for _ in range(100 * K):
        c, d = comp()
        c.d["zero"] = d["zero"] = False
        if c.bits & 16:
            continue
        kind = rng.choice(["flip", "scale"])
        sc = col()
        wo, wi = local(), local()
        def go():
            x = BRDF2BTDF(c) if kind == "flip" else ScaledBDF(c, Spectrum(list(sc)))
            sp, sw, sf = x.sample_f(wo, .2, .7)
            return dict(type=int(x.type.v), f=vec(x.f(wo, wi)), pdf=enc(x.pdf(wo, wi)), swi=vec(sw), spdf=enc(sp), sf=vec(sf))
        ok, v = attempt(go)
        a.out.put(op="adapt", cls="adapt/" + kind, sig=kind, kind=kind, comps=[d], scale=[enc(x) for x in sc], wo=vec(wo), wi=vec(wi), err="" if ok else v, **(v if ok else {}))

def p21():
    for _ in range(300 * K):
        dg, ng, nn, du = surface()
        w, w2 = unit(), unit()
        if rng.random() < .2:
            w = w * U(.1, 5.)
        def go():
            b = BSDF(dg, ng)
            l = b.w2l(w)
            m = b.l2w(w)
            return dict(l=vec(l), l2=vec(b.w2l(w2)), back=vec(b.l2w(l)), fwd=vec(b.w2l(m)), ln=vec(b.w2l(geo.Vector(nn.x, nn.y, nn.z))),
                        cos=enc(cos_theta(l)), acos=enc(abs_cos_theta(l)), sin2=enc(sin_theta_sq(l)), cphi=enc(cos_phi(l)), sphi=enc(sin_phi(l)))
        ok, v = attempt(go)
        a.out.put(op="frame", cls="frame", sig="frame", w=vec(w), w2=vec(w2), nn=vec(nn), err="" if ok else v, **(v if ok else {}))
        w = unit()
        def helper():
            x, y, z = geo.coordinate_system(w)
            return dict(a=vec(x), b=vec(y), c=vec(z))
        ok, v = attempt(helper)
        a.out.put(op="helper", cls="helper", sig="helper", w=vec(w), err="" if ok else v, **(v if ok else {}))
        l = rng.choice([w, w, geo.Vector(0., 0., rng.choice([1., -1.])), geo.Vector(*rng.choice([(1., 0., 0.), (0., -1., 0.), (-1., 0., 0.)])), geo.normalize(geo.Vector(U(-1e-6, 1e-6), U(-1e-6, 1e-6), 1.))])
        ok, v = attempt(lambda: dict(cos=enc(cos_theta(l)), acos=enc(abs_cos_theta(l)), sin=enc(sin_theta(l)), sin2=enc(sin_theta_sq(l)), cphi=enc(cos_phi(l)), sphi=enc(sin_phi(l))))
        a.out.put(op="local", cls="local", sig="local", l=vec(l), err="" if ok else v, **(v if ok else {}))
        def sph():
            th, ph = geo.spherical_theta(w), geo.spherical_phi(w)
            return dict(th=enc(th), ph=enc(ph), back=vec(geo.spherical_direction(float(np.sin(th)), float(np.cos(th)), ph)))
        ok, v = attempt(sph)
        a.out.put(op="sph", cls="sph", sig="sph", w=vec(w), err="" if ok else v, **(v if ok else {}))

def fresnel():
    k = rng.random()
    if k < .5:
        ei, et = rng.choice([(1., 1.5), (1.5, 1.), (1., 1.), (1., 2.4), (U(1, 2), U(1, 2))])
        return FresnelDielectric(ei, et), dict(kind="diel", ei=enc(ei), et=enc(et))
    if k < .8:
        eta, kk = [U(.1, 3) for _ in range(3)], [rng.choice([0., U(0, 5)]) for _ in range(3)]
        return FresnelConductor(Spectrum(eta), Spectrum(kk)), dict(kind="cond", eta=[enc(x) for x in eta], k=[enc(x) for x in kk])
    return FresnelFullReflect(), dict(kind="full")

def c3(v):
    return [enc(v)] * 3 if np.ndim(v) == 0 else vec(v)

def dist():
    if rng.random() < .5:
        e = rng.choice([1., 5., 40., U(.5, 60), U(.5, 60), U(100, 9000)])
        return Blinn(e), dict(kind="blinn", e=enc(e))
    ex, ey = rng.choice([(3., 3.), (10., 2.), (U(.5, 40), U(.5, 40)), (U(.5, 40), U(.5, 40)), (U(.05, 1), U(.05, 30)), (U(100, 9000), U(5, 9000))])
    return Anisotropic(ex, ey), dict(kind="aniso", ex=enc(ex), ey=enc(ey))

def rough():
    kind = rng.choice(["lambert", "oren", "torrance", "torrance", "blend"])
    c = col(.05)
    d = dict(kind=kind, col=[enc(x) for x in c])
    S = Spectrum(list(c))
    if kind == "lambert":
        return (lambda: Lambertian(S)), d
    if kind == "oren":
        s = rng.choice([0., 20., 45., U(0, 90)])
        return (lambda: OrenNayar(S, s)), dict(d, sigma=enc(s))
    ds, dd = dist()
    if kind == "torrance":
        fr, fd = fresnel()
        return (lambda: Microfacet(S, fr, ds)), dict(d, dist=dd, fr=fd)
    sp = [U(0, 1) for _ in range(3)]
    return (lambda: FresnelBlend(S, Spectrum(sp), ds)), dict(d, dist=dd, spec=[enc(x) for x in sp])

def slanted(z, n=None):
    """a unit direction at height z over the surface"""
    p, r = U(0, 6.283), (1. - z * z) ** .5
    return geo.Vector(float(r * np.cos(p)), float(r * np.sin(p)), z)

def duo():
    """outgoing and incident directions: anything, near each other's mirror image, near the surface or near its normal"""
    k = rng.random()
    if k < .5:
        return local(), local()
    if k < .75:
        wo, t = local(), 2. ** -rng.uniform(2, 9)
        return wo, geo.normalize(geo.Vector(-wo.x + t * U(-1, 1), -wo.y + t * U(-1, 1), wo.z))
    s = rng.choice([-1., 1.])
    z = 2. ** -rng.uniform(4, 9)
    x, y = (slanted(s * z), local()) if k < .9 else (slanted(s * (1. - z * z)), local())
    if rng.random() < .3:
        y = slanted(s * 2. ** -rng.uniform(4, 9) if k < .9 else s * (1. - 2. ** -rng.uniform(6, 16)))
    return (x, y) if rng.random() < .5 else (y, x)

def p22():
    H = 2. ** -16
    for _ in range(150 * K):
        fr, fd = fresnel()
        c = rng.choice([0., 1., -1., U(-1, 1), U(-1, 1), U(-1, 1), 1. + 1e-12, U(-.05, .05)])
        if fd["kind"] == "diel" and fd["ei"] != fd["et"] and rng.random() < .3:
            x, y = float.fromhex(fd["ei"]), float.fromhex(fd["et"])
            st = min(1., min(x, y) / max(x, y) * (1. + rng.choice([-1., 1.]) * 2. ** -rng.uniform(3, 12)))
            c = (1. if x > y else -1.) * (1. - st * st) ** .5
        ok, v = attempt(lambda: c3(fr(c)))
        a.out.put(op="fresnel", cls="fresnel/" + fd["kind"], sig=fd["kind"], fr=fd, c=enc(c), err="" if ok else v, v=v if ok else [])
        cl = col()
        wo, off = local(), local()
        def go():
            b = SpecularReflection(Spectrum(list(cl)), fr)
            pdf, wi, f = b.sample_f(wo, rng.random(), rng.random())
            return dict(pdf=enc(pdf), wi=vec(wi), f=vec(f), f0=vec(b.f(wo, off)), p0=enc(b.pdf(wo, off)), tp=int(b.type.v))
        ok, v = attempt(go)
        a.out.put(op="mirror", cls="mirror/" + fd["kind"], sig=fd["kind"], fr=fd, col=[enc(x) for x in cl], wo=vec(wo), err="" if ok else v, **(v if ok else {}))
        ei, et = rng.choice([(1., 1.5), (1.5, 1.), (1., 1.), (1., 2.4), (U(1, 2), U(1, 2))])
        wo = local() if rng.random() < .9 else geo.Vector(0., 0., rng.choice([1., -1.]))
        if ei != et and rng.random() < .3:          # just short of, or just beyond, total reflection
            big = 1. if ei > et else -1.
            st = min(1., (min(ei, et) / max(ei, et)) * (1. + rng.choice([-1., 1.]) * 2. ** -rng.uniform(3, 12)))
            wo = slanted(big * max(.001, (1. - st * st)) ** .5)
        def tr():
            b = SpecularTransmission(Spectrum(list(cl)), ei, et)
            pdf, wi, f = b.sample_f(wo, rng.random(), rng.random())
            h = wi is not None
            return dict(pdf=enc(pdf), haswi=h, wi=vec(wi) if h else ["0"] * 3, f=vec(f) if h else ["0"] * 3, f0=vec(b.f(wo, off)), p0=enc(b.pdf(wo, off)), tp=int(b.type.v))
        ok, v = attempt(tr)
        a.out.put(op="refract", cls="refract", sig="refract", ei=enc(ei), et=enc(et), col=[enc(x) for x in cl], wo=vec(wo), err="" if ok else v, **(v if ok else {}))
        def en():
            _, _, f = SpecularReflection(Spectrum(1.), FresnelDielectric(ei, et)).sample_f(wo, .1, .1)
            p, wi, g = SpecularTransmission(Spectrum(1.), ei, et).sample_f(wo, .1, .1)
            return dict(refl=enc(f[0]), tpdf=enc(p), twi=vec(wi) if wi is not None else ["0"] * 3, trans=enc(g[0]) if wi is not None else "0")
        ok, v = attempt(en)
        a.out.put(op="energy", cls="energy", sig="energy", ei=enc(ei), et=enc(et), wo=vec(wo), err="" if ok else v, **(v if ok else {}))
        mk, d = rough()
        ph, flip = U(0, 6.28), rng.random() < .5
        gz, up = geo.Vector(float(np.cos(ph)), float(np.sin(ph)), rng.choice([0., -0.])), local()
        if d["kind"] in ("lambert", "torrance"):
            pair = (gz, up) if flip else (up, gz)
            ok, v = attempt(lambda: (lambda b: dict(f=vec(b.f(*pair)), pdf=enc(b.pdf(*pair))))(mk()))
            a.out.put(op="grazing", cls="grazing/" + d["kind"], sig=d["kind"], err="" if ok else v, **dict(d, **(v if ok else {})))
        wo, wi = duo()
        if rng.random() < .8 and wo.z * wi.z < 0:
            wi = geo.Vector(wi.x, wi.y, -wi.z)
        if abs(float(geo.normalize(wo + wi).z)) > 1. - 1e-6:
            continue
        if rng.random() < .3:
            us = [[U(.02, .98), U(.02, .98)] for _ in range(rng.choice([1, 2, 4]))]
            vs = [[U(.05, .95), U(.02, .98)] for _ in us]
            wg, wo = wo, wo if abs(wo.z) > .03 else local()
            def rho():
                b = mk()
                tup = lambda w, u: (lambda z: dict(wo=vec(w), pdf=enc(z[0]), wi=vec(z[1]), f=vec(z[2])))(b.sample_f(w, u[0], u[1]))
                return dict(hd=vec(b.rho_hd(wo, us)), hh=vec(b.rho_hh(len(us), vs, us)), ds=[tup(wo, u) for u in us], hs=[tup(uniform_sample_hemisphere(*v), u) for u, v in zip(us, vs)])
            ok, v = attempt(rho)
            a.out.put(op="rhos", cls="rhos/" + d["kind"], sig=d["kind"], wo=vec(wo), n=len(us), vs=[[enc(x) for x in v] for v in vs], err="" if ok else v, **dict(d, **(v if ok else {})))
            wo = wg
        ok, v = attempt(lambda: (lambda b: dict(f=vec(b.f(wo, wi)), frev=vec(b.f(wi, wo)), pdf=enc(b.pdf(wo, wi)), tp=int(b.type.v)))(mk()))
        a.out.put(op="rough", cls="rough/" + d["kind"], sig=d["kind"], wo=vec(wo), wi=vec(wi), err="" if ok else v, **dict(d, **(v if ok else {})))
        u1, u2 = U(.02, .98), U(.02, .98)
        wo = wo if abs(wo.z) > .03 else local()
        def sm():
            b = mk()
            pdf, w, f = b.sample_f(wo, u1, u2)
            g = lambda x, y: vec(b.sample_f(wo, x, y)[1])
            return dict(wi=vec(w), pdf=enc(pdf), f=vec(f), fat=vec(b.f(wo, w)), pat=enc(b.pdf(wo, w)), a=g(u1 - H, u2), b=g(u1 + H, u2), c=g(u1, u2 - H), d=g(u1, u2 + H))
        ok, v = attempt(sm)
        a.out.put(op="roughsample", cls="sample/" + d["kind"], sig=d["kind"], wo=vec(wo), h=enc(H), kind=d["kind"], err="" if ok else v, **(v if ok else {}))
        if rng.random() < .1:
            ok, v = attempt(lambda: (lambda b: dict(hd=vec(b.rho_hd(wo, [[.1, .2]])), hh=vec(b.rho_hh(1, [[.1, .2]], [[.3, .4]]))))(Lambertian(Spectrum(list(cl)))))
            a.out.put(op="rho", cls="rho", sig="rho", col=[enc(x) for x in cl], err="" if ok else v, **(v if ok else {}))
    for _ in range(2 * (1 if a.quick else 6)):
        d, N = None, 40
        while d is None or any(float.fromhex(d["dist"][k]) > 10 for k in ("e", "ex", "ey") if k in d.get("dist", {})):
            mk, d = rough()
        wo = local(.4)
        def region(w):
            return (0 if w.x >= 0 else 1) + (0 if w.y >= 0 else 2) + (4 if abs(w.z) > .6 else 0)
        def histo():
            b = mk()
            got, want = [0.] * 8, [0.] * 8
            for i in range(N):
                for j in range(N):
                    pdf, w, f = b.sample_f(wo, (i + rng.random()) / N, (j + rng.random()) / N)
                    if pdf > 0. and w.z * wo.z > 0.:
                        got[region(w)] += 1. / (N * N)
            for i in range(50):
                z = (i + .5) / 50
                for j in range(96):
                    p = 2 * np.pi * (j + .5) / 96
                    w = geo.Vector(float(np.sqrt(1 - z * z) * np.cos(p)), float(np.sqrt(1 - z * z) * np.sin(p)), z if wo.z > 0 else -z)
                    want[region(w)] += float(b.pdf(wo, w)) * 2 * np.pi / (50 * 96)
            return dict(got=[enc(x) for x in got], want=[enc(x) for x in want])
        ok, v = attempt(histo, 120)
        a.out.put(op="histo", cls="histo/" + d["kind"], sig=d["kind"], wo=vec(wo), err="" if ok else v, **dict(d, **(v if ok else {})))

{"P20": p20, "P21": p21, "P22": p22}[MODE]()
a.out.close()
