"""Query the real materials at real surface points and record what their descriptions contain and answer (P34)."""
import os, math, tempfile, shutil
from common import setup, attempt, enc, vec, scenarios
import sys
a = sys.modules["shapes"].a if "shapes" in sys.modules else setup()
import numpy as np
import pytracer.geometry as geo
from pytracer import Spectrum
import pytracer.material as mt
from pytracer.texture import ConstantTexture
from pytracer.geometry.diffgeom import DifferentialGeometry
from pytracer.reflection import BSDFSample, ReHalfangleBRDF
import pytracer.spectral.spectrum as _sp
_sp.SampledSpectrum.init()
rng = a.rng
U = rng.uniform
q = lambda x, y: round(U(x, y) * 256) / 256.

class Tex(object):
    """a texture affine in the surface coordinates (and, for displacements, in the position)"""
    def __init__(self, a, b=None, c=None, g=(0., 0., 0.)):
        self.a, self.b, self.c, self.g = a, b or [0.] * len(a), c or [0.] * len(a), g
    def __call__(self, dg):
        v = [self.a[k] + self.b[k] * dg.u + self.c[k] * dg.v for k in range(len(self.a))]
        if len(v) == 3:
            return Spectrum(v)
        return np.float64(v[0] + self.g[0] * dg.p.x + self.g[1] * dg.p.y + self.g[2] * dg.p.z)
    def rec(self):
        return dict(k="tex", a=[enc(x) for x in self.a], b=[enc(x) for x in self.b], c=[enc(x) for x in self.c], g=[enc(x) for x in self.g])

def real(t):
    """now and then the repository's own constant texture stands for a constant"""
    if rng.random() < .3 and not any(t.b) and not any(t.c) and not any(t.g):
        return ConstantTexture(Spectrum(t.a) if len(t.a) == 3 else np.float64(t.a[0]))
    return t

def ctex(cls, over=False):
    c = [q(.1, .9) for _ in range(3)]
    if rng.random() < .25:      # dim ones as well
        c = [x * 2. ** -rng.choice([4, 6, 9]) for x in c]
    if rng.random() < .3:
        c[rng.randrange(3)] = 0.
    if cls == "black":
        return Tex(rng.choice([[0., 0., 0.], [0., 0., 0.], [-0.25, 0., -1.]]))
    if cls == "neg":
        return Tex([-q(.1, .9) for _ in range(3)])
    if cls == "vary":
        return Tex(c, [q(-.2, .5) for _ in range(3)], [q(-.2, .5) for _ in range(3)])
    if cls == "mixed":
        return Tex([.5, -.5, .25])
    return Tex(rng.choice([c, c, c, [1., 1., 1.], [.5, -.25, .75], [1.5, .25, 2.] if over else c]))

def ntex(lo, hi):
    return Tex([q(lo, hi)], *([[q(0., .25)], [q(0., .25)]] if rng.random() < .3 else []))

def bump(cls):
    if cls == "none":
        return None
    if cls == "flat":
        return Tex([rng.choice([0., 0., q(-.05, .05)])])
    return Tex([q(-.05, .05)], [q(-.5, .5)], [q(-.5, .5)], [q(-.2, .2) for _ in range(3)] if rng.random() < .5 else (0., 0., 0.))

IOR = [1.5, 4. / 3., 1.25, 2., 1.6]
def build(s):
    """(description for the specification, the real material)"""
    k = s["k"]
    if k == "mix":
        r1, m1 = build(s["m1"])
        if rng.random() < .1:
            r2, m2 = r1, m1
        else:
            r2, m2 = build(s["m2"])
        sc = Tex(rng.choice([[q(0., 1.) for _ in range(3)], [0., 0., 0.], [1., 1., 1.], [-.5, .5, 1.]]), *([[q(-.1, .1)] * 3, [q(-.1, .1)] * 3] if rng.random() < .2 else []))
        return dict(k="mix", m1=r1, m2=r2, scale=sc.rec()), mt.MixMaterial(m1, m2, real(sc))
    r, args = dict(k=k), {}
    b = bump(s["bump"])
    r["bump"] = b.rec() if b else dict(k="none")
    def put(name, t):
        r[name] = t.rec()
        args[name] = real(t)
        return args[name]
    if k == "matte":
        put("kd", ctex(s["kd"], True))
        put("sigma", {"zero": lambda: Tex([0.]), "neg": lambda: Tex([-10.]), "over": lambda: Tex([q(91., 200.)]), "some": lambda: ntex(1., 80.) if rng.random() < .75 else Tex([q(.02, 3.)])}[s["sigma"]]())
        return r, mt.MatteMaterial(args["kd"], args["sigma"], b)
    if k == "plastic":
        return r, mt.PlasticMaterial(put("kd", ctex(s["kd"], True)), put("ks", ctex(s["ks"])), put("rough", ntex(*rng.choice([(.01, .9), (.01, .9), (.9, 4.), (.006, .02)]))), b)
    if k == "mirror":
        return r, mt.MirrorMaterial(put("kr", ctex(s["kr"], True)), b)
    if k == "metal":
        eta, kk = Tex([q(.2, 3.) for _ in range(3)]), Tex([q(0., 4.) for _ in range(3)])
        return r, mt.MetalMaterial(put("eta", eta), put("kk", kk), put("rough", ntex(*rng.choice([(.01, .9), (.01, .9), (.9, 4.), (.006, .02)]))), b)
    if k == "glass":
        return r, mt.GlassMaterial(put("kr", ctex(s["kr"])), put("kt", ctex(s["kt"])), put("eta", Tex([rng.choice(IOR)])), b)
    if k == "uber":
        op = {"one": [1., 1., 1.], "zero": [0., 0., 0.], "mid": rng.choice([[q(.1, .9), q(.1, .9), rng.choice([0., 1., .5])]] * 2 + [[1. - 2. ** -rng.choice([5, 7, 9])] * 3, [2. ** -rng.choice([5, 7, 9])] * 3]), "over": [1.5, 1., 2.]}[s["op"]]
        return r, mt.UberMaterial(put("kd", ctex(s["kd"])), put("ks", ctex(s["ks"])), put("kr", ctex(s["kr"])), put("kt", ctex(s["kt"])),
                                  put("rough", ntex(*rng.choice([(.01, .9), (.01, .9), (.9, 4.), (.006, .02)]))), put("op", Tex(op)), put("eta", Tex([rng.choice(IOR)])), b)
    eta = Tex([rng.choice(IOR)])
    if k == "subsurface":
        unit = rng.choice([1., .001, 2.])
        r["unit"] = enc(unit)
        return r, mt.SubsurfaceMaterial(unit, put("kr", ctex(s["kr"])), put("sa", ctex("vary")), put("ss", ctex("col")), put("eta", eta), b)
    return r, mt.KdSubsurfaceMaterial(put("kd", ctex("col")), put("kr", ctex(s["kr"])), put("mfp", ntex(.1, 2.)), put("eta", eta), b)

class Shape(object):
    def __init__(self, ro, sw):
        self.ro, self.transform_swaps_handedness = ro, sw

def rv():
    while True:
        v = np.array([rng.gauss(0, 1) for _ in range(3)])
        n = math.sqrt(v.dot(v))
        if n > .2:
            return v / n
V = lambda v: geo.Vector(float(v[0]), float(v[1]), float(v[2]))
def point():
    """(geometric, shading) surface descriptions at one point; shading tilted a little now and then"""
    if rng.random() < .3:
        n, s = rng.choice([((0., 0., 1.), (1., 0., 0.)), ((1., 0., 0.), (0., 0., -1.)), ((0., .6, .8), (0., .8, -.6))])
        n, s = np.array(n), np.array(s)
    else:
        n = rv()
        s = np.cross(n, rv())
        s /= math.sqrt(s.dot(s))
    t = np.cross(n, s)
    sh = Shape(rng.random() < .4, rng.random() < .4) if rng.random() < .85 else None
    p = geo.Point(U(-2, 2), U(-2, 2), U(-2, 2))
    def dg(n, s, t, curv):
        lu, lv, sk = q(.25, 4.), q(.25, 4.), rng.choice([0., 0., q(-.5, .5)])
        pu, pv = s * lu, t * lv + s * (sk * lv)
        k1, k2, k3 = (q(-.5, .5), q(-.5, .5), q(-.2, .2)) if curv else (0., 0., 0.)
        nu, nv = pu * k1 + pv * k3, pv * k2 + pu * k3
        d = DifferentialGeometry(p, V(pu), V(pv), geo.Normal.from_arr(V(nu)), geo.Normal.from_arr(V(nv)), q(0., 1.), q(0., 1.), sh)
        if rng.random() < .5:
            k = rng.choice([1., 1., 2. ** -5, 2. ** -9, 16.])
            d.dudx, d.dudy, d.dvdx, d.dvdy = k * q(-.1, .1), k * q(-.1, .1), k * q(-.1, .1), k * q(-.1, .1)
        if rng.random() < .15:
            d.dudx = d.dudy = 0.
        if rng.random() < .15:
            d.dvdx = d.dvdy = 0.
        return d
    g = dg(n, s, t, rng.random() < .5)
    if rng.random() < .5:
        return g, g
    n2 = n + .3 * rv() * rng.random()
    n2 /= math.sqrt(n2.dot(n2))
    s2 = s - n2 * s.dot(n2)
    s2 /= math.sqrt(s2.dot(s2))
    d = dg(n2, s2, np.cross(n2, s2), rng.random() < .5)
    d.u, d.v = g.u, g.v
    return g, d

def snap(d):
    return [float(x) for f in (d.p, d.dpdu, d.dpdv, d.dndu, d.dndv, d.nn, d.dpdx, d.dpdy) for x in (f.x, f.y, f.z)] + [float(x) for x in (d.u, d.v, d.dudx, d.dudy, d.dvdx, d.dvdy)]
def spec(v):
    return [enc(float(v[k])) for k in range(3)]
def direction(n, side):
    while True:
        w = rv()
        c = w.dot(n)
        if abs(c) > .15:
            return w if c * side > 0 else -w
def mirrored(w, n):
    return -w + 2. * w.dot(n) * n

def describe(s, n):
    r, m = build(s)
    g, d = point()
    nn = np.array([float(x) for x in (d.nn.x, d.nn.y, d.nn.z)])
    dgs = dict(p=vec(d.p), u=enc(d.u), v=enc(d.v), dpdu=vec(d.dpdu), dpdv=vec(d.dpdv), dndu=vec(d.dndu), dndv=vec(d.dndv), nn=vec(d.nn))
    base = dict(m=r, dgs=dgs, ng=vec(g.nn))
    before = snap(g) + snap(d)
    pairs = []
    for k in range(4):
        side = rng.choice([1, 1, -1])
        wo = direction(nn, side)
        wi = mirrored(wo, nn) if k == 0 else direction(nn, -side if k == 3 else side)
        pairs.append((wo, wi))
    souts = [(t, direction(nn, sd)) for t in (17, 18) for sd in (1, -1)]
    def go():
        b = m.get_bsdf(g, d)
        out = dict(total=int(b.n_components(31)), n5=int(b.n_components(5)), n9=int(b.n_components(9)), n17=int(b.n_components(17)), n18=int(b.n_components(18)),
                   ls=vec(b.l2w(geo.Vector(1., 0., 0.))), lt=vec(b.l2w(geo.Vector(0., 1., 0.))), ln=vec(b.l2w(geo.Vector(0., 0., 1.))))
        b2 = None
        for _ in range(rng.choice([1, 1, 2])):
            b2 = m.get_bsdf(g, d)
        out["total2"] = int(b2.n_components(31))
        out["pairs"] = [dict(wo=vec(wo), wi=vec(wi), all=spec(b.f(V(wo), V(wi))), diff=spec(b.f(V(wo), V(wi), 5)), gloss=spec(b.f(V(wo), V(wi), 9)), again=spec(b2.f(V(wo), V(wi)))) for wo, wi in pairs]
        out["specs"] = []
        for t, wo in souts:
            cnt = int(b.n_components(t))
            smp = []
            for j in range(cnt):
                p, wi, ty, f = b.sample_f(V(wo), BSDFSample(U(0, .99), U(0, .99), (j + .5) / cnt), t)
                smp.append(dict(pdf=enc(p), wi=vec(wi) if wi is not None else ["0", "0", "0"], f=spec(f)))
            out["specs"].append(dict(t=t, wo=vec(wo), smp=smp))
        out["kept"] = snap(g) + snap(d) == before
        return out
    ok, v = attempt(go)
    name = s["k"] + ("" if s.get("bump", "none") == "none" else "-bumped")
    a.out.put(op="describe", cls=name, sig=name, err="" if ok else v, **(dict(base, **v) if ok else base))
    if s["k"] in ("matte", "glass", "subsurface", "plastic", "mirror"):
        def bss():
            b = m.get_bssrdf(g, d)
            if b is None:
                return dict(given=False)
            return dict(given=True, sa=spec(b.sigma_a), ss=spec(b.sigma_prime_s), eta=enc(b.eta))
        ok, v = attempt(bss)
        a.out.put(op="bss", cls="bss", sig=s["k"], err="" if ok else v, **(dict(base, **v) if ok else base))

UP = lambda: direction(np.array([0., 0., 1.]), 1)
def measured(tmp, k):
    """write a file of irregular samples, load it (twice, and beside another of the same name) and ask"""
    n = rng.choice([1, 2, 3, 5, 20, 40, 60])
    flat = n == 40      # many samples of nearly the same pair of directions
    nw = rng.choice([3, 5, 8])
    wl = sorted(U(380, 720) for _ in range(nw))
    dirs = [os.path.join(tmp, "m%d%s" % (k, x)) for x in "ab"]
    files, samples = [], []
    for dn in dirs:
        os.makedirs(dn)
        sm = []
        style = rng.randrange(4)
        with open(os.path.join(dn, "m%d_%d.brdf" % (a.part, k)), "w") as f:
            if style:
                f.write("# measured\n")
            if style == 2:
                f.write("#no blank\n\n")
            f.write("%d\n%s\n" % (nw, " ".join(repr(w) for w in wl)))
            for _ in range(n):
                th, ph, to, po = U(0, 1.5), U(-3, 6), U(0, 1.5), U(-3, 6)
                if flat:
                    th, ph, to, po = [x + .003 * y for x, y in zip((.7, 1., .4, 3.), (th, ph, to, po))]
                v = [rng.random() for _ in range(nw)]
                f.write("%s%s%s\n" % (" ".join(repr(x) for x in [th, ph, to, po]), "\n" if style == 1 else " ", " ".join(repr(x) for x in v)) + ("" if style < 3 else "  # sample 3 4\n"))
                sp = Spectrum.from_sampled(np.array(wl), np.array(v))
                D = lambda t, p: [enc(math.sin(t) * math.cos(p)), enc(math.sin(t) * math.sin(p)), enc(math.cos(t))]
                sm.append(dict(wi=D(th, ph), wo=D(to, po), v=spec(sp)))
            files.append(f.name)
        samples.append(sm)
    for j in (0, 1):
        wo, wi = UP(), UP()
        def go():
            m, m2 = mt.MeasuredMaterial(files[j]), mt.MeasuredMaterial(files[j])
            g = DifferentialGeometry(geo.Point(0., 0., 0.), geo.Vector(1., 0., 0.), geo.Vector(0., 1., 0.), geo.Normal(0., 0., 0.), geo.Normal(0., 0., 0.), .5, .5, None)
            b, b2 = m.get_bsdf(g, g), m2.get_bsdf(g, g)
            return dict(total=int(b.n_components(31)), n9=int(b.n_components(9)), f=spec(b.f(V(wo), V(wi))), frev=spec(b.f(V(wi), V(wo))), fagain=spec(b2.f(V(wo), V(wi))))
        ok, v = attempt(go)
        base = dict(smp=samples[j], wo=vec(wo), wi=vec(wi))
        a.out.put(op="measured", cls="measured-%d" % n, sig="measured", err="" if ok else v, **(dict(base, **v) if ok else base))

def table():
    nh, nd, npd = rng.choice([(9, 9, 18), (4, 3, 5), (90, 90, 180) if not a.quick else (6, 8, 4), (1, 1, 1)])
    data = np.arange(nh * nd * npd, dtype=float).reshape(nh, nd, npd)
    data = np.stack([data + 1.] * 3, axis=-1)
    wo, wi = UP(), UP()
    def go():
        b = ReHalfangleBRDF(data, nh, nd, npd)
        base = float(Spectrum.from_rgb([1., 1., 1.])[0])
        return dict(cell=enc(float(b.f(V(wo), V(wi))[0]) / base - 1.))
    ok, v = attempt(go)
    base = dict(nh=nh, nd=nd, np=npd, wo=vec(wo), wi=vec(wi))
    a.out.put(op="table", cls="table", sig="table", err="" if ok else v, **(dict(base, **v) if ok else base))

if __name__ == "__main__":
    sc = scenarios(a)
    size = lambda m: size(m["m1"]) + size(m["m2"]) if m["k"] == "mix" else 1
    for k, s in enumerate(sc):
        if size(s["m"]) > 3 and k % 3:
            continue
        for rep in range(1 if a.quick or s["m"]["k"] == "mix" else 4):
            describe(s["m"], s["n"])
    tmp = tempfile.mkdtemp(prefix="p34_")
    try:
        for k in range(6 if a.quick else 60):
            measured(tmp, k)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    for _ in range(60 if a.quick else 1500):
        table()
    a.out.close()
