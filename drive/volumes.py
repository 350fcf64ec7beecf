"""Query participating media (P32)."""
import os
os.environ.setdefault("MODE", "P32")
from common import attempt, enc, vec, mat
from shapes import a, rng, U, V, rigid
import numpy as np
import pytracer.geometry as geo
from pytracer.transform import Transform
from pytracer.spectral import Spectrum
from pytracer.scene import Scene
from pytracer.volume.volume import VolumeRegion, HomogeneousVolumeDensity, VolumeGridDensity, ExponentialDensity, AggregateVolume
import pytracer.volume.utility as vu
INF = float("inf")
def col():
    k = rng.choice([1., 1., 1., 2. ** -U(3, 14), U(3, 30)])
    return [k * rng.choice([0., 1., U(0, 3)]) for _ in range(3)]
def place():
    t = rng.choice([Transform, rigid, rigid, lambda: Transform.translate(V())])()
    if rng.random() < .3:
        t = t * Transform.scale(U(.3, 2), U(.3, 2), U(.3, 2))
    return t
class Foreign(VolumeRegion):
    """a region written by someone else: attenuation is left to the library"""
    def __init__(self, v):
        super(Foreign, self).__init__()
        self.v = v
    def world_bound(self): return self.v.world_bound()
    def intersect_p(self, ray): return self.v.intersect_p(ray)
    def sigma_a(self, p, w, tm): return self.v.sigma_a(p, w, tm)
    def sigma_s(self, p, w, tm): return self.v.sigma_s(p, w, tm)
    def lve(self, p, w, tm): return self.v.lve(p, w, tm)
    def p(self, p, wi, wo, tm): return self.v.p(p, wi, wo, tm)
    def tau(self, ray, step=1., offset=.5): return self.v.tau(ray, step, offset)
def region():
    r = region0()
    return (r[0], lambda: Foreign(r[1]())) + r[2:] if rng.random() < .15 else r
def region0():
    kind = rng.choice(["homog", "grid", "expo"])
    v2w = place()
    lo = [rng.choice([0., -1., U(-2, 0)]) for _ in range(3)]
    hi = [x + rng.choice([1., 2., U(.5, 3)]) for x in lo]
    sa, ss, le = col(), col(), col()
    g = rng.choice([0., .5, -.5, U(-.9, .9), U(-.9, .9), 2. ** -U(4, 12), -.99, .98])
    rec = dict(kind=kind, sa=vec(sa), ss=vec(ss), le=vec(le), g=enc(g), lo=vec(lo), hi=vec(hi), m=mat(v2w.m), mi=mat(v2w.inverse().m), grid=[], a="0", b="0", up=vec([0, 0, 1]))
    S = lambda c: Spectrum(np.array(c))
    box = geo.BBox(geo.Point(*lo), geo.Point(*hi))
    if kind == "homog":
        mk = lambda: HomogeneousVolumeDensity(S(sa), S(ss), g, S(le), box, v2w)
    elif kind == "grid":
        n = [rng.choice([1, 2, 3, 4]) for _ in range(3)]
        if rng.random() < .2:
            n[rng.randrange(3)] = rng.choice([7, 12])
        d = [[[rng.choice([0., 1., U(0, 3)]) for _ in range(n[0])] for _ in range(n[1])] for _ in range(n[2])]
        rec["grid"] = [[[enc(x) for x in r] for r in s] for s in d]
        def mk():
            given = np.array(d)
            v = VolumeGridDensity(S(sa), S(ss), g, S(le), box, v2w, given)
            if late:        # the caller's table is the caller's again
                given += 1.
            return v
        late = rng.random() < .5
    else:
        aa, b, up = rng.choice([1., U(.1, 3)]), rng.choice([0., 1., U(0, 4)]), V()
        rec.update(a=enc(aa), b=enc(b), up=vec(up))
        mk = lambda: ExponentialDensity(S(sa), S(ss), g, S(le), box, v2w, aa, b, up)
    return rec, mk, v2w, lo, hi
def medium():
    n = rng.choice([0, 0, 0, 0, 1, 2, 2, 3, 3, 7])
    rs = [region() for _ in range(n or 1)]
    def mk():
        xs = [r[1]() for r in rs]
        return xs[0] if n == 0 else AggregateVolume(xs)
    return rs, mk, n > 0
def spot(rs):
    _, _, v2w, lo, hi = rng.choice(rs)
    if rng.random() < .15:
        return geo.Point(U(-6, 6), U(-6, 6), U(-6, 6))
    return v2w(geo.Point(*[rng.choice([l + .01 * (h - l), U(l, h), U(l, h), U(l, h), (l + h) / 2, h + .1]) for l, h in zip(lo, hi)]))
def colv(s):
    return vec(s)
def media(n):
    for _ in range(n):
        rs, mk, agg = medium()
        kind = ("aggregate%d" % len(rs)) if agg else rs[0][0]["kind"]
        base = dict(sig="medium/" + ("aggregate" if agg else kind), regs=[r[0] for r in rs], agg=agg)
        ok, med = attempt(mk)
        if not ok:
            a.out.put(op="bound", cls="build/" + kind, err=med, **base)
            continue
        alo = [q() for q in [lambda: rng.choice([0., U(-9, 9)])] * 3]
        ahi = [x + rng.choice([0., .5, U(0, 9)]) for x in alo]
        class Agg(object):
            def __init__(self):
                self.box = geo.BBox(geo.Point(*alo), geo.Point(*ahi))
            def world_bound(self):
                return self.box
        base.update(alo=vec(alo), ahi=vec(ahi))
        def go():
            agg = Agg()
            b = med.world_bound()
            sc = Scene(agg, [], med)
            repr(sc)
            sb = sc.world_bound()
            ab, b2 = agg.world_bound(), med.world_bound()
            return dict(lo=vec(b.pMin), hi=vec(b.pMax), slo=vec(sb.pMin), shi=vec(sb.pMax), lo2=vec(b2.pMin), hi2=vec(b2.pMax), alo2=vec(ab.pMin), ahi2=vec(ab.pMax))
        ok, v = attempt(go)
        a.out.put(op="bound", cls="bound/" + kind, err="" if ok else v, **dict(base, **(v if ok else {})))
        for _ in range(6):
            p, w, wp, tm = spot(rs), geo.normalize(V()), geo.normalize(V()), rng.choice([0., .5, U(0, 1)])
            def go():
                f = lambda: [med.sigma_a(p, w, tm), med.sigma_s(p, w, tm), med.sigma_t(p, w, tm), med.lve(p, w, tm)]
                one = f()
                d = dict(zip(["sa", "ss", "st", "le"], [vec(x) for x in one]))
                d["ph"] = enc(med.p(p, w, wp, tm))
                for x in one:
                    x += 1.
                d["again"] = [vec(x) for x in f()] == [d[k] for k in ("sa", "ss", "st", "le")]
                return d
            ok, v = attempt(go)
            a.out.put(op="point", cls="point/" + kind, err="" if ok else v, p=vec(p), w=vec(w), wp=vec(wp), **dict(base, **(v if ok else {})))
        if not agg and kind != "homog":
            p = spot(rs)
            ok, v = attempt(lambda: dict(tau=vec(med.tau(geo.Ray(p, geo.Vector(0., 0., 0.), 0., INF), rng.choice([1., .25])))))
            a.out.put(op="still", cls="still/" + kind, err="" if ok else v, **dict(base, **(v if ok else {})))
        for _ in range(10 if len(rs) > 1 else 6):
            p = spot(rs)
            d = V() if rng.random() < .5 or len(rs) == 1 else spot(rs) - p
            tiny = rng.choice([1.] * 6 + [2. ** -U(5, 12), 2. ** U(3, 7)])      # a ray's direction may have any length
            d = (V() if d.length() < .1 else d) * rng.choice([1., 1., .3, 3.])
            if rng.random() < .2:
                d = geo.Vector(*[float(x) for x in rng.choice([(1, 0, 0), (0, -1, 0), (0, 0, 2), (1, 1, 0)])])
            o = p - d * rng.choice([0., 1., 3., -2.])
            mint, maxt = rng.choice([0., 0., .5, 2.]) / tiny, rng.choice([INF, INF, 3., 1., 4.]) / tiny
            d = d * tiny
            if maxt < mint:
                mint = 0.
            def mkray():
                return geo.Ray(o, d, mint, maxt, time=.25)
            rr = dict(o=vec(o), d=vec(d), mint=enc(mint), maxt=enc(maxt))
            def go():
                hit, t0, t1 = med.intersect_p(mkray())
                return dict(hit=bool(hit), t0=enc(t0), t1=enc(t1))
            ok, v = attempt(go)
            a.out.put(op="interval", cls="interval/" + kind, err="" if ok else v, ray=rr, **dict(base, **(v if ok else {})))
            step, u = rng.choice([1., .5, U(.1, 2)]), rng.choice([.5, 0., U(0, 1)])
            if len(rs) <= 2 and rng.random() < .06:     # many steps
                step = U(.01, .04)
            dflt = rng.random() < .2
            if dflt:
                step, u = 1., .5
            def go():
                r = mkray()
                t = med.tau(r) if dflt else med.tau(r, step, u)
                assert vec(r.o) == rr["o"] and vec(r.d) == rr["d"] and enc(r.mint) == rr["mint"] and enc(r.maxt) == rr["maxt"], "ray changed"
                return dict(tau=vec(t))
            ok, v = attempt(go)
            a.out.put(op="tau", cls="tau/" + kind, err="" if ok else v, ray=rr, step=enc(step), u=enc(u), **dict(base, **(v if ok else {})))
PH = {"iso": "phase_isotrophic", "rayleigh": "phase_rayleigh", "hazy": "phase_mie_hazy", "murky": "phase_mie_murky", "hg": "phase_hg", "schlick": "phase_schlick"}
def phases(n):
    for k in range(n):
        name = sorted(PH)[k % len(PH)]
        w = geo.normalize(V())
        wp = rng.choice([w, -w, geo.normalize(V()), geo.normalize(V())])
        g = rng.choice([0., .5, -.5, U(-.9, .9), U(-.9, .9), 2. ** -U(4, 12), -.99, .98])
        f = getattr(vu, PH[name])
        ok, v = attempt(lambda: f(w, wp, g) if name in ("hg", "schlick") else f(w, wp))
        a.out.put(op="phase", cls="phase/" + name, sig="phase/" + name, name=name, w=vec(w), wp=vec(wp), g=enc(g), err="" if ok else v, v=enc(v) if ok else "0")
def measured():
    if a.part:
        return
    from pytracer.data.volume import MEASURED_SUF_SC
    for name in sorted(MEASURED_SUF_SC) + ["no such liquid"]:
        unknown = name == "no such liquid"
        def go():
            sa, ss = vu.get_volume_scattering(name)
            return dict(none=sa is None and ss is None, sa=vec(sa) if sa is not None else [], ss=vec(ss) if ss is not None else [])
        ok, v = attempt(go)
        a.out.put(op="measured", cls="measured", sig="measured", name=name, unknown=unknown, milky=name in ("Cream", "Skimmilk", "Marble", "Apple", "Chicken1", "Skin1"), err="" if ok else v, **(v if ok else {}))
media(14 if a.quick else 180)
phases(30 if a.quick else 300)
measured()
a.out.close()
