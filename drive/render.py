"""Run the real render loop with stand-in sampler, camera, film, integrators, aggregate and lights that log every call."""
from common import setup, attempt, enc, scenarios
a = setup()
import numpy as np
import pytracer.geometry as geo
from pytracer.camera import Camera
from pytracer.renderer import SamplerRenderer
from pytracer.renderer.renderer import SamplerRendererTask
from pytracer.sampler import Sampler, Sample
from pytracer.scene import Scene
from pytracer.spectral import Spectrum
from pytracer.aggregate import Primitive
rng = a.rng
NAN, INF = float("nan"), float("inf")
LOG = []
def col(c):
    return Spectrum(list(c))
def fields(s):
    return [enc(s.imageX), enc(s.imageY), enc(s.lens_u), enc(s.lens_v), enc(s.time)]
def of_ray(r):
    return [enc(r.o[0]), enc(r.o[1]), enc(r.o[2]), enc(r.d[1]), enc(r.time)]

class Smp(Sampler):
    def __init__(self, batches, spp, reports):
        super(Smp, self).__init__(0, max(1, len(batches)), 0, 1, spp, 0., 1.)
        self.batches, self.reports, self.k, self.n = batches, reports, 0, spp
    def generate(self, samples, rng=np.random.rand):
        if self.k >= len(self.batches):
            LOG.append(dict(ev="gen", more=False, samples=[]))
            return False
        b = self.batches[self.k]
        self.k += 1
        for s, p in zip(samples, b):
            s.imageX, s.imageY, s.lens_u, s.lens_v, s.time = p["raw"]
        LOG.append(dict(ev="gen", more=True, samples=[fields(s) for s in samples]))
        return True
    def maximum_sample_cnt(self):
        return self.n
    def get_subsampler(self, num, cnt):
        return self if num == 0 else None
    def round_size(self, n):
        return n
    def report_results(self, samples, rays, ls, isects):
        ok = self.reports[self.k - 1]
        LOG.append(dict(ev="report", ok=ok))
        return ok

class Cam(Camera):
    def __init__(self, film, byf):
        super(Cam, self).__init__(None, 0., 1., film)
        self.byf = byf
    def generate_ray(self, s):
        return [self.byf[tuple(fields(s))]["wraw"], geo.Ray(geo.Point(s.imageX, s.imageY, s.lens_u), geo.Vector(0., s.lens_v, 1.), 0., INF, 0, s.time)]
    def generate_ray_differential(self, s):
        LOG.append(dict(ev="ray", f=fields(s)))
        w, r = self.generate_ray(s)
        rd = geo.RayDifferential.from_ray(r)
        rd.rxOrigin, rd.ryOrigin = r.o + geo.Vector(1., 0., 0.), r.o + geo.Vector(0., 1., 0.)
        rd.rxDirection, rd.ryDirection = geo.Vector(*r.d), geo.Vector(*r.d)
        rd.has_differentials = True
        return [w, rd]

class Film(object):
    xResolution = yResolution = 4
    def add_sample(self, s, L):
        LOG.append(dict(ev="add", f=fields(s), c=[enc(v) for v in L]))
    def write_image(self, splat_scale=1.):
        LOG.append(dict(ev="write"))

class Agg(Primitive):
    def __init__(self, byf):
        super(Agg, self).__init__()
        self.byf = byf
    def world_bound(self):
        return geo.BBox(geo.Point(0., 0., 0.), geo.Point(1., 1., 1.))
    def can_intersect(self):
        return True
    def refine(self, r):
        pass
    def intersect(self, r, isect):
        return self.byf[tuple(of_ray(r))]["hit"]
    def intersect_p(self, r):
        return self.byf[tuple(of_ray(r))]["hit"]
    def get_area_light(self):
        return None
    def get_bsdf(self, dg, o2w):
        return None
    def get_bssrdf(self, dg, o2w):
        return None

class Surf(object):
    def __init__(self, byf):
        self.byf = byf
    def preprocess(self, scene, camera, renderer):
        LOG.append(dict(ev="pre", who="surf"))
    def request_samples(self, sampler, sample, scene):
        sample.add_1d(2)
    def li(self, scene, renderer, ray, isect, sample, rng=None):
        LOG.append(dict(ev="li", f=of_ray(ray), dx=[enc(v) for v in (ray.rxOrigin - ray.o)], dy=[enc(v) for v in (ray.ryOrigin - ray.o)]))
        return col(self.byf[tuple(fields(sample))]["radraw"])

class Vol(object):
    def __init__(self, byf):
        self.byf = byf
    def preprocess(self, scene, camera, renderer):
        LOG.append(dict(ev="pre", who="vol"))
    def request_samples(self, sampler, sample, scene):
        sample.add_2d(1)
    def li(self, scene, renderer, ray, sample, rng=None):
        p = self.byf[tuple(fields(sample))]
        return col(p["volraw"]), col(p["trraw"])
    def transmittance(self, scene, renderer, ray, sample, rng=None):
        if rng is not None:
            float(rng())
        return col(self.byf[tuple(fields(sample))]["trraw"])

class Lamp(object):
    def __init__(self, byf, n):
        self.byf, self.n = byf, n
    def le(self, ray):
        return col(self.byf[tuple(of_ray(ray))]["backraw"][self.n])

def radiance(kind):
    f = lambda: rng.choice([0., .5, 1., 3., rng.uniform(0, 5)])
    if kind == "fin":
        return [f(), f(), f()]
    if kind == "zero":
        return [0., 0., 0.]
    if kind == "neg":
        return rng.choice([[-1., 0., 0.], [.1, -2., .1], [-1e-3, -1e-3, -1e-3], [-3., -3., 0.]])
    if kind == "tiny":
        return [-1e-7, 0., 0.]
    if kind == "nan":
        c = [f(), f(), f()]
        c[rng.randrange(3)] = NAN
        return c
    if kind == "mixed":
        c = [INF, -INF, f()]
        rng.shuffle(c)
        return c
    if kind == "negpart":
        return [-.25, 2., 1.]
    c = [f(), f(), f()]
    c[rng.randrange(3)] = INF
    if rng.random() < .3:
        c = [INF] * 3
    return c

def entry(kind, hit, w, ident, nlamps):
    raw = (ident + .25, rng.choice([.5, 1.75]), rng.random(), rng.random(), rng.random())
    rad, back = radiance(kind if hit else "fin"), [radiance("fin" if hit else kind if k == 0 else "fin") for k in range(nlamps)]
    vol, tr = radiance("fin"), [rng.choice([0., .5, 1.]) if kind == "fin" else 1. for _ in range(3)]
    return dict(raw=raw, wraw=float(w), hit=hit, radraw=rad, backraw=back, volraw=vol, trraw=tr,
                pub=dict(f=[enc(v) for v in raw], w=enc(float(w)), hit=hit, rad=[enc(v) for v in rad], back=[[enc(v) for v in b] for b in back],
                         vol=[enc(v) for v in vol], tr=[enc(v) for v in tr]))

def run(batches, reports, spp, vol, nlamps, cls, vis=False):
    flat = [p for b in batches for p in b]
    byf = {tuple(enc(v) for v in p["raw"]): p for p in flat}
    del LOG[:]
    film = Film()
    def go():
        scene = Scene(Agg(byf), [Lamp(byf, k) for k in range(nlamps)], None)
        smp, cam, surf = Smp(batches, spp, reports), Cam(film, byf), Surf(byf)
        ren = SamplerRenderer(smp, cam, surf, Vol(byf) if vol else None)
        if vis:      # the task alone, showing what is visible instead of what is lit
            SamplerRendererTask(scene, ren, cam, smp, Sample(smp, surf, None, scene), True, 1, 1)()
        else:
            ren.render(scene)
    ok, v = attempt(go)
    a.out.put(op="loop", cls=cls, sig="loop", plan=[p["pub"] for p in flat], spp=spp, vol=vol, vis=vis, ev=list(LOG), err="" if ok else v)

def dispatch():
    vol, nl = rng.random() < .5, rng.choice([0, 1, 2])
    p = entry("fin", rng.random() < .5, 1., 1, nl)
    byf = {tuple(enc(v) for v in p["raw"]): p}
    q = rng.choice(["li", "li", "transmittance"])
    from pytracer.aggregate import Intersection
    from pytracer.sampler import Sample
    def go():
        scene = Scene(Agg(byf), [Lamp(byf, k) for k in range(nl)], None)
        ren = SamplerRenderer(None, None, Surf(byf), Vol(byf) if vol else None)
        s = Sample()
        s.imageX, s.imageY, s.lens_u, s.lens_v, s.time = p["raw"]
        ray = Cam(None, byf).generate_ray_differential(s)[1]
        if q == "li":
            return ren.li(scene, ray, s, Intersection(), np.random.rand)[0]
        return ren.transmittance(scene, ray, s)
    ok, v = attempt(go)
    a.out.put(op="dispatch", cls="dispatch/%s/%s" % (q, vol), sig="dispatch", q=q, vol=vol, p=p["pub"], err="" if ok else v, got=[enc(x) for x in v] if ok else [])

scen = scenarios(a)
if a.quick and len(scen) > 130:
    rng.shuffle(scen)
    scen = scen[:130]
for s in scen:
    nl = rng.choice([0, 1, 2])
    n = 0
    batches = []
    for b in s["batches"]:
        row = []
        for e in (b["batch"] if isinstance(b["batch"], list) else [b["batch"][k] for k in sorted(b["batch"])]):
            n += 1
            row.append(entry(e["kind"], e["hit"], e["w"], n, nl))
        batches.append(row)
    run(batches, [b["ok"] for b in s["batches"]], len(batches[0]), rng.random() < .25, nl, "model/%d" % len(batches))
for sz in [()] * (28 if a.quick else 400) + [(rng.choice([18, 36]), 2, 1), (1, rng.choice([130, 450]), 0), (2, rng.choice([65, 260]), 1)] * (1 if a.quick else 4):
    spp, nb, nl = sz or (rng.choice([1, 2, 3, 4, 5]), rng.choice([0, 1, 2, 5]), rng.choice([0, 1, 3]))
    n = 0
    batches = []
    for _ in range(nb):
        row = []
        for _ in range(spp):
            n += 1
            row.append(entry(rng.choice(["fin", "fin", "fin", "nan", "inf", "mixed", "neg", "tiny", "negpart", "zero"]), rng.random() < .7, rng.choice([0., 1., .5, 2., .125]), n, nl))
        batches.append(row)
    run(batches, [rng.random() < .8 for _ in batches], spp, *((False, nl, "visible/%d" % spp, True) if not sz and rng.random() < .25 else (rng.random() < .3, nl, "random/%d" % spp)))
for _ in range(20 if a.quick else 200):
    dispatch()
a.out.close()
