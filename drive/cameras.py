"""Generate rays from every kind of camera (P29)."""
import os
os.environ.setdefault("MODE", "P29")
from common import attempt, enc, vec, mat
from shapes import a, rng, U, V, rigid
import pytracer.geometry as geo
from pytracer.transform import Transform, AnimatedTransform
from pytracer.camera import PerspectiveCamera, OrthoCamera, EnvironmentCamera, PinholeCamera
from pytracer.sampler.sample import CameraSample, Sample
import pytracer.montecarlo as mc
class Film(object):
    def __init__(self, x, y):
        self.xResolution, self.yResolution = x, y
def place():
    t = rng.choice([rigid, rigid, Transform, lambda: Transform.look_at(geo.Point(U(-5, 5), U(-5, 5), U(-5, 5)), geo.Point(U(6, 9), U(-5, 5), 0.), geo.Vector(0., 0., 1.))])()
    return t
def rr(r, diff=False):
    d = dict(o=vec(r.o), d=vec(r.d), mint=enc(r.mint), maxt=enc(r.maxt), time=enc(r.time), depth=int(r.depth))
    if diff:
        d.update(has=bool(r.has_differentials), rxo=vec(r.rxOrigin), ryo=vec(r.ryOrigin), rxd=vec(r.rxDirection), ryd=vec(r.ryDirection))
    return d
KINDS = ["persp", "persp", "persp", "ortho", "ortho", "env", "pinhole"]
for n in range(30 if a.quick else 400):
    kind = KINDS[n % len(KINDS)]
    film = Film(rng.choice([1, 2, 16, 64, 200]), rng.choice([1, 3, 16, 48, 100]))
    t1 = place()
    moving = rng.random() < .35
    t2 = place() if moving else t1
    tm = sorted([U(0, 1), U(0, 2)]) if moving else [0., 1.]
    c2w = AnimatedTransform(t1, tm[0], t2, tm[1])
    op, cl = rng.choice([(0., 1.), (0., 0.), (.25, .5), (U(0, 1), U(1, 2))])
    asp = film.xResolution / film.yResolution
    win = rng.choice([[-asp, asp, -1., 1.], [-1., 1., -1., 1.], [U(-2, 0), U(.1, 2), U(-2, 0), U(.1, 2)]])
    lensr = rng.choice([0., 0., .1, U(0, 1), 2. ** -U(4, 12), U(1, 8)])
    focal = rng.choice([1., 10., U(.5, 50), 2. ** U(-4, 12)])
    fov = rng.choice([30., 90., U(5, 150), U(5, 150), U(.5, 5), U(150, 175)])
    def mk():
        if kind == "persp":
            return PerspectiveCamera(c2w, win, op, cl, lensr, focal, fov, film)
        if kind == "ortho":
            return OrthoCamera(c2w, win, op, cl, lensr, focal, film)
        if kind == "env":
            return EnvironmentCamera(c2w, op, cl, film)
        return PinholeCamera(c2w, focal, film)
    base = dict(kind=kind, cls="%s%s%s" % (kind, "/moving" if moving else "", "/lens" if lensr > 0 and kind in ("persp", "ortho") else ""), sig="camera/" + kind, win=[enc(x) for x in win],
                res=[film.xResolution, film.yResolution], fov=enc(fov), focal=enc(focal), lensr=enc(lensr), open=enc(op), close=enc(cl))
    ok, cam = attempt(mk)
    if not ok:
        a.out.put(err=cam, **base)
        continue
    for _ in range(4):
        px, py = rng.choice([0., float(film.xResolution), U(0, film.xResolution), U(-2, film.xResolution + 2)]), rng.choice([0., float(film.yResolution), U(0, film.yResolution), U(-2, film.yResolution + 2)])
        if kind == "pinhole":
            px, py = U(-1, 1), U(-1, 1)
        lu, lv, ts = rng.choice([.5, U(0, 1)]), rng.choice([.5, 0., U(0, 1)]), rng.choice([op, cl, U(op, cl), U(op, cl)])
        def go():
            s = (CameraSample if rng.random() < .5 else Sample)(imageX=px, imageY=py, lens_u=lu, lens_v=lv, time=ts)
            wt, ray = cam.generate_ray(s)
            d = dict(wt=enc(wt), ray=rr(ray))
            wtd, rd = cam.generate_ray_differential(s)
            d.update(wtd=enc(wtd), rd=rr(rd, True))
            d["keep"] = (s.imageX, s.imageY, s.lens_u, s.lens_v, s.time) == (px, py, lu, lv, ts)
            # rays belong to the caller
            ray.o[0] += 5.
            ray.d[1] += 5.
            rd.rxOrigin[0] += 3.
            rd.rxDirection[1] -= 2.
            r2, d2 = cam.generate_ray(s)[1], cam.generate_ray_differential(s)[1]
            d["again"] = rr(r2) == d["ray"] and rr(d2, True) == d["rd"]
            return d
        ok, v = attempt(go)
        o = c2w(ts, geo.Point(0., 0., 0.))
        ax = [c2w(ts, geo.Vector(*[1. if k == j else 0. for k in range(3)])) for j in range(3)]
        m = [[enc(ax[j][k]) for j in range(3)] + [enc(o[k])] for k in range(3)] + [["0", "0", "0", "1"]]
        lens = mc.concentric_sample_disk(lu, lv)
        a.out.put(err="" if ok else v, m=m, px=enc(px), py=enc(py), lens=[enc(x) for x in lens], time=enc(ts), **dict(base, **(v if ok else {})))
a.out.close()
