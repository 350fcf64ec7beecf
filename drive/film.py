"""Exercise ImageFilm: samples, splats, crop windows, sample extents, written images.  MODE selects the group."""
import os, sys
from common import setup, attempt, enc, vec
a = setup()
import numpy as np
from pytracer.film import ImageFilm
from pytracer.filter import Filter, BoxFilter, TriangleFilter, GaussianFilter, MitchellFilter, LanczosSincFilter
from pytracer.spectral import Spectrum, rgb2xyz, xyz2rgb
rng = a.rng
MODE = os.environ["MODE"]
SCR = os.path.join(os.environ["VERIF_SCRATCH"], "img%d" % a.part)
os.makedirs(SCR, exist_ok=True)

class Poly(Filter):
    """a stand-in filter whose value tells x from y"""
    def __init__(self, xw, yw, co):
        super(Poly, self).__init__(xw, yw)
        self.co = co
    def __call__(self, x, y):
        c = self.co
        return c[0] + c[1] * x + c[2] * y + c[3] * x * y

class Sample(object):
    def __init__(self, x, y):
        self.imageX, self.imageY = x, y
        self.lens_u = self.lens_v = self.time = 0.

DY = [.125, .25, .5, .75, 1., 1.5, 2., 2.5, 3.]
def mkfilter(big=True):
    kind = rng.choice(["poly", "poly", "box", "triangle", "gauss", "mitchell", "sinc"])
    dyadic = rng.random() < .7
    pick = lambda: rng.choice(DY * 3 + [4., 5.5, 8.] if big else DY[:6]) if dyadic else rng.uniform(.1, 2.6)
    xw, yw = pick(), pick()
    if kind == "poly":
        co = [rng.choice([.5, 1., 2.]), rng.choice([.25, .5, 3.]), rng.choice([1., 1.5, 7.]), rng.choice([0., .5, -.25])]
        return Poly(xw, yw, co), dict(kind="poly", xw=enc(xw), yw=enc(yw), co=[enc(c) for c in co]), dyadic
    if kind == "box":
        return BoxFilter(xw, yw), dict(kind="box", xw=enc(xw), yw=enc(yw)), dyadic
    if kind == "triangle":
        return TriangleFilter(xw, yw), dict(kind="triangle", xw=enc(xw), yw=enc(yw)), dyadic
    f = GaussianFilter(xw, yw, rng.choice([.5, 2.])) if kind == "gauss" else MitchellFilter(1. / 3, 1. / 3, xw, yw) if kind == "mitchell" else LanczosSincFilter(xw, yw, 3.)
    tbl = [[enc(float(f((x + .5) * (xw / 16), (y + .5) * (yw / 16)))) for x in range(16)] for y in range(16)]
    return f, dict(kind="table", xw=enc(xw), yw=enc(yw), tbl=tbl), dyadic

def mkcrop():
    c = [0., 1., 0., 1.]
    if rng.random() < .65:
        for k in (0, 2):
            lo = rng.choice([0., .125, .25, .3, .5, .6])
            c[k], c[k + 1] = lo, min(1., lo + rng.choice([.05, .25, .4, .5]))
        if rng.random() < .3:       # a strip: the whole of one axis
            k = rng.choice([0, 2])
            c[k], c[k + 1] = 0., 1.
    return c

def snap(film):
    xs, xe, ys, ye = [int(v) for v in film.get_pixel_extent()]
    out = {}
    for i in range(xe - xs):
        for j in range(ye - ys):
            p = film.pixels[i][j]
            out[(xs + i, ys + j)] = (float(p.weight_sum),) + tuple(float(v) for v in p.Lxyz) + tuple(float(v) for v in p.splatXYZ)
    return out

def position(film, dyadic):
    xs, xe, ys, ye = [int(v) for v in film.get_pixel_extent()]
    mx, my = film.filter.xw + 1.5, film.filter.yw + 1.5
    q = rng.random()
    def one(lo, hi, m):
        if dyadic:
            v = rng.randrange(int((lo - m) * 8), int((hi + m) * 8) + 1) / 8.
            return float(round(v * 2) / 2.) if q < .4 else v
        return rng.uniform(lo - m, hi + m)
    return one(xs, xe, mx), one(ys, ye, my)

def colour():
    return Spectrum([rng.choice([0., .25, .5, 1., 2., 3.5, rng.uniform(0, 4)]) for _ in range(3)])

def apply(film, kind, x, y, L):
    s = Sample(x, y)
    if kind == "add":
        film.add_sample(s, L)
    else:
        film.splat(s, L)

def history():
    f, desc, dyadic = mkfilter()
    xr, yr = rng.choice([(1, 1), (4, 4), (5, 3), (3, 7), (8, 2), (6, 6)])
    crop = mkcrop()
    sig = "film"
    ok, film = attempt(lambda: ImageFilm(xr, yr, f, crop, os.path.join(SCR, "h.png")))
    rec = dict(op="hist", cls="hist/%s/%s" % (type(f).__name__, "crop" if crop != [0., 1., 0., 1.] else "full"), sig=sig, film=desc,
               tol="0" if dyadic else "1e-9", err="" if ok else film, ev=[], win=[], zero=True)
    if ok:
        rec["win"] = [int(v) for v in film.get_pixel_extent()]
        s0 = snap(film)
        rec["zero"] = all(v == 0. for p in s0.values() for v in p)
        done = []
        for _ in range(rng.randrange(3, 9)):
            kind = "splat" if rng.random() < .3 else "add"
            x, y = position(film, dyadic)
            L = colour()
            xyz = [float(v) for v in rgb2xyz(L)]
            keep = [float(v) for v in L]
            ok, v = attempt(lambda: apply(film, kind, x, y, L))
            s1 = snap(film)
            chg = [dict(x=k[0], y=k[1], pre=[enc(v) for v in s0[k]], post=[enc(v) for v in s1[k]]) for k in sorted(s1) if s1[k] != s0[k]]
            rec["ev"].append(dict(op=kind, sx=enc(x), sy=enc(y), xyz=[enc(v) for v in xyz], err="" if ok else v, chg=chg, keep=keep == [float(v) for v in L]))
            done.append((kind, x, y, keep))
            s0 = s1
        if rng.random() < .3:
            film2 = ImageFilm(xr, yr, f, crop, os.path.join(SCR, "h.png"))
            rng.shuffle(done)
            ok, v = attempt(lambda: [apply(film2, k, x, y, Spectrum(c)) for k, x, y, c in done])
            if ok:
                s2 = snap(film2)
                a.out.put(op="order", cls="order", sig=sig, a=[enc(v) for k in sorted(s0) for v in s0[k]], b=[enc(v) for k in sorted(s2) for v in s2[k]])
    a.out.put(**rec)

def extents(n):
    for _ in range(n):
        xr, yr = rng.choice([1, 2, 3, 7, 10, 16, 33, 64]), rng.choice([1, 2, 4, 5, 9, 12, 20, 50])
        if rng.random() < .1:
            xr, yr = rng.choice([(640, 2), (3, 480), (1000, 1), (257, 5), (2, 720), (1, 1100), (1920, 12), (9, 1080)])
        lo = [rng.choice([0., .1, .125, .25, 1. / 3, .5, .7, .9, .99, rng.random()]) for _ in range(2)]
        hi = [min(1., v + rng.choice([0., .01, .1, .25, .5, 1., rng.random()])) for v in lo]
        crop = [lo[0], hi[0], lo[1], hi[1]]
        f, desc, _ = mkfilter()
        ok, v = attempt(lambda: (lambda g: ([int(v) for v in g.get_pixel_extent()], [int(v) for v in g.get_sample_extent()]))(ImageFilm(xr, yr, f, crop)))
        a.out.put(op="extent", cls="extent", sig="film", xr=xr, yr=yr, crop=[enc(v) for v in crop], xw=enc(f.xw), yw=enc(f.yw),
                  err="" if ok else v, px=v[0] if ok else [], se=v[1] if ok else [])
    for _ in range(n // 3):
        n1 = rng.choice([2, 3, 4, 5])
        ax = rng.randrange(2)
        xr, yr = rng.choice([3, 5, 8, 17, 40]), rng.choice([4, 6, 7, 11, 23])
        if rng.random() < .1:
            xr, yr = (500, 2) if ax == 0 else (2, 500)
        cuts = [k / float(n1) for k in range(n1 + 1)] if rng.random() < .5 else [0.] + sorted(rng.random() for _ in range(n1 - 1)) + [1.]
        px = []
        for k in range(n1):
            crop = [cuts[k], cuts[k + 1], 0., 1.] if ax == 0 else [0., 1., cuts[k], cuts[k + 1]]
            e = [int(v) for v in ImageFilm(xr, yr, BoxFilter(.5, .5), crop).get_pixel_extent()]
            px.append(e[0:2] if ax == 0 else e[2:4])
        a.out.put(op="tiling", cls="tiling", sig="film", res=xr if ax == 0 else yr, cuts=[enc(c) for c in cuts], px=px)

def images(n):
    import PIL.Image
    cols = [[float(v) for v in xyz2rgb(e)] for e in ([1., 0., 0.], [0., 1., 0.], [0., 0., 1.])]
    m = [[enc(cols[c][k]) for c in range(3)] for k in range(3)]
    for it in range(n):
        while True:
            f, desc, dyadic = mkfilter(False)
            if type(f).__name__ in ("MitchellFilter", "LanczosSincFilter"):
                continue
            break
        if type(f) is Poly and dyadic and rng.random() < .8:
            f.co = [-rng.choice([.5, 1., 2.])] + f.co[1:]
        xr, yr = rng.choice([(1, 1), (3, 3), (4, 6), (6, 4), (5, 5), (2, 7)])
        crop = mkcrop() if rng.random() < .7 else [0., 1., 0., 1.]
        fn = os.path.join(SCR, "i%d.png" % it)
        old = np.array([[[(7 * x + 31 * y + 5 * k) % 256 for k in range(3)] for x in range(xr)] for y in range(yr)], dtype="uint8")
        if rng.random() < .9 or crop != [0., 1., 0., 1.]:
            PIL.Image.fromarray(old, mode="RGB").save(fn, "PNG")
        ok, film = attempt(lambda: ImageFilm(xr, yr, f, crop, fn))
        if not ok:
            continue
        win = [int(v) for v in film.get_pixel_extent()]
        def fill(k):
            for _ in range(k):
                x, y = position(film, dyadic)
                if rng.random() < .25:
                    film.splat(Sample(x, y), Spectrum([rng.uniform(0, 2) for _ in range(3)]))
                else:
                    film.add_sample(Sample(x, y), colour())
        ok, v = attempt(lambda: fill(rng.choice([0, 1, 6, 15])))
        if not ok:
            continue
        scale = rng.choice([None, 1., 2., .25])
        s0 = snap(film)
        write = (lambda: film.write_image()) if scale is None else (lambda: film.write_image(scale))
        ok, v = attempt(write)
        rec = dict(op="image", cls="image/%s" % ("crop" if (win[1] - win[0], win[3] - win[2]) != (xr, yr) else "full"), sig="film", xr=xr, yr=yr, win=win, m=m,
                   scale=enc(1. if scale is None else scale), err="" if ok else v, old=old.tolist(), img=[], pix=[], again=True, undisturbed=True, retsame=True)
        if ok:
            img = np.array(PIL.Image.open(fn))
            rec["img"] = img.tolist()
            rec["retsame"] = v is None or bool(np.array_equal(np.asarray(v), img))
            rec["pix"] = [[[enc(c) for c in s0[(x, y)]] for x in range(win[0], win[1])] for y in range(win[2], win[3])]
            rec["undisturbed"] = snap(film) == s0
            ok, v = attempt(write)
            rec["again"] = ok and bool(np.array_equal(np.array(PIL.Image.open(fn)), img))
        a.out.put(**rec)
        try:
            os.unlink(fn)
        except OSError:
            pass

k = 1 if a.quick else 12
if MODE == "P07":
    for _ in range(60 * k):
        history()
elif MODE == "P08":
    extents(150 * k)
else:
    images(50 * k)
a.out.close()
