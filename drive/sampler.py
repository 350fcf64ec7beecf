"""Exercise StratifiedSampler and its sub-samplers."""
import os, math
from common import setup, attempt, enc
a = setup()
import numpy as np
from pytracer.sampler import StratifiedSampler, Sample
from pytracer.sampler.utility import stratified_sample_1d, stratified_sample_2d
rng = a.rng
MODE = os.environ["MODE"]
TOP = 1. - 2. ** -53
def streams():
    k = rng.randrange(5)
    if k == 0:
        return lambda n=None: 0. if n is None else np.zeros(n)
    if k == 1:
        return lambda n=None: TOP if n is None else np.full(n, TOP)
    if k == 2:
        return lambda n=None: (rng.choice([0., TOP, .5]) if n is None else np.array([rng.choice([0., TOP, .5]) for _ in range(n)]))
    if k == 3:
        return None
    return lambda n=None: rng.random() if n is None else np.array([rng.random() for _ in range(n)])

def requests(most=2):
    s = Sample()
    r1 = [rng.choice([1, 2, 3, 5, 8] + [17, 40] * (most > 2)) for _ in range(rng.choice(range(most + 1)))]
    r2 = [rng.choice([1, 2, 4, 7] + [18, 36] * (most > 2)) for _ in range(rng.choice(range(most + 1)))]
    order = [("1", n) for n in r1] + [("2", n) for n in r2]
    ok = True
    c1 = c2 = 0
    for kind, n in order:
        if kind == "1":
            ok = ok and s.add_1d(n) == c1
            c1 += 1
        else:
            ok = ok and s.add_2d(n) == c2
            c2 += 1
    s.oneD, s.twoD = [None] * c1, [None] * c2
    return s, r1, r2, ok

def window(big=False):
    xs, ys = rng.choice([0, 0, 3, -2, 7]), rng.choice([0, 0, 1, -3])
    dx = rng.choice([1, 2, 3, 5, 8] + ([13, 30] if big else []))
    dy = rng.choice([1, 2, 3, 4, 9] + ([20, 33] if big else []))
    return [xs, xs + dx, ys, ys + dy]

def gen(smp, samples, stream):
    return smp.generate(samples) if stream is None else smp.generate(samples, stream)

def shared(samples):
    """does changing one sample's values change another's (or another of its own)?"""
    cells = [(s, name) for s in samples for name in ("oneD", "twoD")]
    def look():
        return [[[float(x) for x in np.ravel(q)] for q in getattr(s, name)] for s, name in cells]
    for k, (s, name) in enumerate(cells):
        for j, q in enumerate(getattr(s, name)):
            before = look()
            q[0] = np.asarray(q[0]) * 0 - 7.
            now = look()
            del before[k][j], now[k][j]
            if now != before:
                return True
    return False

def scan(size=""):
    w = window()
    nx, ny = rng.choice([(1, 1), (2, 2), (1, 3), (4, 1), (3, 2), (2, 1), (3, 3)])
    if size == "wide":      # a window of several hundred pixels
        w, nx, ny = window(True), 1, rng.choice([1, 2])
        w[1], w[3] = w[0] + rng.choice([13, 30, 47]), w[2] + rng.choice([14, 20])
    elif size:              # many strata, many and long patterns
        w[1], w[3] = w[0] + rng.choice([1, 2]), w[2] + rng.choice([1, 2])
        nx, ny = rng.choice([(4, 5), (5, 4), (6, 6), (1, 20), (18, 1), (8, 4)]) if size == "strata" else rng.choice([(1, 1), (2, 1), (2, 2)])
    jitter = rng.random() < .65
    o = rng.choice([0., 0., 1.5, -2.])
    c = o + rng.choice([0., 1., .25, 10.])
    proto, r1, r2, ok0 = requests(7 if size == "patterns" else 0 if size == "wide" else 2)
    stream = streams()
    rec = dict(op="scan", cls="scan/%dx%d/%s" % (nx, ny, "jitter" if jitter else "centre"), sig="stratified", win=w, nx=nx, ny=ny, jitter=jitter,
               open=enc(o), close=enc(c), req1=r1, req2=r2, gen=[], after=[], shared=False, err="" if ok0 else "request indices", maxcnt=0, spp=0)
    def run():
        smp = StratifiedSampler(w[0], w[1], w[2], w[3], nx, ny, jitter, o, c)
        rec["maxcnt"], rec["spp"] = int(smp.maximum_sample_cnt()), int(smp.spp)
        samples = proto.duplicate(smp.maximum_sample_cnt())
        limit = (w[1] - w[0]) * (w[3] - w[2]) + 3
        for _ in range(limit):
            more = gen(smp, samples, stream)
            if not more:
                break
            rec["gen"].append(dict(more=bool(more), img=[[enc(s.imageX), enc(s.imageY)] for s in samples], lens=[[enc(s.lens_u), enc(s.lens_v)] for s in samples],
                                   time=[enc(s.time) for s in samples], one=[[[enc(v) for v in q] for q in s.oneD] for s in samples],
                                   two=[[[[enc(v[0]), enc(v[1])] for v in q] for q in s.twoD] for s in samples]))
        rec["shared"] = shared(samples) if rec["gen"] else False
        rec["after"] = [bool(gen(smp, samples, stream)) for _ in range(3)]
    ok, v = attempt(run)
    if not ok:
        rec["err"] = v
    a.out.put(**rec)

def tiles():
    w = window(True)
    if rng.random() < .3:   # as large as real frames
        w = [w[0], w[0] + rng.choice([64, 100, 257, 640, 1920]), w[2], w[2] + rng.choice([1, 48, 100, 480, 1080])]
    nx, ny = rng.choice([(1, 1), (2, 1), (1, 3)])
    cnt = rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 32, 64, rng.choice([7, 24, 100, 128, 256])])
    jitter, o, c = rng.random() < .5, 0., rng.choice([0., 2.])
    rec = dict(op="tiles", cls="tiles/%d" % cnt, sig="subsampler", win=w, cnt=cnt, tiles=[], ints=True, visited=[], same=True, err="")
    def run():
        smp = StratifiedSampler(w[0], w[1], w[2], w[3], nx, ny, jitter, o, c)
        subs = [smp.get_subsampler(k, cnt) for k in range(cnt)]
        for s in subs:
            if s is None:
                rec["tiles"].append([])
                continue
            t = [s.xPixel_start, s.xPixel_end, s.yPixel_start, s.yPixel_end]
            rec["ints"] = rec["ints"] and all(float(v) == math.floor(v) for v in t)
            rec["tiles"].append([int(v) for v in t])
            rec["same"] = rec["same"] and (s.xSamples, s.ySamples, bool(s.jitter), s.s_open, s.s_close, s.spp) == (nx, ny, jitter, o, c, nx * ny)
        if rec["ints"] and (w[1] - w[0]) * (w[3] - w[2]) <= 60:
            order = [s for s in subs if s is not None]
            rng.shuffle(order)
            for s in order:
                samples = Sample().duplicate(s.maximum_sample_cnt())
                n = 0
                while s.generate(samples) and n < 500:
                    n += 1
                    rec["visited"].append([int(math.floor(min(p.imageX for p in samples))), int(math.floor(min(p.imageY for p in samples)))])
                    if not (all(o <= p.time <= c for p in samples) and len(samples) == nx * ny):
                        rec["same"] = False
                    if jitter and len(samples) == 1 and samples[0].imageX % 1 == .5:
                        rec["same"] = False
                    if not jitter and len(samples) == 1 and samples[0].imageX % 1 != .5:
                        rec["same"] = False
    ok, v = attempt(run)
    if not ok:
        rec["err"] = v
    a.out.put(**rec)
def pairs():
    """how often each stratum of one pattern meets each stratum of another over many pixels, and where in its stratum a value lies"""
    nx, ny = rng.choice([(2, 2), (1, 3), (3, 1), (2, 1), (3, 2)])
    n, m, q = nx * ny, rng.choice([1, 2, 3, 4]), rng.choice([1, 2, 3, 4])
    W, H = (16, 16) if a.quick else (32, 32)
    x0, y0 = rng.choice([0, 5, -3]), rng.choice([0, 2])
    T = {}
    def see(name, i, I, j, J):
        t = T.setdefault(name, [[0] * J for _ in range(I)])
        t[min(I - 1, max(0, int(i)))][min(J - 1, max(0, int(j)))] += 1
    def inside(name, v, N):
        v = float(v) * N
        k = min(N - 1, int(v))
        see(name + "-uniform-in-its-stratum", k, N, (v - k) * 4, 4)
        return k
    def go():
        T.clear()
        proto = Sample()
        i1, i2 = proto.add_1d(m), proto.add_2d(q)
        proto.oneD, proto.twoD = [None], [None]
        smp = StratifiedSampler(x0, x0 + W, y0, y0 + H, nx, ny, True, 0., 1.)
        ss = proto.duplicate(smp.maximum_sample_cnt())
        while smp.generate(ss):
            for s in ss:
                fx, fy = float(s.imageX) % 1., float(s.imageY) % 1.
                im = inside("image-x", fx, nx) + nx * inside("image-y", fy, ny)
                le = inside("lens-u", s.lens_u, nx) + nx * inside("lens-v", s.lens_v, ny)
                ti = inside("time", s.time, n)
                see("image-with-lens", im, n, le, n)
                see("image-with-time", im, n, ti, n)
                see("lens-with-time", le, n, ti, n)
                for j, v in enumerate(s.oneD[i1]):
                    see("latin-1d-order", j, m, inside("latin-1d", v, m), m)
                for v in s.twoD[i2]:
                    see("latin-2d-axes", inside("latin-2d-x", v[0], q), q, inside("latin-2d-y", v[1], q), q)
        for _ in range(300):
            for v in stratified_sample_1d(3):
                inside("stratified-1d", v, 3)
            for v in stratified_sample_2d(2, 3):
                inside("stratified-2d-x", v[0], 2)
                inside("stratified-2d-y", v[1], 3)
        return T
    ok, v = attempt(go, 100)
    for name in sorted(T if ok else ["pairs"]):
        a.out.put(op="pair", cls="pair/" + name, sig=name, err="" if ok else v, cnt=T[name] if ok else [])

k = 1 if a.quick else 12
if MODE == "P11":
    for _ in range(30 * k):
        scan()
    for size in ("wide", "strata", "patterns", "patterns") * (1 if a.quick else 6):
        scan(size)
    for _ in range(2 if a.quick else 6):
        pairs()
else:
    for _ in range(60 * k):
        tiles()
a.out.close()
