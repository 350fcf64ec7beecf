"""Exercise montecarlo: distributions (MODE P27) and warps (MODE P28)."""
import os
from common import setup, attempt, enc, vec, scenarios
a = setup()
import numpy as np
import pytracer.geometry as geo
import pytracer.montecarlo as mc
rng = a.rng
U = rng.uniform
MODE = os.environ["MODE"]
LAST = 1. - 2. ** -53

def table(n):
    k = rng.random()
    if k < .3:
        f = [float(rng.choice([0, 0, 1, 2, 5])) for _ in range(n)]
    elif k < .6:
        f = [rng.choice([0., 1e-6, 1., 1e4]) for _ in range(n)]
    else:
        f = [U(0., 3.) for _ in range(n)]
    if not any(f) and rng.random() < .7:
        f[rng.randrange(n)] = 1.
    return f

def one(f, u, cls):
    ef = [enc(x) for x in f]
    def mk():
        t = list(f) if rng.random() < .5 else np.array(f, dtype=float)
        d = mc.Distribution1D(t)
        if rng.random() < .5:       # the caller goes on using its table, and the distribution
            t[:] = [7.] * len(t)
            d.sample_cont(rng.random())
            d.sample_dis(rng.random())
        return d
    ok, v = attempt(lambda: [float(x) for x in mk().sample_cont(u)])
    a.out.put(op="cont", cls="cont/" + cls, sig="distribution", f=ef, u=enc(u), err="" if ok else v, x=enc(v[0]) if ok else "", pdf=enc(v[1]) if ok else "")
    ok, v = attempt(lambda: (lambda w: (int(w[0]), float(w[1])))(mk().sample_dis(u)))
    a.out.put(op="dis", cls="dis/" + cls, sig="distribution", f=ef, u=enc(u), err="" if ok else v, k=v[0] if ok else 0, pdf=enc(v[1]) if ok else "")

def p27():
    for n in (1, 2, 5):
        one([0.] * n, rng.random(), "zero")
    for s in scenarios(a):
        one([float(x) for x in s["f"]], s["k"] / float(s["den"]), "enumerated")
    for _ in range(150 if a.quick else 3000):
        n = rng.choice([1, 2, 3, 5, 16, 50, rng.choice([70, 130])])
        f = table(n)
        u = rng.choice([0., .5, LAST, 1e-12, rng.random(), rng.random(), rng.randrange(n) / float(n)])
        one(f, u, "random")
    for it in range(150 if a.quick else 3000):
        nv, nu = rng.choice([(1, 1), (1, 4), (2, 1), (2, 2), (2, 9), (3, 2), (3, 4), (7, 1), (7, 4), (7, 9), (1, 9), (3, 9), rng.choice([(14, 5), (4, 20), (18, 18)])])
        f = [[float(rng.choice([0, 1, 2])) for _ in range(nu)] for _ in range(nv)] if it % 2 else [table(nu) for _ in range(nv)]
        if rng.random() < .3:
            f[rng.randrange(nv)] = [0.] * nu
        if rng.random() < .03:
            f = [[0.] * nu for _ in range(nv)]
        elif not any(map(any, f)):
            f[rng.randrange(nv)][rng.randrange(nu)] = 2.
        ef = [[enc(x) for x in row] for row in f]
        u0, u1 = [rng.choice([0., .5, LAST, rng.random(), rng.random(), rng.random()]) for _ in range(2)]
        def go():
            t = np.array(f, dtype=float)
            d = mc.Distribution2D(t)
            if rng.random() < .5:
                t[:] = 7.
                d.sample_cont(rng.random(), rng.random())
            (x, y), pdf = d.sample_cont(u0, u1)
            return float(x), float(y), float(pdf), float(d.pdf(x, y))
        ok, v = attempt(go)
        a.out.put(op="two", cls="two", sig="distribution2d", f=ef, u0=enc(u0), u1=enc(u1), err="" if ok else v, u=enc(v[0]) if ok else "",
                  v=enc(v[1]) if ok else "", pdf=enc(v[2]) if ok else "", q=enc(v[3]) if ok else "")
        x, y = rng.random(), rng.random()
        ok, v = attempt(lambda: float(mc.Distribution2D(np.array(f, dtype=float)).pdf(x, y)))
        a.out.put(op="query", cls="query", sig="distribution2d", f=ef, u=enc(x), v=enc(y), err="" if ok else v, q=enc(v) if ok else "")

def unit():
    while True:
        v = geo.Vector(U(-1, 1), U(-1, 1), U(-1, 1))
        if rng.random() < .3:
            v = geo.Vector(*rng.choice([(0., 0., 1.), (0., 0., -1.), (1., 0., 0.), (0., -1., 0.), (.6, .8, 0.)]))
        if v.length() > .1:
            return geo.normalize(v)

def kinds():
    flat = lambda p: (float(p[0]), float(p[1]), 0.)
    tri = lambda v: tuple(float(x) for x in v)
    up = geo.Vector(0., 0., 1.)
    out = [("disk", "uniform_sample_disk", lambda x, y: flat(mc.uniform_sample_disk(x, y)), None, {}),
           ("disk", "concentric_sample_disk", lambda x, y: flat(mc.concentric_sample_disk(x, y)), None, {}),
           ("triangle", "uniform_sample_triangle", lambda x, y: flat(mc.uniform_sample_triangle(x, y)), None, {}),
           ("hemi", "uniform_sample_hemisphere", lambda x, y: tri(mc.uniform_sample_hemisphere(x, y)), lambda p: mc.uniform_hemisphere_pdf(), {}),
           ("sphere", "uniform_sample_sphere", lambda x, y: tri(mc.uniform_sample_sphere(x, y)), lambda p: mc.uniform_sphere_pdf(), {}),
           ("cos", "cosine_sample_hemisphere", lambda x, y: tri(mc.cosine_sample_hemisphere(x, y)), lambda p: mc.cosine_hemisphere_pdf(p[2], 0.), {})]
    ct = rng.choice([-.5, 0., .25, .9, .999, U(-.9, .95), 1. - 2. ** -U(8, 20)])
    out.append(("cone", "uniform_sample_cone", lambda x, y: tri(mc.uniform_sample_cone(x, y, ct)), lambda p: mc.uniform_cone_pdf(ct), dict(ct=enc(ct), ax=vec(up))))
    w = unit()
    ok, fr = attempt(lambda: geo.coordinate_system(w))
    if ok:
        z, x1, y1 = fr
        out.append(("cone", "uniform_sample_cone/frame", lambda x, y: tri(mc.uniform_sample_cone(x, y, ct, x1, y1, z)), lambda p: mc.uniform_cone_pdf(ct), dict(ct=enc(ct), ax=vec(w), fr=(x1, y1))))
    g = rng.choice([0., .5, -.5, .9, -.8, U(-.9, .9), 1e-7, .005, -.009, .02])
    out.append(("hg", "sample_hg", lambda x, y: tri(mc.sample_hg(w, g, x, y)), lambda p: mc.hg_pdf(w, geo.Vector(*p), g), dict(g=enc(g), ax=vec(w), fr=tuple(fr[1:]) if ok else None)))
    return out

def p28():
    H = 2. ** -16
    for _ in range(40 if a.quick else 600):
        for kind, name, fn, pdf, ex in kinds():
            ex = dict((k, v) for k, v in ex.items() if k != "fr")
            for _r in range(2):
                u1, u2 = U(.01, .99), U(.01, .99)
                def go():
                    p = fn(u1, u2)
                    return dict(p=vec(p), a=vec(fn(u1 - H, u2)), b=vec(fn(u1 + H, u2)), c=vec(fn(u1, u2 - H)), d=vec(fn(u1, u2 + H)), pdf="" if pdf is None else enc(pdf(p)))
                ok, v = attempt(go)
                a.out.put(op="warp", cls="warp/" + name, sig=name, kind=kind, h=enc(H), err="" if ok else v, **dict(ex, **(v if ok else {})))
            u1, u2 = rng.choice([0., .5, LAST, rng.random()]), rng.choice([0., .5, .25, LAST, rng.random()])
            def edge():
                p = fn(u1, u2)
                return dict(p=vec(p), a=vec(p), b=vec(p), c=vec(p), d=["1000", "0", "0"], pdf="")
            ok, v = attempt(edge)
            a.out.put(op="warp", cls="edge/" + name, sig=name, kind=kind, h=enc(H), err="" if ok else v, **dict(ex, **(v if ok else {})))
        f, g = rng.choice([0., 1e-6, .5, U(0, 9)]), rng.choice([1., 1e-4, U(0, 9)])
        nf, ng = rng.choice([1, 2, 7]), rng.choice([1, 3])
        ok, v = attempt(lambda: dict(b1=enc(mc.balance_heuristic(nf, f, ng, g)), b2=enc(mc.balance_heuristic(ng, g, nf, f)), p1=enc(mc.power_heuristic(nf, f, ng, g)), p2=enc(mc.power_heuristic(ng, g, nf, f))))
        a.out.put(op="heur", cls="heur", sig="heuristics", nf=nf, ng=ng, fp=enc(f), gp=enc(g), err="" if ok else v, **(v if ok else {}))
    N = 40
    for _ in range(1 if a.quick else 12):
        for kind, name, fn, pdf, ex in kinds():
            fr = ex.get("fr")
            ax = [float.fromhex(x) for x in ex["ax"]] if "ax" in ex else [0., 0., 1.]
            ex = dict((k, v) for k, v in ex.items() if k != "fr")
            ok, pts = attempt(lambda: [fn((i + .5) / N, (j + .5) / N) for i in range(N) for j in range(N)])
            if not ok:
                a.out.put(op="strip", cls="strip/" + name, sig=name, kind=kind, fn="half", c="0", n=1, err=pts, **dict(ex, **{"in": 0}))
                continue
            if kind == "rejection":
                pass
            fx = (lambda p: p[0]) if fr is None else (lambda p: sum(p[k] * fr[0][k] for k in range(3)))
            fy = (lambda p: p[1]) if fr is None else (lambda p: sum(p[k] * fr[1][k] for k in range(3)))
            axis = lambda p: sum(p[k] * ax[k] for k in range(3))
            tests = []
            if kind == "triangle":
                for c in (.1, .3, .6, .85):
                    tests += [("axis", c, lambda p, c=c: p[0] <= c), ("second", c, lambda p, c=c: p[1] <= c), ("second", c, lambda p, c=c: 1. - p[0] - p[1] <= c)]
            else:
                e = 1e-9
                tests += [("half", 0., lambda p: fx(p) <= e), ("half", 0., lambda p: fy(p) <= e), ("quadrant", 0., lambda p: fx(p) <= 0. and fy(p) > 0.), ("quadrant", 0., lambda p: fx(p) > 0. and fy(p) > 0.),
                          ("half", 0., lambda p: abs(fx(p)) <= abs(fy(p))), ("quadrant", 0., lambda p: 0. < fx(p) and abs(fy(p)) <= fx(p))]
                ct = float.fromhex(ex["ct"]) if "ct" in ex else None
                cs = {"sphere": [-.8, -.3, .2, .7], "hg": [-.8, -.3, .2, .7], "hemi": [.1, .4, .8], "disk": [.2, .5, .8], "cos": [.2, .5, .8]}.get(kind) or [ct + (1 - ct) * q for q in (.1, .4, .75)]
                for c in cs:
                    tests.append(("axis", c, (lambda p, c=c: (p[0] ** 2 + p[1] ** 2) ** .5 <= c) if kind in ("disk", "cos") else (lambda p, c=c: axis(p) <= c)))
                if kind in ("sphere", "hemi"):
                    tests += [("side", c, lambda p, c=c: fx(p) <= c) for c in (-.7, -.2, .4)] + [("side", c, lambda p, c=c: fy(p) <= c) for c in (-.6, .3)]
            for f, c, t in tests:
                a.out.put(op="strip", cls="strip/" + name, sig=name, kind=kind, fn=f, c=enc(c), n=N * N, err="", **dict(ex, **{"in": sum(1 for p in pts if t(p))}))
    for _ in range(60):
        seq = [rng.random() for _ in range(64)]
        it = iter(seq)
        ok, p = attempt(lambda: tuple(float(x) for x in mc.rejection_sample_disk(lambda: next(it))))
        P = vec((p[0], p[1], 0.)) if ok else None
        a.out.put(op="warp", cls="edge/rejection_sample_disk", sig="rejection_sample_disk", kind="disk", h=enc(H), err="" if ok else p, **(dict(p=P, a=P, b=P, c=P, d=["1000", "0", "0"], pdf="") if ok else {}))

(p27 if MODE == "P27" else p28)()
a.out.close()
