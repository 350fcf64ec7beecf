"""Evaluate every reconstruction filter, on single offsets and on arrays."""
from common import setup, attempt, enc
a = setup()
import numpy as np
from pytracer.filter import BoxFilter, TriangleFilter, GaussianFilter, MitchellFilter, LanczosSincFilter
rng = a.rng
def mk():
    kind = rng.choice(["box", "triangle", "gaussian", "mitchell", "sinc"])
    xw, yw = [rng.choice([.5, 1., 2., 3., rng.uniform(.1, 4)]) for _ in range(2)]
    if kind == "box":
        return kind, xw, yw, [], BoxFilter(xw, yw)
    if kind == "triangle":
        return kind, xw, yw, [], TriangleFilter(xw, yw)
    if kind == "gaussian":
        al = rng.choice([.5, 1., 2., rng.uniform(.1, 3)])
        return kind, xw, yw, [al], GaussianFilter(xw, yw, al)
    if kind == "mitchell":
        B = rng.choice([0., 1., 1. / 3, .5, rng.random()])
        C = rng.choice([0., .5, 1. / 3, (1 - B) / 2])
        return kind, xw, yw, [B, C], MitchellFilter(B, C, xw, yw)
    tau = rng.choice([1., 2., 3., 4., rng.uniform(1, 5)])
    return kind, xw, yw, [tau], LanczosSincFilter(xw, yw, tau)
def offs(w):
    if kind in ("triangle", "gaussian", "sinc") and rng.random() < .15:      # beyond the support these kernels have died away
        return rng.choice([-1., 1.]) * w * rng.choice([1. + 2 ** -12, 1.5, 2., 3., rng.uniform(1.01, 6.)])
    # inside the support; borders, centre, integer cycles and the Mitchell knot included
    return rng.choice([-1., 1.]) * w * rng.choice([0., 2. ** -rng.uniform(4, 12), .5, .25, 1., 1. / 3, 2. / 3, .75, .5 + 2 ** -12, .5 - 2 ** -12, rng.random(), rng.random()])
for _ in range(120 if a.quick else 1500):
    kind, xw, yw, p, f = mk()
    if rng.random() < .6:
        xs, ys = [offs(xw)], [offs(yw)]
        mode = "scalar"
        t = rng.choice([float, np.float64])
        ok, v = attempt(lambda: [float(f(t(xs[0]), t(ys[0])))])
        keep = True
    else:
        n = rng.choice([1, 2, 5])
        xs, ys = [offs(xw) for _ in range(n)], [offs(yw) for _ in range(n)]
        mode = "array"
        ax, ay = np.array(xs), np.array(ys)
        ok, v = attempt(lambda: [float(q) for q in np.broadcast_to(f(ax, ay), (n,))])
        keep = list(ax) == xs and list(ay) == ys
    if kind == "mitchell":      # floating x / w may leave the support by an ulp
        pass
    a.out.put(op="filter", cls="%s/%s" % (kind, mode), sig="filter/%s" % kind, kind=kind, xw=enc(xw), yw=enc(yw), p=[enc(q) for q in p],
              x=[enc(q) for q in xs], y=[enc(q) for q in ys], err="" if ok else v, v=[enc(q) for q in v] if ok else [], keep=keep)
a.out.close()
