"""Call the numeric helpers with ordinary and borderline arguments."""
from common import setup, attempt, enc
a = setup()
import numpy as np
import pytracer.utility as util
import pytracer.utility.utility as util0
from pytracer import Spectrum, FLOAT, INT, EPS
rng = a.rng
U = rng.uniform
def num():
    k = rng.randrange(6)
    if k == 0: return float(rng.randrange(-5, 6))
    if k == 1: return rng.randrange(-9, 10) + .5
    if k == 2: return 10. ** U(-12, 6) * rng.choice([1., -1.])
    if k == 3: return 1. + rng.choice([1., -1.]) * 10. ** U(-9, -2)
    if k == 4: return rng.choice([1., -1.]) * 10. ** U(-9, -2)
    return U(-4, 4)
def put(fn, go, **rec):
    ok, v = attempt(go)
    a.out.put(op="util", fn=fn, cls=fn, sig=fn, err="" if ok else v, **dict(rec, **(v if ok else {})))
whole = lambda v: isinstance(v, (int, np.integer))
for _ in range(160 * (1 if a.quick else 20)):
    x = num()
    y = rng.choice([num(), x, x + rng.choice([1., -1.]) * 10. ** U(-9, -1)])
    wrap = rng.choice([float, FLOAT])
    put("near", lambda: dict(eq1=bool(util.eq_unity(wrap(x))), ne1=bool(util.ne_unity(wrap(x))), eq0=bool(util0.is_zero(wrap(x - 1.))), ne0=bool(util0.not_zero(wrap(x - 1.))), feq=bool(util.feq(wrap(x), wrap(y)))), x=enc(x), y=enc(y), x0=enc(x - 1.))
    if rng.random() < .1:
        x = rng.choice([1., -1.]) * U(1., 9.) * 10. ** rng.randrange(6, 15)
    if True:
        put("round", lambda: (lambda f, c, r: dict(floor=enc(f), ceil=enc(c), round=enc(r), ints=whole(f) and whole(c) and whole(r)))(util.ftoi(wrap(x)), util.ctoi(wrap(x)), util.rtoi(wrap(x))), x=enc(x))
    n = rng.choice([1, 2, 5])
    t, p, q = rng.choice([0., 1., .5, U(0, 1), U(-1, 2)]), [num() for _ in range(n)], [num() for _ in range(n)]
    put("lerp", lambda: dict(got=enc(util.lerp(wrap(t), wrap(p[0]), wrap(q[0]))), arr=[enc(v) for v in util.ufunc_lerp(t, np.array(p), np.array(q))]),
        t=enc(t), a=[enc(v) for v in p], b=[enc(v) for v in q])
    k = rng.choice([rng.randrange(1, 70), 2 ** rng.randrange(0, 20), 2 ** rng.randrange(2, 20) + rng.choice([1, -1]), rng.randrange(1, 100000), 2 ** rng.randrange(20, 62) + rng.choice([0, 1, -1, 2]), rng.randrange(1, 2 ** rng.randrange(20, 62))])
    ityp = rng.choice([int, INT])
    put("pow2", lambda: dict(zip(("is", "next", "round"), (bool(util.is_pow_2(ityp(k))), enc(int(util.next_pow_2(ityp(k)))), enc(int(util.round_pow_2(ityp(k))))))), x=enc(k))
    lo = rng.choice([0., U(-2, 1), .25])
    hi = lo + rng.choice([0., U(0, 3), 1.])
    col = [num() for _ in range(3)]
    typ = rng.choice([float, FLOAT, int, INT])
    xx = typ(x) if abs(x) < 1e6 else typ(3)
    put("clip", lambda: (lambda g, d: dict(got=enc(float(g)), dflt=enc(float(d)), type=isinstance(d, np.integer) or isinstance(d, int) if typ in (int, INT) else isinstance(d, float),
        scol=[enc(v) for v in util.clip(Spectrum(col), lo, hi)]))(util.clip(xx if typ in (float, FLOAT) else float(xx), lo, hi), util.clip(xx)), x=enc(float(xx)), lo=enc(lo), hi=enc(hi), col=[enc(v) for v in col])
    s = rng.choice([10. ** U(-9, -3), 1., 0., 3e-6])
    col = [rng.choice([1., -1., 0.]) * s, rng.choice([1., -1., 0.]) * s * rng.choice([1., .1, 10.]), rng.choice([0., 1., -1.]) * s]
    put("black", lambda: dict(one=bool(util.is_black(wrap(col[0]))), all=bool(util.is_black(rng.choice([Spectrum, np.array])(col)))), col=[enc(v) for v in col])
a.out.close()
