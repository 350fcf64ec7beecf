"""Exercise spectra and their conversions (P31)."""
import os
os.environ.setdefault("MODE", "P31")
from common import setup, attempt, enc, vec
a = setup()
rng = a.rng
import operator
import numpy as np
from pytracer.spectral import spectrum as sp
from pytracer.spectral.spectrum import CoefficientSpectrum, SampledSpectrum, RGBSpectrum, SpectrumType, xyz2rgb, rgb2xyz
import pytracer.data.spectral as tables
U = rng.uniform
def al(v):
    return [enc(float(x)) for x in v]
def num(pos=False):
    x = rng.choice([0., 1., .5, U(0, 1), U(0, 20), 1e-3, 1e3])
    return x if pos or rng.random() < .7 else -x
KIND = {"rgb": (RGBSpectrum, 3), "s30": (SampledSpectrum, 30), "s3": (SampledSpectrum, 3), "c1": (CoefficientSpectrum, 1), "c4": (CoefficientSpectrum, 4)}
def make(kind, vals):
    cls, n = KIND[kind]
    if cls is CoefficientSpectrum:
        s = CoefficientSpectrum(n)
        for k in range(n):
            s[k] = vals[k]
        return s
    return cls(np.array(vals)) if rng.random() < .5 else cls.create_from_list(list(vals))
OPS = {"add": operator.add, "sub": operator.sub, "mul": operator.mul, "div": operator.truediv, "iadd": operator.iadd, "isub": operator.isub, "imul": operator.imul, "idiv": operator.itruediv}
SC = {"smul": lambda x, s: x * s, "rsmul": lambda x, s: s * x, "sdiv": lambda x, s: x / s, "ismul": operator.imul, "isdiv": operator.itruediv}

def arith(n):
    for _ in range(n):
        kind = rng.choice(list(KIND))
        cls, m = KIND[kind]
        k = rng.choice(list(OPS) + list(SC) + ["neg", "lerp", "lerp", "sqrt", "exp", "pow", "clip", "copy"])
        av = [num(k in ("sqrt", "pow")) for _ in range(m)]
        bv = [num() for _ in range(m)]
        s, s2 = num(), 0.
        if k in ("div", "idiv"):
            bv = [x if x != 0 else 2. for x in bv]
        if k in ("sdiv", "isdiv") and s == 0:
            s = 4.
        if k == "exp":
            av = [max(-5., min(5., x)) for x in av]
        if k == "pow":
            s = rng.choice([0., 1., 2., 3., .5, U(0, 3)])
        if k == "lerp":
            s = rng.choice([0., 1., .5, U(0, 1), U(-1, 2)])
        if k == "clip":
            s, s2 = sorted([num(), num()])
        x, y = make(kind, av), make(kind, bv)
        def go():
            if k in OPS:
                z = OPS[k](x, y)
            elif k in SC:
                z = SC[k](x, s)
            elif k == "neg":
                z = -x
            elif k == "lerp":
                z = x.lerp(s, y)
            elif k == "clip":
                z = x.clip(s, s2)
            elif k == "pow":
                z = x.pow(s)
            else:
                z = getattr(x, k)()
            out = dict(res=al(z), a2=al(x), b2=al(y), typeok=type(z) is cls, apart=True)
            if k[0] != "i" or k == "neg":
                z[0] = 77.
                out["apart"] = al(x) == out["a2"] and al(y) == out["b2"]
            return out
        ok, v = attempt(go)
        a.out.put(op="arith", cls="arith/%s/%s" % (k, kind), sig="spectrum", k=k, a=al(av), b=al(bv), s=enc(s), s2=enc(s2), err="" if ok else v, **(v if ok else {}))
def reject(n):
    for _ in range(n):
        ka, kb = rng.choice([("rgb", "s30"), ("s30", "rgb"), ("c4", "rgb"), ("rgb", "c4"), ("s30", "c4")])
        k = rng.choice(list(OPS) + ["lerp"])
        av, bv = [U(1, 2) for _ in range(KIND[ka][1])], [U(1, 2) for _ in range(KIND[kb][1])]
        x, y = make(ka, av), make(kb, bv)
        ok, v = attempt((lambda: x.lerp(.5, y)) if k == "lerp" else (lambda: OPS[k](x, y)))
        a.out.put(op="reject", cls="reject/%s" % k, sig="spectrum", err="" if ok else v, a=al(av), b=al(bv), a2=al(x), b2=al(y))
def query(n):
    for _ in range(n):
        kind = rng.choice(list(KIND))
        m = KIND[kind][1]
        av = [rng.choice([0., 0., num()]) for _ in range(m)]
        t = rng.random()
        if t < .35:
            av = [0.] * m
            if t < .25:
                av[rng.randrange(m)] = rng.choice([1., -1., U(-3, 3), .01, -.01, float("nan"), float("inf")])
        elif t < .45:
            av[rng.randrange(m)] = float("nan")
        elif t < .6 and m > 1:
            i, j = rng.sample(range(m), 2)
            av[i], av[j] = rng.choice([(float("inf"), float("-inf")), (float("nan"), float("inf")), (float("inf"), float("inf")), (1e308, 1e308), (1e200, -1e200)])
        bv = list(av) if rng.random() < .5 else [num() for _ in range(m)]
        if rng.random() < .3:
            bv[rng.randrange(m)] += 1.
        def go():
            x, y = make(kind, av), make(kind, bv)
            z = x.copy()
            return dict(nan=bool(x.has_nans()), black=bool(x.is_black()), eq=bool(x == y), ne=bool(x != y), same=bool(x == z) and not bool(x != z), n=int(x.n_samples))
        ok, v = attempt(go)
        a.out.put(op="query", cls="query/" + kind, sig="spectrum", a=al(av), b=al(bv), err="" if ok else v, **(v if ok else {}))
def conv(n):
    for _ in range(n):
        av = [num() for _ in range(3)]
        def go():
            x = RGBSpectrum(np.array(av))
            xyz = rng.choice([rgb2xyz, lambda c: rgb2xyz(list(c))])(x)
            tp = rng.choice(list(SpectrumType))
            for z in (x.to_rgb(), x.to_xyz(), x.copy(), RGBSpectrum.from_rgb(x, tp), RGBSpectrum.from_xyz(x, tp), RGBSpectrum.create(x)):
                z[0] = 77.
            return dict(xyz=vec(xyz), xyz2=vec(x.to_xyz()), back=vec(xyz2rgb(xyz)), back2=vec(RGBSpectrum.from_xyz(x.to_xyz(), tp)), fwd=vec(rgb2xyz(xyz2rgb(av))), y=enc(x.y()),
                        rgb=vec(x.to_rgb()), frgb=vec(RGBSpectrum.from_rgb(av, tp)), a2=vec(x))
        ok, v = attempt(go)
        a.out.put(op="conv", cls="conv/rgb", sig="spectrum", a=al(av), err="" if ok else v, **(v if ok else {}))
def create(n):
    for _ in range(n):
        kind = rng.choice(["rgb", "rgb", "s30", "c4"])
        cls, m = KIND[kind]
        how = rng.choice(["list", "intlist", "array", "intarray", "spectrum", "from_list", "from_array", "tuple", "scalar", "short", "grid", "string"])
        vals = [float(rng.randrange(9)) for _ in range(m)] if how.startswith("int") or how == "scalar" else [num() for _ in range(m)]
        good = how not in ("short", "grid", "string")
        if how == "short" and kind != "rgb":
            how, good = "list", True
        if how == "scalar" and kind != "rgb":
            how = "list"
        src = list(vals)
        def go():
            nonlocal src
            if how == "list" or how == "tuple":
                src = list(vals) if how == "list" else tuple(vals)
                z = cls.create(src)
            elif how == "intlist":
                src = [int(x) for x in vals]
                z = cls.create(src) if rng.random() < .5 else cls.create_from_list(src)
            elif how in ("array", "intarray"):
                src = np.array([int(x) for x in vals]) if how == "intarray" else np.array(vals)
                z = cls.create(src) if rng.random() < .5 else cls.create_from_array(src)
            elif how == "spectrum":
                src = make(kind, vals)
                z = cls.create(src)
            elif how == "from_list":
                z = cls.create_from_list(src)
            elif how == "from_array":
                src = np.array(vals)
                z = cls.create_from_array(src)
            elif how == "scalar":
                v = rng.choice([0, 1, 3, .5])
                vals[:] = [float(v)] * 3
                z = cls(v)
                src = None
            elif how == "short":
                z = cls.create([1., 2.])
            elif how == "grid":
                z = cls.create(np.zeros([2, 3]))
            else:
                z = cls.create(None)
            out = dict(res=al(z), typeok=type(z) is cls, apart=True)
            z /= 2.
            out["half"] = al(z)
            if src is not None and good:
                out["apart"] = al(src) == al(vals)
            return out
        ok, v = attempt(go)
        a.out.put(op="create", cls="create/%s/%s" % (how, kind), sig="spectrum", good=good, a=al(vals), err="" if ok else v, **(v if ok else {}))
def table(lo, hi):
    n = rng.choice([1, 1, 2, 3, 5, 20])
    lam = set()
    while len(lam) < n:
        lam.add(rng.choice([float(rng.randrange(int(lo), int(hi))), U(lo, hi)]))
    lam = sorted(lam)
    return lam, [num(True) for _ in lam]
def average(n):
    for _ in range(n):
        lam, v = table(0, 20)
        while True:
            ls, le = sorted([rng.choice([U(-5, 25), rng.choice(lam), float(rng.randrange(0, 20))]) for _ in range(2)])
            if le > ls:
                break
        as_arr = rng.random() < .5
        def go():
            l, w = (np.array(lam), np.array(v)) if as_arr else (list(lam), list(v))
            res = SampledSpectrum.average_spectrum_samples(l, w, ls, le)
            return dict(res=enc(res), lam2=al(l), v2=al(w))
        ok, val = attempt(go)
        inside = (ls >= lam[0]) + 2 * (le <= lam[-1])
        a.out.put(op="average", cls="average/%d/%d/%s" % (min(len(lam), 3), inside, "a" if as_arr else "l"), sig="spectrum", lam=al(lam), v=al(v), ls=enc(ls), le=enc(le), err="" if ok else val, **(val if ok else {}))
def resample(n):
    for _ in range(n):
        lam, v = table(350, 750) if rng.random() < .8 else table(500, 600)
        order = list(range(len(lam)))
        if rng.random() < .7:
            rng.shuffle(order)
        l, w = [lam[k] for k in order], [v[k] for k in order]
        as_arr = rng.random() < .5
        def go():
            x, y = (np.array(l), np.array(w)) if as_arr else (list(l), list(w))
            s = SampledSpectrum.from_sampled(x, y)
            return dict(res=al(s), keep=list(x) == l and list(y) == w)
        ok, val = attempt(go)
        a.out.put(op="resample", cls="resample/%d" % min(len(lam), 3), sig="spectrum", lam=al(lam), v=al(v), err="" if ok else val, **(val if ok else {}))
NAMES = ["White", "Cyan", "Magenta", "Yellow", "Red", "Green", "Blue"]
def builtin():
    ok, err = attempt(SampledSpectrum.init)
    if not ok:
        a.out.put(op="table", cls="table", sig="spectrum", err=err)
        return False
    todo = [("X", tables.CIE_LAMBDA, tables.CIE_X), ("Y", tables.CIE_LAMBDA, tables.CIE_Y), ("Z", tables.CIE_LAMBDA, tables.CIE_Z)]
    for k in NAMES:
        for g in ("Refl", "Illum"):
            todo.append(("rgb%s2Spect%s" % (g, k), tables.RGB2SpectLambda, getattr(tables, "RGB%s2Spect%s" % (g, k))))
    for name, lam, v in todo:
        got = getattr(SampledSpectrum, name)
        for b in range(1, 31):
            if b % a.parts != a.part and a.quick:
                continue
            keep = [k for k in range(len(lam)) if 400 + 10 * (b - 1) - 15 <= lam[k] <= 400 + 10 * b + 15]
            a.out.put(op="table", cls="table/" + name, sig="spectrum", err="", bin=b, lam=al(lam[k] for k in keep), v=al(v[k] for k in keep), res=enc(got[b - 1]))
    return True
def sampled(n):
    rows = [al(getattr(SampledSpectrum, k)) for k in "XYZ"]
    for _ in range(n):
        av = [1.] * 30 if rng.random() < .1 else [num(True) for _ in range(30)]
        def go():
            s = SampledSpectrum(np.array(av))
            return dict(xyz=vec(s.to_xyz()), y=enc(s.y()), rgb=vec(s.to_rgb()))
        ok, v = attempt(go)
        a.out.put(op="sampled", cls="sampled", sig="spectrum", a=al(av), tab=rows, err="" if ok else v, **(v if ok else {}))
def fromrgb(n):
    for _ in range(n):
        av = [rng.choice([0., 1., .5, U(0, 1), U(0, 1)]) for _ in range(3)]
        refl = rng.random() < .5
        tp = SpectrumType.REFLECTANCE if refl else SpectrumType.ILLUMINANT
        rows = [al(getattr(SampledSpectrum, "rgb%s2Spect%s" % ("Refl" if refl else "Illum", k))) for k in NAMES]
        def go():
            s = SampledSpectrum.from_rgb(av, tp)
            return dict(res=al(s), back=vec(s.to_rgb()), xres=al(SampledSpectrum.from_xyz(rgb2xyz(np.array(av)), tp)))
        ok, v = attempt(go)
        a.out.put(op="fromrgb", cls="fromrgb/%s/%s" % ("refl" if refl else "illum", "".join(str(k) for k in np.argsort(av))), sig="spectrum", refl=refl, a=al(av), tab=rows, err="" if ok else v, **(v if ok else {}))
K = 1 if a.quick else 10
arith(130 * K)
reject(15 * K)
query(40 * K)
conv(25 * K)
create(50 * K)
average(80 * K)
resample(8 * K)
if builtin():
    resample(4 * K)
    sampled(6 * K)
    fromrgb(8 * K)
a.out.close()
