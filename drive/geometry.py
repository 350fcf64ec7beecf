"""Exercise transforms, animated transforms, boxes and rays.  MODE selects the group."""
import os, math
from common import setup, attempt, enc, vec, mat
a = setup()
import numpy as np
import pytracer.geometry as geo
from pytracer.transform import Transform, AnimatedTransform
import pytracer.transform.quat as quat
rng = a.rng
MODE = os.environ["MODE"]
INF = float("inf")
num = lambda s=4.: rng.choice([0., 1., -1., .5, 2., -3., rng.uniform(-s, s), rng.uniform(-s, s), rng.uniform(-s, s)])
def P(): return geo.Point(num(), num(), num())
def Vv():
    v = geo.Vector(num(), num(), num())
    return v if v.length() > 0 else geo.Vector(1., 0., 0.)
ANG = lambda: rng.choice([0., 30., 45., 90., 180., -90., 270., 360., rng.uniform(-400, 400)])
def elem():
    k = rng.choice(["translate", "scale", "rotx", "roty", "rotz", "rot", "look", "ortho", "id"])
    if k == "translate":
        v = Vv()
        return dict(k=k, v=vec(v)), Transform.translate(v)
    if k == "scale":
        s = [rng.choice([1., 2., .5, -1., 3., -.25, rng.uniform(.2, 4)]) for _ in range(3)]
        return dict(k=k, v=[enc(x) for x in s]), Transform.scale(*s)
    if k in ("rotx", "roty", "rotz"):
        g = ANG()
        return dict(k=k, a=enc(g)), getattr(Transform, "rotate_" + k[-1])(g)
    if k == "rot":
        g, v = ANG(), Vv()
        if rng.random() < .3:      # nearly, but not quite, of unit length
            v = geo.Vector(*(geo.normalize(v) * (1. + rng.choice([-1., 1.]) * 10. ** rng.uniform(-6, -1))))
        return dict(k=k, a=enc(g), v=vec(v)), Transform.rotate(g, v)
    if k == "look":
        while True:
            p, l, u = P(), P(), Vv()
            z = l - p
            if z.length() > .1 and u.cross(z).length() > .1:
                break
        return dict(k=k, pos=vec(p), look=vec(l), up=vec(u)), Transform.look_at(p, l, u)
    if k == "ortho":
        n = rng.choice([0., .5, 1.])
        f = n + rng.choice([1., 2., 10., rng.uniform(.5, 50)])
        return dict(k=k, n=enc(n), f=enc(f)), Transform.orthographic(n, f)
    return dict(k="id"), Transform()
def persp():
    fov, n = rng.uniform(20, 120), rng.choice([.01, .5, 1.])
    f = n + rng.choice([1., 10., 100.])
    return dict(k="persp", fov=enc(fov), n=enc(n), f=enc(f)), Transform.perspective(fov, n, f)
def build(n=None):
    n = n or rng.choice([1, 1, 2, 3, 4, 5])
    es, ts = zip(*[elem() for _ in range(n)])
    t = ts[0]
    if n == 3 and rng.random() < .5:
        t = ts[0] * (ts[1] * ts[2])
    else:
        for u in ts[1:]:
            t = t * u
    es = list(es)
    if rng.random() < .2:      # rows or columns of unit length, though not a rotation
        M = np.asarray(t.m)[:3, :3]
        rows = rng.random() < .6
        s = [float(1. / np.sqrt((x * x).sum())) for x in (M if rows else M.T)]
        e, u = dict(k="scale", v=[enc(x) for x in s]), Transform.scale(*s)
        es, t = ([e] + es, u * t) if rows else (es + [e], t * u)
    return es, t
def ray_rec(r, diff):
    d = dict(o=vec(r.o), d=vec(r.d), mint=enc(r.mint), maxt=enc(r.maxt), depth=r.depth, time=enc(r.time))
    if diff:
        d.update(has=bool(r.has_differentials), rxo=vec(r.rxOrigin), ryo=vec(r.ryOrigin), rxd=vec(r.rxDirection), ryd=vec(r.ryDirection))
    return d
def mkray(diff):
    mint, maxt = rng.choice([0., .5, -1.]), rng.choice([INF, 10., 3.5])
    if not diff:
        return geo.Ray(P(), Vv(), mint, maxt, rng.randrange(5), rng.choice([0., .25, 1.5]))
    r = geo.RayDifferential(P(), Vv(), mint, maxt, rng.randrange(5), rng.choice([0., .25, 1.5]))
    r.has_differentials = rng.random() < .8
    r.rxOrigin, r.ryOrigin, r.rxDirection, r.ryDirection = P(), P(), Vv(), Vv()
    return r
def mkbox(empty=0.):
    if rng.random() < empty:
        return geo.BBox()
    p, q = P(), P()
    return geo.BBox(p, q)
def box_rec(b):
    return dict(lo=vec(b.pMin), hi=vec(b.pMax))

def own(x):
    """what an operation gives is the caller's own: change it, and nothing else may change"""
    for y in ([x.o, x.d] + [getattr(x, f) for f in ("rxOrigin", "ryOrigin", "rxDirection", "ryDirection") if hasattr(x, f)] if isinstance(x, geo.Ray) else [x.pMin, x.pMax] if isinstance(x, geo.BBox) else [x]):
        for j in range(3):
            y[j] += 17.
    if isinstance(x, geo.Ray):
        x.mint, x.maxt, x.depth, x.time = -5., 99., 77, 33.
def transforms(n):
    for _ in range(n):
        def go():
            es, t = persp_build() if rng.random() < .2 else build()
            inv = rng.random() < .2
            if inv:
                t = t.inverse()
            if rng.random() < .2:
                t = t.copy()
            x = rng.random()
            if x < .3 and es[0]["k"] != "persp":    # made from matrices that stay the caller's
                M, Mi = np.array(t.m), np.array(t.m_inv)
                t = Transform(M, Mi) if x < .15 else Transform(M)
                M += 1.
                Mi *= 2.
            return es, t, inv
        def persp_build():
            e, t = persp()
            if rng.random() < .5:
                es, u = build(2)
                return [e] + es, t * u
            return [e], t
        ok, v = attempt(go)
        if not ok:
            a.out.put(op="compose", cls="compose", sig="transform", es=[], err=v, inv=False, m=[], mi=[])
            continue
        es, t, inv = v
        m, mi = mat(t.m), mat(t.m_inv)
        a.out.put(op="compose", cls="compose/%s" % (es[0]["k"] if len(es) == 1 else len(es)), sig="transform", es=es, inv=inv, m=m, mi=mi, err="")
        for _ in range(3):
            k = rng.choice(["point", "vector", "normal", "box", "box", "ray", "rd", "hand", "parr", "varr", "narr"])
            rec = dict(op="apply", cls="apply/" + k, sig="transform", k=k, m=m, mi=mi, err="", typeok=True, keep=True)
            if es[0]["k"] == "persp" and not inv:
                k = rng.choice(["point", "point", "parr", "vector"])
                rec.update(cls="apply/" + k, k=k)
            if es[0]["k"] == "persp" and k not in ("point", "vector", "parr"):
                continue
            if k in ("point", "vector", "normal", "parr", "varr", "narr"):
                kind = {"p": geo.Point, "v": geo.Vector, "n": geo.Normal}[k[0]]
                rec["k"] = {"p": "point", "v": "vector", "n": "normal"}[k[0]]
                x = kind(num(), num(), num())
                if len(es) == 1 and es[0]["k"] == "persp" and not inv and rng.random() < .5:
                    # a homogeneous weight that is close to one is still not one
                    x = kind(rng.uniform(10, 100), num(), 1. + rng.choice([-1., 1.]) * rng.uniform(1e-7, 2e-5))
                orig = list(x)
                arg = np.array(orig) if k.endswith("arr") else x
                ok, b = attempt((lambda: t(arg, dtype=kind)) if k.endswith("arr") else (lambda: t(arg)))
                rec.update(a=[enc(c) for c in orig], b=vec(b) if ok else [], err="" if ok else b, typeok=ok and isinstance(b, kind))
                if ok and isinstance(b, np.ndarray):
                    own(b)
                rec["keep"] = list(arg) == orig
                if rec["k"] == "normal" and ok:
                    ta = Vv()
                    ok2, tb = attempt(lambda: t(ta))
                    rec.update(ta=vec(ta), tb=vec(tb) if ok2 else [], err="" if ok2 else tb)
                if rec["err"] and "ValueError" in rec["err"] and es[0]["k"] == "persp":
                    continue
            elif k == "box":
                x = mkbox()
                before = box_rec(x)
                ok, b = attempt(lambda: t(x))
                rec.update(a=before, b=box_rec(b) if ok else {}, err="" if ok else b, typeok=ok and isinstance(b, geo.BBox), hasbd=False, bd={})
                if rec["typeok"]:
                    own(b)
                    rec["keep"] = box_rec(x) == before
                    x = geo.BBox.from_bbox(x)
                if ok and hasattr(t, "bound"):
                    ok, b = attempt(lambda: t.bound(x))
                    rec.update(hasbd=True, bd=box_rec(b) if ok else {}, err="" if ok else b)
                    if ok:
                        own(b)
                rec["keep"] = rec["keep"] and box_rec(x) == before
            elif k in ("ray", "rd"):
                diff = k == "rd"
                x = mkray(diff)
                before = ray_rec(x, diff)
                ok, b = attempt(lambda: t(x))
                rec.update(k="ray", diff=diff, a=before, err="" if ok else b, typeok=ok and type(b) is type(x))
                if ok:
                    rec["b"] = ray_rec(b, diff)
                    if isinstance(b, geo.Ray):
                        own(b)
                rec["keep"] = ray_rec(x, diff) == before
            else:
                for _h in range(5):        # very small or large, maybe mirrored: the sign is what matters
                    tt = t * Transform.scale(*[rng.choice([-1., 1.]) * 2. ** rng.choice([-14, -12, -10, -3, 12]) for _ in range(3)])
                    ok, b = attempt(lambda: bool(tt.swaps_handedness()))
                    a.out.put(**dict(rec, m=mat(tt.m), swap=b if ok else False, err="" if ok else b))
                ok, b = attempt(lambda: bool(t.swaps_handedness()))
                rec.update(swap=b if ok else False, err="" if ok else b)
            rec["keep"] = rec["keep"] and mat(t.m) == m and mat(t.m_inv) == mi
            a.out.put(**rec)

def pose_parts():
    ax, axis = Vv(), Vv()
    s = lambda: rng.choice([1., 1., 2., .5, rng.uniform(.3, 3), rng.uniform(.3, 3), 2. ** rng.uniform(-5, 7)])
    # both poses may be mirrored alike: the reflection belongs to the scale, and stays all along the motion
    sg = rng.choice([[1., 1., 1.]] * 3 + [[-1., 1., 1.], [1., 1., -1.], [-1., -1., 1.], [-1., -1., -1.]])
    S = lambda: [sg[i] * s() for i in range(3)]
    return dict(t1=P(), t2=P(), ang=ANG(), ax=ax, axis=axis, deg=rng.choice([0., 20., 90., -90., 135., 170., -170., rng.uniform(-178, 178), rng.uniform(-16, 16)]),
                s1=S(), s2=S())
def poses(q):
    R1 = Transform.rotate(q["ang"], q["ax"])
    t1 = Transform.translate(geo.Vector(*q["t1"])) * R1 * Transform.scale(*q["s1"])
    t2 = Transform.translate(geo.Vector(*q["t2"])) * R1 * Transform.rotate(q["deg"], q["axis"]) * Transform.scale(*q["s2"])
    return t1, t2
def anims(n):
    for _ in range(n):
        q = pose_parts()
        tm1 = rng.choice([0., 1., -2., .5])
        tm2 = tm1 + rng.choice([1., .25, 4.])
        t1, t2 = poses(q)
        base = dict(sig="anim", t1=vec(q["t1"]), t2=vec(q["t2"]), ang=enc(q["ang"]), ax=vec(q["ax"]), axis=vec(q["axis"]), deg=enc(q["deg"]),
                    s1=[enc(x) for x in q["s1"]], s2=[enc(x) for x in q["s2"]], tm1=enc(tm1), tm2=enc(tm2))
        ok, at = attempt(lambda: AnimatedTransform(t1, tm1, t2, tm2))
        if not ok:
            a.out.put(op="anim", cls="anim/build", err=at, **base)
            continue
        for _ in range(3):
            time = rng.choice([tm1 - 1., tm1, tm2, tm2 + 3., tm1 + .5 * (tm2 - tm1), rng.uniform(tm1, tm2), rng.uniform(tm1, tm2), tm1 + 1e-3 * (tm2 - tm1)])
            p, v = P(), Vv()
            diff = rng.random() < .3
            r = (geo.RayDifferential if diff else geo.Ray)(p, v, .25, 7.5, 3, time)
            def go():
                return at.interpolate(time), at(time, p), at(time, v), at(r)
            ok, w = attempt(go)
            rec = dict(base, op="anim", cls="anim/%s" % ("in" if tm1 < time < tm2 else "out"), time=enc(time), p=vec(p), v=vec(v), err="" if ok else w)
            if ok:
                rr = w[3]
                rec.update(m=mat(w[0].m))
                rec.update(qp=vec(w[1]), qv=vec(w[2]), ro=vec(rr.o), rd=vec(rr.d),
                           rkeep=bool((rr.mint, rr.maxt, rr.depth, rr.time) == (.25, 7.5, 3, time)) and isinstance(w[1], geo.Point) and isinstance(w[2], geo.Vector) and type(rr) is type(r))
                rec.update(pkeep=bool([own(x) for x in w[1:]] and vec(p) == rec["p"] and vec(v) == rec["v"] and list(r.o) == list(p) and list(r.d) == list(v) and (r.mint, r.maxt, r.depth, r.time) == (.25, 7.5, 3, time) and mat(at.interpolate(time).m) == rec["m"]))
            a.out.put(**rec)
        box = mkbox()
        use_inv = rng.random() < .5
        static = rng.random() < .25
        am = AnimatedTransform(t1, tm1, t1 if static else t2, tm2)
        def go():
            b = am.motion_bounds(box, use_inv) if rng.random() < .8 or use_inv else am.motion_bounds(box)
            ms = []
            for u in [0., 1., .5] + [rng.random() for _ in range(6)]:
                m = am.interpolate(tm1 + u * (tm2 - tm1))
                ms.append(mat(m.m_inv if use_inv else m.m))
            return b, ms
        ok, w = attempt(go)
        a.out.put(op="motion", cls="motion/%s/%s" % (use_inv, static), sig="anim", box=box_rec(box), err="" if ok else w, bound=box_rec(w[0]) if ok else {}, poses=w[1] if ok else [])
        if rng.random() < .4:
            st = AnimatedTransform(t1, tm1, poses(q)[0], tm2)
            time = rng.uniform(tm1 - 1, tm2 + 1)
            ok, w = attempt(lambda: (st.interpolate(time), st.animated))
            a.out.put(op="static", cls="static", sig="anim", err="" if ok else w, m=mat(w[0].m) if ok else [], m0=mat(t1.m), animated=bool(w[1]) if ok else False)
        R = Transform.rotate(q["ang"] if rng.random() < .5 else rng.choice([180., 179., 120., -150.]), q["ax"])
        f = rng.choice([quat.from_transform, lambda t: quat.from_arr(t.m)])
        ok, w = attempt(lambda: quat.to_transform(f(R)))
        a.out.put(op="quat", cls="quat", sig="anim", err="" if ok else w, m=mat(w.m) if ok else [], m0=mat(R.m))

def boxes(n):
    for _ in range(n):
        e = geo.BBox()
        bs = []
        for _ in range(3):
            b = mkbox()
            if rng.random() < .1:
                b = geo.BBox()
            elif rng.random() < .1:
                p = P()
                b = geo.BBox(p, p)
            bs.append(b)
        A, B, C = bs
        if rng.random() < .2:
            B = geo.BBox(A.pMin.copy(), A.pMax.copy()) if not A.pMin.x > A.pMax.x else geo.BBox()
        elif rng.random() < .2 and A.pMin.x <= A.pMax.x:     # touching or sharing faces
            B = geo.BBox(A.pMax.copy(), (A.pMax + geo.Vector(1., 2., 1.)).view(geo.Point))
        elif rng.random() < .2 and A.pMin.x <= A.pMax.x:     # same corner on one side only
            B = geo.BBox(A.pMin.copy(), (A.pMax + geo.Vector(1., 0., 0.)).view(geo.Point))
        p = rng.choice([P(), A.pMin.copy(), A.pMax.copy(), C.pMin.copy(), geo.Point(*[rng.choice([x, y]) for x, y in zip(A.pMin, A.pMax)])])
        by = rng.choice([.5, 1., 0., rng.uniform(0, 3)])
        tt = [rng.choice([0., 1., .5, rng.uniform(-.5, 1.5)]) for _ in range(3)]
        rec = dict(op="box", cls="box/%s" % ("empty" if A.pMin.x > A.pMax.x else "full"), sig="bbox", a=box_rec(A), b=box_rec(B), p=vec(p), by=enc(by), tt=[enc(x) for x in tt], err="")
        cp = geo.BBox.from_bbox
        full = A.pMin.x <= A.pMax.x
        def go():
            U = geo.BBox.Union
            r = dict(ab=box_rec(U(A, B)), iab=box_rec(cp(A).union(B)), ba=box_rec(U(B, A)), abc1=box_rec(U(U(A, B), C)), abc2=box_rec(cp(A).union(cp(B).union(C))),
                     aa=box_rec(U(A, A)), ae=box_rec(U(A, e) if rng.random() < .5 else cp(e).union(A)),
                     ap=box_rec(U(A, p) if rng.random() < .5 else cp(A).union(p)), inside=bool(A.inside(p)), overlaps=bool(A.overlaps(B)), eq=bool(A == B), ne=bool(A != B), by_index=dict(lo=vec(A[0]), hi=vec(A[1])))
            if full:
                c, rad = A.bounding_sphere()
                r.update(area=enc(A.surface_area()), vol=enc(A.volume()), axis=int(A.maximum_extent()), grown=box_rec(cp(A).expand(by)), lerp=vec(A.lerp(*tt)), sphc=vec(c), sphr=enc(rad))
                if all(x < y for x, y in zip(A.pMin, A.pMax)):
                    r.update(off=vec(A.offset(p)))
                else:
                    r.update(off=["0", "0", "0"])
            return r
        ok, w = attempt(go)
        if ok:
            rec.update(w)
        else:
            rec["err"] = w
        ok, w = attempt(lambda: [own(b) for b in (geo.BBox(p), geo.BBox(None, p), cp(A), geo.BBox.Union(A, B), geo.BBox.Union(A, p), geo.BBox(p, p), cp(A).union(B))])
        rec["keep"] = ok and rec["a"] == box_rec(A) and rec["b"] == box_rec(B) and rec["p"] == vec(p)
        if not any(c in ("inf", "-inf") for c in rec["p"]):
            a.out.put(**rec)
        for _ in range(3):
            b = mkbox(.04)
            if rng.random() < .2 or b.pMin.x > b.pMax.x:
                o = P()
            else:
                t = b.lerp(rng.choice([0., .5, 1., rng.random(), 1.2]), rng.choice([0., .5, rng.random(), -.2]), rng.choice([.5, rng.random(), 1.]))
                if rng.random() < .35:      # just inside or just outside an edge of the box
                    k = rng.randrange(3)
                    t = b.lerp(*[rng.random() if j == k else rng.choice([0., 1.]) + rng.choice([-1., 1.]) * 2. ** -rng.uniform(6, 16) for j in range(3)])
                o = t
            d = [rng.choice([0., 0., -0., 1., -1., rng.uniform(-1, 1), rng.uniform(-1, 1), 1e-3]) for _ in range(3)]
            if not any(d):
                d[rng.randrange(3)] = 1.
            s = rng.choice([0., 1., 5., -3., rng.uniform(-10, 10)])
            o = geo.Point(*[x - s * y for x, y in zip(o, d)])
            mint, maxt = rng.choice([0., 0., 1., -4., 3.]), rng.choice([INF, INF, 4., 1.5, 8.])
            r = rng.choice([geo.Ray, geo.RayDifferential])(o, geo.Vector(*d), mint, maxt)
            ok, w = attempt(lambda: b.intersect_p(r))
            a.out.put(op="raybox", cls="raybox/%d" % sum(1 for x in d if x == 0.), sig="bbox", box=box_rec(b), ray=dict(o=vec(o), d=[enc(x) for x in d], mint=enc(mint), maxt=enc(maxt)),
                      err="" if ok else w, hit=bool(w[0]) if ok else False, t0=enc(w[1]) if ok else "0", t1=enc(w[2]) if ok else "0",
                      keep=vec(r.o) == vec(o) and r.mint == mint and r.maxt == maxt and list(r.d) == d)

def chains(n):
    for _ in range(n):
        diff = rng.random() < .6
        r = mkray(diff)
        rec = dict(op="chain", cls="chain/%s" % ("rd" if diff else "ray"), sig="ray", diff=diff, start=ray_rec(r, True) if diff else dict(ray_rec(r, False), has=False, rxo=vec((0., 0., 0.)), ryo=vec((0., 0., 0.)), rxd=vec((0., 0., 0.)), ryd=vec((0., 0., 0.))), steps=[], err="")
        pad = dict(has=False, rxo=["0"] * 3, ryo=["0"] * 3, rxd=["0"] * 3, ryd=["0"] * 3)
        full = lambda x: ray_rec(x, True) if diff else dict(ray_rec(x, False), **pad)
        def step(r):
            k = rng.choice(["copy", "spawn", "edit", "plain"] + (["scale", "scale"] if diff else []))
            before = full(r)
            st = dict(k=k, t=enc(rng.choice([0., 1., -2., .5, 7.25])))
            keep = r
            if k == "copy":
                new = geo.RayDifferential.from_rd(r) if diff else geo.Ray.from_ray(r)
            elif k == "plain":
                new = type(r).from_ray(r)
            elif k == "spawn":
                o, d, mn, mx = P(), Vv(), rng.choice([0., .125]), rng.choice([INF, 2.])
                if rng.random() < .3:
                    mn, mx = 0., INF
                    new = type(r).from_parent(o, d, r)
                else:
                    new = type(r).from_parent(o, d, r, mn, mx)
                st.update(o=vec(o), d=vec(d), mint=enc(mn), maxt=enc(mx))
            elif k == "scale":
                s = rng.choice([0., .5, 1., 2., rng.uniform(0, 3)])
                st["s"] = enc(s)
                new = r
                new.scale_differential(s)
                before = None
            else:   # change a copy in place: the source must not move
                new = geo.RayDifferential.from_rd(r) if diff else geo.Ray.from_ray(r)
                o, d, mx = P(), Vv(), rng.choice([1., 9.])
                for j in range(3):
                    new.o[j], new.d[j] = o[j], d[j]
                    if diff:
                        new.rxOrigin[j] = new.ryOrigin[j] = o[j]
                        new.rxDirection[j] = new.ryDirection[j] = d[j]
                new.maxt = mx
                st.update(o=vec(o), d=vec(d), maxt=enc(mx))
                if not diff:
                    pass
            st["parent"] = before is None or full(keep) == before
            q = new(float.fromhex(st["t"]))
            st["got"], st["at"], st["atpoint"] = full(new), vec(q), isinstance(q, geo.Point)
            if k == "edit" and not diff:
                st["got"].update(rxo=vec(o), ryo=vec(o), rxd=vec(d), ryd=vec(d))
            if not diff and k != "edit":
                pass
            return new, st
        cur = r
        for _ in range(rng.randrange(1, 6)):
            ok, w = attempt(lambda: step(cur))
            if not ok:
                rec["err"] = w
                break
            cur, st = w
            rec["steps"].append(st)
        a.out.put(**rec)
        for k in ("p-p", "p-v", "v-v", "p+v", "v+v", "p-f", "p-=v", "p-=p", "p-n"):
            if rng.random() < .4:
                x = P() if k[0] == "p" else Vv()
                y = {"p": P, "v": Vv, "f": lambda: 2.5, "n": lambda: geo.Normal(1., 0., 0.)}[k[-1]]()
                def go():
                    if "-=" in k:
                        z = x
                        z -= y
                        return z
                    return x - y if "-" in k else x + y
                ok, w = attempt(go)
                kind = "other"
                if ok:
                    kind = "vector" if isinstance(w, geo.Vector) else "point" if isinstance(w, geo.Point) else "other"
                expect = dict([("p-p", "vector"), ("p-v", "point"), ("v-v", "vector"), ("p+v", "point"), ("v+v", "vector")])
                a.out.put(op="affine", cls="affine/" + k, sig="affine", k=k, a=vec(x), b=vec(y) if k[-1] != "f" else ["0"] * 3, err="" if ok else w.split(":")[0],
                          expecterr="" if k in expect else "TypeError", kind=kind, expectkind=expect.get(k, ""), v=vec(w) if ok and k in expect else [])
k = 1 if a.quick else 12
dict(P14=lambda: transforms(45 * k), P15=lambda: anims(16 * k), P16=lambda: boxes(60 * k), P36=lambda: chains(80 * k))[MODE]()
a.out.close()
