"""Exercise quadrics, disks, triangles, meshes, area sampling and differential geometry.  MODE selects the group."""
import os, math
from common import setup, attempt, enc, vec, mat
a = setup()
import numpy as np
import pytracer.geometry as geo
from pytracer.transform import Transform
from pytracer.shape import Sphere, Cylinder, Disk, TriangleMesh, Triangle, create_triangle_mesh
rng = a.rng
MODE = os.environ["MODE"]
INF = float("inf")
U = lambda x, y: rng.uniform(x, y)
def V(): return geo.Vector(U(-1, 1), U(-1, 1), U(-1, 1))
def rigid():
    t = Transform.translate(geo.Vector(U(-4, 4), U(-4, 4), U(-4, 4)))
    if rng.random() < .3:
        return t
    return t * Transform.rotate(U(-180, 180), V())
def placement(flip=True):
    k = rng.random()
    if k < .15:
        return Transform()
    t = rigid()
    if k > .5:
        s = [rng.choice([1., 2., .5, U(.3, 3)]) for _ in range(3)]
        if flip and rng.random() < .4:
            s[rng.randrange(3)] *= -1.
        t = t * Transform.scale(*s)
    if k > .9:
        t = t * Transform.rotate(U(-180, 180), V())
    return t
def quadric(o2w, w2o, small=True, whole=0.):
    kind = rng.choice(["sphere", "cylinder", "disk"])
    rad = rng.choice([1., 1., 2., .5, U(.2, 3)] + ([.001, 50.] if small else []))
    pm = rng.choice([360., 360., 180., 90., 270., U(20, 359)])
    ro = rng.random() < .4
    z0, z1, ri = -rad, rad, 0.
    if kind == "sphere" and rng.random() < .5:
        z0, z1 = rng.choice([(-2 * rad, .5 * rad), (.3 * rad, -.6 * rad), (0., rad), (-rad, U(-.8, .9) * rad), (U(-.9, 0) * rad, U(.1, .9) * rad)])
    if kind == "cylinder":
        z0 = U(-2, 2)
        z1 = z0 + rng.choice([-1., 1.]) * U(.2, 3)
        if rng.random() < .3:
            z0, z1 = 0., 1.
    if kind == "disk":
        z0 = z1 = rng.choice([0., U(-2, 2)])
        ri = rng.choice([0., 0., .3 * rad, U(.1, .8) * rad])
    if kind == "sphere" and rng.random() < whole:
        pm, z0, z1 = 360., -rad, rad
    s = dict(kind=kind, rad=enc(rad), z0=enc(z0), z1=enc(z1), ri=enc(ri), pm=enc(pm), ro=ro, full=kind == "sphere" and z0 == -rad and z1 == rad)
    def mk():
        if kind == "disk":
            return Disk(o2w, w2o, ro, z0, rad, ri, pm)
        return (Sphere if kind == "sphere" else Cylinder)(o2w, w2o, ro, rad, z0, z1, pm)
    def surf():
        f = math.radians(pm) * rng.random()
        zl, zh = sorted((max(-rad, min(rad, z0)), max(-rad, min(rad, z1)))) if kind == "sphere" else sorted((z0, z1))
        z = U(zl, zh)
        r = math.sqrt(max(0., rad * rad - z * z)) if kind == "sphere" else rad if kind == "cylinder" else math.sqrt(U(ri * ri, rad * rad))
        if kind == "disk":
            z = z0
        return geo.Point(r * math.cos(f), r * math.sin(f), z)
    return s, mk, surf, rad
def box(b):
    return dict(lo=vec(b.pMin), hi=vec(b.pMax))
def ray_to(target, scale):
    """a ray whose line passes target (world), from anywhere, with an interval that may cut it off"""
    d = V()
    if rng.random() < .2:
        d = geo.Vector(*[rng.choice([0., 1., -1., 0.]) for _ in range(3)])
    if d.length() < 1e-3:
        d = geo.Vector(0., 0., -1.)
    d = d * rng.choice([1., 1., .01, 20., 1. / d.length()])
    s = rng.choice([0., 1., -1., U(-3, 3), U(-3, 3), 10.]) * max(scale, .1) / d.length()
    o = geo.Point(*[target[k] - s * d[k] for k in range(3)])
    mint = rng.choice([0., 0., 0., s * U(.2, 1.4), s - .5 / d.length(), -INF if False else -abs(s) * 2 - 1])
    maxt = rng.choice([INF, INF, INF, s * U(.5, 2), s + .5 * scale / d.length()])
    if maxt < mint:
        maxt = INF
    if rng.random() < .2:
        return geo.RayDifferential(o, d, mint, maxt, 1, .5)
    return geo.Ray(o, d, mint, maxt, 1, .5)
def ray_rec(r):
    return dict(o=vec(r.o), d=vec(r.d), mint=enc(r.mint), maxt=enc(r.maxt))
def state(r):
    return list(r.o) + list(r.d) + [r.mint, r.maxt, r.depth, r.time]
def dg_rec(dg):
    return dict(p=vec(dg.p), u=enc(dg.u), dpdu=vec(dg.dpdu), dpdv=vec(dg.dpdv), dndu=vec(dg.dndu), dndv=vec(dg.dndv), nn=vec(dg.nn))

def p17(n):
    for _ in range(n):
        o2w = placement()
        w2o = o2w.inverse()
        s, mk, surf, rad = quadric(o2w, w2o)
        m, mi = mat(o2w.m), mat(o2w.m_inv)
        part = s["pm"] != enc(360.) or (s["kind"] == "sphere" and not s["full"]) or s["ri"] != enc(0.)
        cls = "%s/%s" % (s["kind"], "part" if part else "whole")
        ok, sh = attempt(mk)
        if not ok:
            a.out.put(op="hit", cls=cls, sig=s["kind"], s=s, m=m, mi=mi, err=sh, ray={})
            continue
        ok, w = attempt(lambda: (sh.object_bound(), sh.world_bound()))
        a.out.put(op="bound", cls="bound/" + cls, sig=s["kind"], s=s, m=m, mi=mi, err="" if ok else w, ob=box(w[0]) if ok else {}, wb=box(w[1]) if ok else {})
        scale = rad * max(abs(x) for row in o2w.m[:3, :3] for x in row)
        for _ in range(10):
            q = surf()
            k = rng.random()
            if k < .25:
                q = geo.Point(*[x + U(-1.5, 1.5) * rad for x in q])
            elif k < .3:
                q = geo.Point(0., 0., q.z)
            r = ray_to(o2w(q), scale)
            if rng.random() < .1:   # along the axis, exactly
                o = o2w(geo.Point(0., 0., -3. * rad)) 
                r = geo.Ray(o, (o2w(geo.Point(0., 0., 0.)) - o), 0., INF)
            before = state(r)
            ok, w = attempt(lambda: (sh.intersect(r), sh.intersect_p(r)))
            rec = dict(op="hit", cls="%s/%s" % (cls, "hit" if ok and w[0][0] else "miss"), sig=s["kind"], s=s, m=m, mi=mi, ray=ray_rec(r), err="" if ok else w, hit=False, occ=False, keep=state(r) == before)
            if ok:
                (h, t, eps, dg), occ = w
                rec.update(hit=bool(h), occ=bool(occ))
                if h:
                    rec.update(t=enc(t), eps=enc(eps), v=enc(dg.v), **dg_rec(dg))
            a.out.put(**rec)

from pytracer.texture.texture import Texture, ConstantTexture, Chekcerboard2DTexture
from pytracer.texture.texturemap import UVMapping2D
class Half(Texture):
    def __init__(self, cut):
        self.cut = cut
    def __call__(self, dg):
        c = self.cut
        return 0. if c[0] * dg.u + c[1] * dg.v + c[2] * dg.p.x + c[3] * dg.p.y + c[4] * dg.p.z < c[5] else 1.
def Alpha(cut):
    """a half-space cut away, or the even cells of a checkerboard"""
    if len(cut) == 6:
        return Half(cut)
    return Chekcerboard2DTexture(UVMapping2D(*cut), ConstantTexture(0.), ConstantTexture(1.), rng.choice(["none", "closedform"]))
def mesh_data():
    nv = rng.choice([3, 4, 5, 7])
    z = rng.choice([2., 2., 2., 2., .02, .004, 60.])
    P = [geo.Point(U(-z, z), U(-z, z), U(-z, z)) for _ in range(nv)]
    vi = []
    for _ in range(rng.choice([1, 1, 2, 3, 6])):
        vi += rng.sample(range(nv), 3)
    uv = [U(0, 1) for _ in range(2 * nv)] if rng.random() < .6 else None
    if uv and rng.random() < .15:
        uv = [.5] * (2 * nv)
    elif uv and rng.random() < .2:
        uv = [.3 + .05 * x for x in uv]
    N = [geo.Normal(U(-1, 1), U(-1, 1), U(.2, 1)) for _ in range(nv)] if rng.random() < .5 else None
    S = [geo.Vector(U(-1, 1), U(-1, 1), U(-1, 1)) for _ in range(nv)] if rng.random() < .4 else None
    return P, vi, uv, N, S
def discarding(o2w, w2o, m):
    """texture coordinates that are to be discarded where they are useless: a face of some extent with two equal pairs"""
    P, vi, uv, N, S = mesh_data()
    nv = len(P)
    uv = [U(0, 1) for _ in range(2 * nv)]
    kind = rng.choice(["none", "twins", "half"])
    orig = list(range(0, len(vi), 3))
    if kind != "none":
        f = rng.choice(orig)
        i, j = rng.sample(vi[f:f + 3], 2)
        uv[2 * i] = uv[2 * j]
        if kind == "twins":
            uv[2 * i + 1] = uv[2 * j + 1]
    if rng.random() < .5:         # a face without area says nothing about the coordinates
        k = rng.choice([0, 0, rng.randrange(0, len(vi) + 1, 3)])
        i, j = rng.sample(range(nv), 2)
        vi = vi[:k] + rng.choice([[i, i, j], [i, j, i], [j, i, i], [i, i, i]]) + vi[k:]
        kind += "+flat"
    N = [geo.Normal(U(-1, 1), U(-1, 1), U(.2, 1)) for _ in range(nv)] if rng.random() < .8 else None
    want = rng.random() < .8
    params = dict(indices=list(vi), P=list(P), uv=list(uv), discard=want)
    if N is not None:
        params["N"] = N
    ok, w = attempt(lambda: (lambda msh: dict(ntris=int(msh.ntris), nverts=int(msh.nverts), tris=[dict(v=[vec(t[c]) for c in range(3)], uv=[[enc(x) for x in c] for c in t.get_uvs()]) for t in msh.refine()]))(create_triangle_mesh(o2w, w2o, False, params)))
    a.out.put(op="discard", cls="discard/%s/%s%s" % (kind, "N" if N else "", "/asked" if want else ""), sig="mesh", m=m, vi=vi, P=[vec(p) for p in P], hasn=N is not None, asked=want, uv=[enc(x) for x in uv], err="" if ok else w, **(w if ok else {}))
def sliding():
    """a ray sliding in (or beside) a triangle's plane, or at a triangle without extent: whole coordinates, so that products are exact"""
    w = lambda lo=-3, hi=3: float(rng.randrange(lo, hi + 1))
    ax, k = rng.randrange(3), w()
    flat = lambda z: [z if j == ax else w() for j in range(3)]
    v = [flat(k) for _ in range(3)]
    line = rng.random() < .35
    if line:     # a triangle without extent, hit by any ray
        o, s = [w() for _ in range(3)], [w() for _ in range(3)]
        v = [[x + m * y for x, y in zip(o, s)] for m in rng.choice([[0, 1, 2], [0, 0, 1], [1, 1, 1], [0, 2, -1], [0, 1, 0]])]
    o = [w() for _ in range(3)] if line else flat(k if rng.random() < .7 else w())
    q = [sum(x[j] for x in v) / 4. for j in range(3)] if line else flat(0.)
    d = [a - b for a, b in zip(q, o)] if line else [0. if j == ax else w() for j in range(3)]
    if d == [0.] * 3:
        d[(ax + 1) % 3] = 1.
    P = [geo.Point(*x) for x in v]
    I = Transform()
    kw = rng.choice([{}, {}, dict(N=[geo.Normal(0., 0., 1.)] * 3)])
    uv = rng.choice([None, None, [0., 0., 1., 0., 1., 1.], [.5] * 6])
    r = geo.Ray(geo.Point(*o), geo.Vector(*d), 0., INF)
    before = state(r)
    ok, z = attempt(lambda: (lambda t: (bool(t.intersect(r)[0]), bool(t.intersect_p(r)), enc(t.area())))(TriangleMesh(I, I, False, 1, 3, [0, 1, 2], P, kw.get("N"), None, uv).refine()[0]))
    rec = dict(op="slide", cls="slide/%s" % ("line" if line else "plane"), sig="tri", v=[vec(p) for p in P], d=[enc(x) for x in d], err="" if ok else z)
    if ok:
        rec.update(hit=z[0], occ=z[1], area=z[2], keep=state(r) == before)
    a.out.put(**rec)
def p18(n):
    for _ in range(n):
        o2w = placement()
        w2o = o2w.inverse()
        P, vi, uv, N, S = mesh_data()
        nv, nf = len(P), len(vi) // 3
        ro = rng.random() < .4
        m, mi = mat(o2w.m), mat(o2w.m_inv)
        cut = rng.choice([None, None, [1., 0., 0., 0., 0., .5], [0., 1., 0., 0., 0., .5], [1., -1., 0., 0., 0., .1], [0., 0.] + [U(-1, 1) for _ in range(4)],
                          [rng.choice([1., 2., U(1, 4)]), rng.choice([1., 3., U(1, 4)]), rng.choice([0., U(-2, 2)]), rng.choice([0., .5, U(-2, 2)])]])
        def mk():
            params = dict(indices=list(vi), P=list(P) if rng.random() < .5 else [c for p in P for c in p])
            if uv is not None:
                params[rng.choice(["uv", "st"])] = list(uv)
            if N is not None:
                params["N"] = list(N)
            if S is not None:
                params["S"] = list(S)
            txt = None
            if cut is not None:
                params["alphatex"] = "a"
                txt = dict(a=Alpha(cut))
            if cut is None and rng.random() < .3:
                return TriangleMesh(o2w, w2o, ro, nf, nv, list(vi), list(P), N, S, uv)
            return create_triangle_mesh(o2w, w2o, ro, params, txt)
        ok, w = attempt(lambda: (lambda msh: (msh, msh.refine()))(mk()))
        rec = dict(op="mesh", cls="mesh/%s%s%s" % ("uv" if uv else "", "N" if N else "", "S" if S else ""), sig="mesh", m=m, vi=vi, P=[vec(p) for p in P], hasuv=uv is not None,
                   uv=[enc(x) for x in uv] if uv else [], err="" if ok else w)
        if not ok:
            a.out.put(**rec)
            continue
        msh, tris = w
        def desc():
            return dict(ntris=int(msh.ntris), nverts=int(msh.nverts), wb=box(msh.world_bound()), ob=box(msh.object_bound()), canint=bool(msh.can_intersect()),
                        tris=[dict(v=[vec(t[c]) for c in range(3)], uv=[[enc(x) for x in c] for c in t.get_uvs()], wb=box(t.world_bound()), ob=box(t.object_bound()), area=enc(t.area())) for t in tris])
        ok, d = attempt(desc)
        rec.update(d if ok else dict(err=d))
        a.out.put(**rec)
        if not ok:
            continue
        for _ in range(8):
            f = rng.randrange(nf)
            t = tris[f]
            idx = vi[3 * f:3 * f + 3]
            w = [o2w(P[k]) for k in idx]
            b = [rng.random() for _ in range(3)]
            if rng.random() < .3:
                b = [U(-.5, 1) for _ in range(3)]
            sb = sum(b) or 1.
            q = geo.Point(*[sum(b[k] * w[k][c] for k in range(3)) / sb for c in range(3)])
            size = max((w[1] - w[0]).length(), (w[2] - w[0]).length())
            r = ray_to(q, size)
            exact = False
            if rng.random() < .05:
                r = geo.Ray(w[0], w[1] - w[0], 0., INF)    # in the plane
            before = state(r)
            ok, z = attempt(lambda: (t.intersect(r), t.intersect_p(r)))
            rec = dict(op="tri", cls="tri/%s%s%s%s" % ("uv" if uv else "", "N" if N else "", "S" if S else "", "A" if cut else ""), sig="tri", m=m, mi=mi, v=[vec(P[k]) for k in idx],
                       hasuv=uv is not None, uv=[[enc(uv[2 * k]), enc(uv[2 * k + 1])] for k in idx] if uv else [], n=[vec(N[k]) for k in idx] if N else [], hasn=N is not None,
                       hass=S is not None, sv3=[vec(S[k]) for k in idx] if S else [], ray=ray_rec(r), ro=ro, cut=[enc(x) for x in cut] if cut else [], exact=exact, err="" if ok else z, hit=False, occ=False, keep=state(r) == before, serr="")
            if not N:
                rec["n"] = [["0"] * 3] * 3
            if ok:
                (h, tt, eps, dg), occ = z
                rec.update(hit=bool(h), occ=bool(occ))
                if h:
                    rec.update(t=enc(tt), v2=enc(dg.v), **dg_rec(dg))
                    dg.dudx, dg.dvdy = .25, -.5
                    dg.dpdx = geo.Vector(1., 2., 3.)
                    ok, sg = attempt(lambda: t.get_shading_geometry(o2w, dg))
                    if ok:
                        rec.update(sp=vec(sg.p), su=enc(sg.u), sv=enc(sg.v), snn=vec(sg.nn), sdpdu=vec(sg.dpdu), sdndu=vec(sg.dndu), sdndv=vec(sg.dndv),
                                   diffs=bool(sg.dudx == .25 and sg.dvdy == -.5 and list(sg.dpdx) == [1., 2., 3.]))
                    else:
                        rec["serr"] = sg
            a.out.put(**rec)
        for _ in range(2):
            discarding(o2w, w2o, m)
        sliding()
        if rng.random() < .3:
            why = rng.choice(["index", "count", "uv", "normals", "tangents", "negative-count"])
            I = Transform()
            tri = [geo.Point(0., 0., 0.), geo.Point(1., 0., 0.), geo.Point(0., 1., 0.)]
            par = dict(indices=[0, 1, 2], P=tri)
            if why == "index":
                par["indices"] = [0, 1, rng.choice([3, 7])]
            elif why == "count":
                par["indices"] = [0, 1, 2, 1]
            elif why == "uv":
                par["uv"] = [0., 0., 1., 0.]
            elif why == "normals":
                par["N"] = [geo.Normal(0., 0., 1.)] * 2
            elif why == "tangents":
                par["S"] = [geo.Vector(1., 0., 0.)] * 4
            else:
                par["P"] = [0., 0., 0., 1.]
            ok, z = attempt(lambda: create_triangle_mesh(I, I, False, par))
            a.out.put(op="badmesh", cls="badmesh/" + why, sig="mesh", why=why, err="" if ok else z)

H = 1e-5
def jac(f, u1, u2):
    """area element of (u1, u2) -> point by central differences"""
    p = [np.array([float(c) for c in f(x, y)]) for x, y in ((u1 + H, u2), (u1 - H, u2), (u1, u2 + H), (u1, u2 - H))]
    return float(np.linalg.norm(np.cross((p[0] - p[1]) / (2 * H), (p[2] - p[3]) / (2 * H))))
def mono(u1, u2):
    """away from the seams of the maps"""
    s, t = 2 * u1 - 1, 2 * u2 - 1
    return min(u1, u2, 1 - u1, 1 - u2) > .02 and min(abs(s - t), abs(s + t), abs(s), abs(t)) > .02
def p37(n):
    from pytracer.light.utility import ShapeSet, LightSample
    for _ in range(n):
        o2w = rigid()
        w2o = o2w.inverse()
        if rng.random() < .25:
            P = [geo.Point(U(-2, 2), U(-2, 2), U(-2, 2)) for _ in range(5)]
            vi = rng.sample(range(5), 3)
            ro = rng.random() < .5
            sh = TriangleMesh(o2w, w2o, ro, 1, 5, vi, P).refine()[0]
            w = [o2w(P[k]) for k in vi]
            s = dict(kind="tri", v=[vec(x) for x in w], ro=ro, rad="1", pm=enc(360.), full=False)
            rad = 1.
        else:
            s, mk, surf, rad = quadric(o2w, w2o, small=False, whole=.6)
            ok, sh = attempt(mk)
            if not ok:
                a.out.put(op="samp", cls="samp/" + s["kind"], sig=s["kind"], s=s, m=mat(o2w.m), mi=mat(o2w.m_inv), err=sh)
                continue
        base = dict(sig=s["kind"], s=s, m=mat(o2w.m), mi=mat(o2w.m_inv))
        part = s["pm"] != enc(360.) or (s["kind"] == "sphere" and not s["full"])
        cls = s["kind"] + ("/part" if part else "")
        for _ in range(4):
            u1, u2 = rng.random(), rng.random()
            def go():
                p, nrm = sh.sample(u1, u2)
                j = jac(lambda x, y: sh.sample(x, y)[0], u1, u2) if mono(u1, u2) else 1.
                return vec(p), vec(nrm), enc(j), enc(sh.area()), enc(sh.pdf(p))
            ok, w = attempt(go)
            a.out.put(op="samp", cls="samp/" + cls, err="" if ok else w, smooth=mono(u1, u2), **dict(base, **(dict(zip(("p", "n", "j", "area", "pdf"), w)) if ok else {})))
        def cells():
            N, K = 16, 4
            c = [0] * (K * K)
            z0, z1 = (sh.zmin, sh.zmax) if s["kind"] in ("sphere", "cylinder") else (0, 1)
            for i in range(N):
                for j in range(N):
                    p = sh.sample((i + .5) / N, (j + .5) / N)[0]
                    if s["kind"] == "tri":
                        e1, e2, d = w3[1] - w3[0], w3[2] - w3[0], p - w3[0]
                        g = np.linalg.lstsq(np.array([list(e1), list(e2)]).T, np.array(list(d)), rcond=-1)[0]
                        t = g[0] + g[1]
                        x, y = t * t, g[1] / t if t > 0 else 0.
                    else:
                        q = w2o(p)
                        f = math.atan2(q[1], q[0])
                        f = f + 2 * math.pi if f < -1e-9 else f
                        y = f / math.radians(float.fromhex(s["pm"]))
                        if s["kind"] == "disk":
                            a0, a1 = float.fromhex(s["ri"]) ** 2, float.fromhex(s["rad"]) ** 2
                            x = (q[0] ** 2 + q[1] ** 2 - a0) / (a1 - a0)
                        else:
                            x = (q[2] - z0) / (z1 - z0)
                    c[min(K - 1, max(0, int(x * K))) * K + min(K - 1, max(0, int(y * K)))] += 1
            return c, N * N // (K * K)
        w3 = [o2w(P[k]) for k in vi] if s["kind"] == "tri" else None
        ok, w = attempt(cells)
        a.out.put(op="cells", cls="cells/" + cls, err="" if ok else w, cells=w[0] if ok else [], each=w[1] if ok else 0, **base)
        for _ in range(8 if s["kind"] == "sphere" else 4):
            frm = geo.Point(*[o2w(geo.Point(0., 0., 0.))[k] + rng.choice([U(-4, 4), U(-.4, .4)]) * rad for k in range(3)])
            if rng.random() < (.7 if s["kind"] == "sphere" else .35):      # just outside, just inside
                frm = o2w(geo.Point(0., 0., 0.)) + geo.normalize(V()) * (rng.choice([U(.6, .97), U(1.002, 1.03), U(1.03, 1.2), U(1.03, 1.6), U(8, 120), U(8, 120)]) * rad)
            u1, u2 = rng.choice([rng.random(), rng.random(), rng.random(), rng.random(), 0., 1. - 2. ** -53]), rng.choice([rng.random(), rng.random(), rng.random(), rng.random(), 0., 1. - 2. ** -53])
            def go():
                wi = geo.normalize(sh.sample(u1, u2)[0] - frm) if rng.random() < .8 else geo.normalize(V())
                hit, t, _, dg = sh.intersect(geo.Ray(frm, wi, 1e-5))
                r = dict(hit=bool(hit), wi=vec(wi), pdf=enc(sh.pdf_p(frm, wi)), area=enc(sh.area()))
                r["from"] = vec(frm)
                r["p"] = vec(dg.p) if hit else ["0"] * 3
                r["nn"] = vec(dg.nn) if hit else ["0"] * 3
                return r
            ok, w = attempt(go)
            a.out.put(op="seen", cls="seen/" + cls, err="" if ok else w, **dict(base, **(w if ok else {})))
            if s["kind"] == "sphere" and part:
                continue     # outside a partial sphere the cone covers absent parts
            def go2():
                p, nrm = sh.sample_p(frm, u1, u2)
                d = p - frm
                wi = geo.normalize(d)
                hit, t, _, dg = sh.intersect(geo.Ray(frm, wi, 1e-5))
                vis = bool(hit and abs(t - d.length()) < 1e-4 * (1 + d.length()) and d.length() > .1 * rad)
                cosv = abs(float(dg.nn.dot(wi))) if hit else 0.
                sm = mono(u1, u2) and cosv > .05
                j = jac(lambda x, y: geo.normalize(sh.sample_p(frm, x, y)[0] - frm), u1, u2) if sm else 1.
                return dict(p=vec(p), n=vec(nrm), visible=vis, smooth=sm, j=enc(j), pdf=enc(sh.pdf_p(frm, wi)))
            ok, w = attempt(go2)
            a.out.put(op="toward", cls="toward/" + cls, err="" if ok else w, **dict(base, **dict(w if ok else {}, **{"from": vec(frm)})))
        if rng.random() < .5:
            k = rng.choice([1, 2, 4])
            P = [geo.Point(U(-2, 2), U(-2, 2), U(-2, 2)) for _ in range(6)]
            vi = [x for t in rng.sample([(0, 1, 2), (1, 3, 5), (0, 4, 3), (2, 5, 4), (1, 4, 2)], k) for x in t]
            if rng.random() < .1:       # a set large enough to be warned about
                k = rng.choice([70, 90])
                P = [geo.Point(U(-2, 2), U(-2, 2), U(-2, 2)) for _ in range(30)]
                vi = [x for t in sorted({tuple(sorted(rng.sample(range(30), 3))) for _ in range(k + 20)})[:k] for x in t]
            nest = rng.random() < .3
            class Group(object):        # a shape made of shapes, some of which are made of shapes
                def __init__(self, kids): self.kids = kids
                def can_intersect(self): return False
                def refine(self): return list(self.kids)
            def sets():
                mesh = TriangleMesh(o2w, w2o, False, k, len(P), vi, P)
                mem = mesh.refine()
                if nest:
                    extra = TriangleMesh(o2w, w2o, False, 1, 3, [0, 1, 2], [geo.Point(U(-2, 2), U(-2, 2), U(-2, 2)) for _ in range(3)])
                    ss = ShapeSet(Group([mesh, Group([extra])] if rng.random() < .5 else [Group([Group([mesh])]), extra]))
                    mem = mem + extra.refine()
                else:
                    ss = ShapeSet(mesh)
                frm = geo.Point(U(-5, 5), U(-5, 5), U(-5, 5))
                wi = geo.normalize(mem[0].sample(.3, .6)[0] - frm)
                got = [0] * len(mem)
                N = 400
                at = [[float(z) for z in x.sample(.37, .61)[0]] for x in mem]
                for i in range(N):
                    p, _n = ss.sample(LightSample(.37, .61, (i + .5) / N))
                    p = [float(z) for z in p]
                    own = [sum((z - y) ** 2 for z, y in zip(x, p)) for x in at]
                    got[own.index(min(own))] += 1
                return dict(count=len(ss.shapes), sum=enc(ss.sum_area), pdf=enc(ss.pdf(frm, wi)), apdf=enc(ss.pdf_p(frm)),
                            mem=[dict(area=enc(x.area()), pdf=enc(x.pdf_p(frm, wi))) for x in mem], got=[enc(x / float(N)) for x in got])
            ok, w = attempt(sets)
            a.out.put(op="set", cls="set/%d" % k, sig="set", err="" if ok else w, **(w if ok else {}))

def p38(n):
    for _ in range(n):
        class Sh(object):
            ro = rng.random() < .5
            transform_swaps_handedness = rng.random() < .5
        p = geo.Point(U(-3, 3), U(-3, 3), U(-3, 3))
        du, dv = V(), V()
        if rng.random() < .2:
            du, dv = rng.choice([(geo.Vector(1., 0., 0.), geo.Vector(0., 1., 0.)), (geo.Vector(0., 2., 0.), geo.Vector(0., 0., 1.)), (geo.Vector(1., 0., 0.), geo.Vector(0., 0., 3.))])
        degen = rng.random() < .1
        if degen:
            du, dv = rng.choice([(geo.Vector(1., 0., 0.), geo.Vector(2., 0., 0.)), (geo.Vector(0., 0., 0.), geo.Vector(0., 1., 0.)), (geo.Vector(0., 0., 0.), geo.Vector(0., 0., 0.)), (geo.Vector(0., 1., 0.), geo.Vector(0., 0., 0.))])
        elif du.cross(dv).length() < .05 * du.length() * dv.length():
            continue
        sh = rng.choice([None, Sh()])
        def go():
            dg = geo.DifferentialGeometry(p, du, dv, geo.Normal(.1, .2, .3), geo.Normal(0., 1., 0.), .25, .75, sh)
            if degen:
                dg.nn = geo.Normal(0., 0., rng.choice([1., -1.]))
            has = rng.random() < .85
            d = -dg.nn * 1. + V() * .4
            d = geo.Vector(d[0], d[1], d[2])
            o = geo.Point(*[p[k] - 3. * d[k] for k in range(3)])
            r = geo.RayDifferential(o, d, 0., INF)
            r.has_differentials = has
            e = lambda v: type(v)(*[x + U(-.05, .05) for x in v])
            r.rxOrigin, r.ryOrigin, r.rxDirection, r.ryDirection = e(o), e(o), e(d), e(d)
            if rng.random() < .5:
                dg = dg.copy()      # a hit may be copied before its differentials are known
                if degen:
                    dg.nn = dg.nn.copy()
            if rng.random() < .3:       # asked again for another ray: nothing of the first answer stays
                r0 = geo.RayDifferential(o, d, 0., INF)
                r0.has_differentials = True
                r0.rxOrigin, r0.ryOrigin, r0.rxDirection, r0.ryDirection = o * 1., o * 1., d * 1.1 + V() * .1, d * .9 + V() * .1
                r0.rxDirection, r0.ryDirection = geo.Vector(*r0.rxDirection), geo.Vector(*r0.ryDirection)
                dg.compute_differential(r0)
            dg.compute_differential(r)
            c = dg.copy()
            same = all(list(getattr(c, f)) == list(getattr(dg, f)) for f in ("p", "dpdu", "dpdv", "dndu", "dndv", "nn", "dpdx", "dpdy")) and all(getattr(c, f) == getattr(dg, f) for f in ("u", "v", "dudx", "dvdx", "dudy", "dvdy")) and c.shape is dg.shape
            state = lambda: [list(getattr(dg, f)) for f in ("p", "nn", "dpdx", "dpdy", "dpdu", "dpdv", "dndu", "dndv")]
            keep = state()
            for f in ("p", "nn", "dpdx", "dpdy", "dpdu", "dpdv", "dndu", "dndv"):
                getattr(c, f)[rng.randrange(3)] += 1.
            return dict(has=has, degen=degen, p=vec(keep[0]), nn=vec(keep[1]), dpdu=vec(keep[4]), dpdv=vec(keep[5]), rxo=vec(r.rxOrigin), ryo=vec(r.ryOrigin), rxd=vec(r.rxDirection), ryd=vec(r.ryDirection),
                        dpdx=vec(keep[2]), dpdy=vec(dg.dpdy), dudx=enc(dg.dudx), dvdx=enc(dg.dvdx), dudy=enc(dg.dudy), dvdy=enc(dg.dvdy), copied=bool(same),
                        independent=state() == keep and list(keep[4]) == list(du) and list(keep[5]) == list(dv))
        ok, w = attempt(go)
        a.out.put(op="diff", cls="diff", sig="diff", err="" if ok else w, **(w if ok else {}))
        v = geo.normalize(rng.choice([V(), geo.Vector(1., 0., 0.), geo.Vector(0., -1., 0.), geo.Vector(0., 0., 1.), geo.Vector(1., 1., 0.), geo.Vector(1e-9, 0., 1.), geo.Vector(rng.choice([-1., 1.]) * U(.9, 1.1), rng.choice([-1., 1.]) * U(.9, 1.1), U(-.3, .3))]))
        if rng.random() < .05:
            v = geo.Vector(0., 0., 0.)
        ok, w = attempt(lambda: geo.coordinate_system(v))
        a.out.put(op="frame", cls="frame", sig="frame", err="" if ok else w, v=vec(v), **(dict(a=vec(w[0]), b=vec(w[1]), c=vec(w[2])) if ok else {}))
        th, ph = rng.choice([U(0, math.pi), 0., math.pi, math.pi / 2]), rng.choice([U(0, 2 * math.pi), 0., math.pi, 1.5 * math.pi])
        x, y, z = geo.coordinate_system(v)
        def sph():
            d = geo.spherical_direction(math.sin(th), math.cos(th), ph)
            return dict(dir=vec(d), dirb=vec(geo.spherical_direction(math.sin(th), math.cos(th), ph, x, y, z)), th=enc(geo.spherical_theta(d)), ph=enc(geo.spherical_phi(d)))
        ok, w = attempt(sph)
        a.out.put(op="sph", cls="sph", sig="sph", err="" if ok else w, theta=enc(th), phi=enc(ph), x=vec(x), y=vec(y), z=vec(z), **(w if ok else {}))
        nn, vv = geo.Normal(*V()), V()
        before = list(nn), list(vv)
        ok, w = attempt(lambda: (geo.face_forward(nn, vv), geo.normalize(nn), geo.normalize(vv), geo.coordinate_system(geo.normalize(vv)))[0])
        a.out.put(op="face", cls="face", sig="face", err="" if ok else w, n=vec(before[0]), v=vec(vv), got=vec(w) if ok else [], keep=(list(nn), list(vv)) == before)
if __name__ == '__main__':
    k = 1 if a.quick else 12
    dict(P17=lambda: p17(14 * k), P18=lambda: p18(16 * k), P37=lambda: p37(10 * k), P38=lambda: p38(60 * k))[MODE]()
    a.out.close()
