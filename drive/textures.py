"""Exercise mip maps, image textures, texture combinators, noise and texture mappings (P33)."""
import os, sys, tempfile, shutil
from common import setup, attempt, enc, vec, mat
a = setup()
import numpy as np
import pytracer.geometry as geo
import pytracer.transform as tr
from pytracer.spectral import Spectrum
from pytracer import FLOAT
import pytracer.texture as T
import pytracer.texture.utility as TU
import pytracer.texture.texture as TT
import pytracer.texture.texturemap as TM
from pytracer.texture.utility import MIPMap, ImageWrap
rng = a.rng
U = rng.uniform
WR = {"repeat": ImageWrap.REPEAT, "clamp": ImageWrap.CLAMP, "black": ImageWrap.BLACK}
def comps(v, nc):
    if nc == 1:
        return [enc(float(np.asarray(v).reshape(-1)[0]))]
    return [enc(float(v[k])) for k in range(3)]
def table(mip, lev, rows, cols, nc):
    return [[comps(mip.texel(lev, s, t), nc) for s in range(cols)] for t in range(rows)]
def levels(mip, nc):
    out, w, h = [], int(mip.width), int(mip.height)
    for l in range(int(mip.levels)):
        out.append(table(mip, l, h, w, nc))
        w, h = max(1, w // 2), max(1, h // 2)
    return out
def coord():
    return rng.choice([0., 1., .5, .25, -.25, 1.5, U(0, 1), U(0, 1), U(0, 1), U(-1, 2)])
def width():
    return rng.choice([0., 1e-6, 1., 2., .5, .25, 2 ** U(-5, 1), 2 ** U(-5, 1), U(0, .3)])
def param(kind):
    s, t = coord(), coord()
    if kind == 2:
        return [s, t]
    if kind == 3:
        return [s, t, width()]
    m = rng.choice([.02, .1, .2, .4])
    d = [U(-m, m) for _ in range(4)]
    z = rng.random()
    if z < .12:
        d[2], d[3] = 0., 0.
    elif z < .2:
        d[0], d[1], d[2], d[3] = 0., 0., 0., 0.
    elif z < .5:     # a long thin ellipse
        k = rng.choice([.01, .03, .1])
        d[2], d[3] = -d[1] * k, d[0] * k
        if rng.random() < .5:
            d = d[2:] + d[:2]
    return [s, t] + d
def look(mip, nc, kinds):
    out = []
    for k in kinds:
        p = param(k)
        q = list(p)
        ok, v = attempt(lambda: comps(mip.look_up(q), nc))
        out.append(dict(p=[enc(x) for x in p], v=v if ok else [], err="" if ok else v))
    return out

def mipmaps():
    for _ in range(14 if a.quick else 120):
        nc = rng.choice([1, 3])
        rows, cols = rng.choice([(1, 1), (2, 2), (4, 4), (8, 8), (2, 4), (4, 2), (8, 2), (1, 4), (4, 1), (8, 4), (3, 4), (4, 3), (5, 5), (3, 2), (6, 3), (1, 3), (16, 4), rng.choice([(32, 2), (1, 64)])])
        wrap = rng.choice(list(WR))
        dom = rng.choice(["float", "smooth", "step"])
        def px(s, t):
            if dom == "float":
                return [U(0, 2) for _ in range(3)]
            if dom == "smooth":
                return [s + .5 * t, 1. + s * t, 2.]
            return [float(s > t), float(t % 2), 3. * (s == 0)]
        tex = [[px(s, t)[:nc] for s in range(cols)] for t in range(rows)]
        if nc == 1:
            typ = rng.choice([FLOAT, FLOAT, float])
            img = np.array([[q[0] for q in row] for row in tex], dtype=FLOAT).reshape(rows, cols)
        else:
            typ = Spectrum
            if rng.random() < .5:
                img = np.array(tex, dtype=FLOAT)
            else:
                img = np.empty([rows, cols], dtype=object)
                for t in range(rows):
                    for s in range(cols):
                        img[t, s] = Spectrum(np.array(tex[t][s]))
        tri = rng.random() < .25
        aniso = rng.choice([8., 8., 2., 4.])
        dflt = rng.random() < .15                  # the settings a user gets without asking
        if dflt:
            wrap, tri, aniso = "repeat", False, 8.
        sig = "mip/%s/%s" % (wrap, "npot" if (rows & (rows - 1)) or (cols & (cols - 1)) else "pot")
        rec = dict(op="mip", cls="%s/%s/%d" % (sig, typ.__name__, nc), sig=sig, nc=nc, wrap=wrap, trilinear=tri, aniso=enc(aniso),
                   img=[[[enc(x) for x in q] for q in row] for row in tex])
        def go():
            m = MIPMap(typ, img) if dflt else MIPMap(typ, img, tri, aniso, WR[wrap])
            return m, levels(m, nc)
        ok, v = attempt(go)
        if not ok:
            a.out.put(err=v, n=0, w=0, h=0, levels=[], probes=[], looks=[], **rec)
            continue
        m, lv = v
        probes = []
        for _ in range(12):
            l = rng.randrange(len(lv))
            s, t = rng.randrange(-9, 20), rng.randrange(-9, 20)
            if rng.random() < .5:      # just outside
                s, t = rng.choice([-1, 0, len(lv[l][0]) - 1, len(lv[l][0])]), rng.choice([-1, 0, len(lv[l]) - 1, len(lv[l])])
            ok, v = attempt(lambda: comps(m.texel(l, s, t), nc))
            probes.append(dict(l=l, s=s, t=t, v=v if ok else []))
        lk = look(m, nc, [2] * 3 + [3] * 5 + [6] * 6)
        # the map does not change by being looked up
        a.out.put(err="", n=int(m.levels), w=int(m.width), h=int(m.height), levels=lv, probes=probes, looks=lk, **rec)

def images():
    import PIL.Image
    d = tempfile.mkdtemp(prefix="tex")
    try:
        for n in range(8 if a.quick else 60):
            rows, cols = rng.choice([(2, 2), (4, 4), (2, 4), (4, 2), (1, 2), (3, 3), (3, 4), (2, 5)])
            mode = rng.choice(["RGB", "RGB", "RGBA", "L", "P"])
            pot = not ((rows & (rows - 1)) or (cols & (cols - 1)))
            nch = dict(RGB=3, RGBA=4, L=1, P=1)[mode]
            cst = not pot
            col = [rng.randrange(256) for _ in range(4)]
            pix = [[list(col) if cst else [rng.randrange(256) for _ in range(4)] for _ in range(cols)] for _ in range(rows)]
            name = os.path.join(d, "i%d.png" % n)
            missing = rng.random() < .15
            if mode == "L":
                im = PIL.Image.fromarray(np.array([[q[0] for q in r] for r in pix], dtype=np.uint8), mode="L")
                rgb = [[[q[0]] * 3 for q in r] for r in pix]
            elif mode == "P":
                im = PIL.Image.fromarray(np.array([[q[0] for q in r] for r in pix], dtype=np.uint8), mode="P")
                pal = [(k * 7 + c * 31) % 256 for k in range(256) for c in range(3)]
                im.putpalette(pal)
                rgb = [[pal[3 * q[0]:3 * q[0] + 3] for q in r] for r in pix]
            else:
                im = PIL.Image.fromarray(np.array([[q[:nch] for q in r] for r in pix], dtype=np.uint8), mode=mode)
                rgb = [[q[:3] for q in r] for r in pix]
            if not missing:
                im.save(name)
            nc = rng.choice([1, 3])
            mem = Spectrum if nc == 3 else rng.choice([FLOAT, float])
            scale, gamma = rng.choice([1., 1. / 255, .5]), rng.choice([1., 2., .5, 2.2])
            wrap = rng.choice(list(WR))
            tri = rng.random() < .4
            dflt = rng.random() < .15              # the settings a user gets without asking
            if dflt:
                scale, gamma, wrap, tri = 1., 1., "repeat", False
            st = []
            class Fake(TM.TextureMapping2D):
                def __call__(self, dg):
                    return list(st)
            def mk(mem_=mem):
                return TT.ImageTexture(Spectrum if mem_ is Spectrum else mem_, mem_, Fake(), name, *([] if dflt else [tri, 8., WR[wrap], scale, gamma]))
            def go():
                if rng.random() < .5:      # the same file was used as the other kind before
                    mk(FLOAT if nc == 3 else Spectrum)
                t = mk()
                again = mk()
                lks = []
                for _ in range(4):
                    st[:] = param(6)
                    ok, v = attempt(lambda: comps(t(None), nc))
                    lks.append(dict(p=[enc(x) for x in st], v=v if ok else [], err="" if ok else v))
                m = t.mipmap
                return dict(levels=levels(m, nc), n=int(m.levels), looks=lks, shared=again.mipmap is m and len(repr(t)) > 0)
            ok, v = attempt(go)
            sig = "image/%s" % ("missing" if missing else mode)
            a.out.put(op="image", cls="%s/%d/%s" % (sig, nc, "pot" if pot else "npot"), sig=sig, nc=nc, px=rgb, missing=missing, scale=enc(scale), gamma=enc(gamma), wrap="repeat" if missing else wrap,
                      trilinear=False if missing else tri, aniso=enc(8.), err="" if ok else v, **(v if ok else dict(levels=[], n=0, looks=[], shared=True)))
    finally:
        shutil.rmtree(d)

class Child(TT.Texture):
    def __init__(self, v):
        self.v = v
        self.seen = []
    def __call__(self, dg):
        self.seen.append(dg)
        return self.v
class Map2(TM.TextureMapping2D):
    def __init__(self, st):
        self.st = st
    def __call__(self, dg):
        return list(self.st)
class Map3(TM.TextureMapping3D):
    def __init__(self, p, x, y):
        self.v = p, x, y
    def __call__(self, dg):
        p, x, y = self.v
        return [geo.Point(p[0], p[1], p[2]), geo.Vector(x[0], x[1], x[2]), geo.Vector(y[0], y[1], y[2])]
def grid(lim=4.):
    return rng.choice([U(-lim, lim), U(-lim, lim), U(-lim, lim), float(rng.randrange(-4, 5)), rng.randrange(-8, 9) / 2.])
def textures():
    kinds = ["constant", "scale", "mix", "bilerp", "uv", "checker", "checkeraa", "checkeraa", "checker3", "dots", "dots", "fbm", "wrinkled", "windy", "marble", "noise", "noise", "smoothstep", "lanczos"]
    for n in range(150 if a.quick else 1500):
        kind = kinds[n % len(kinds)]
        nc = rng.choice([1, 3])
        def val():
            v = [U(-1, 3) for _ in range(nc)]
            return v, (Spectrum(np.array(v)) if nc == 3 else rng.choice([float, FLOAT])(v[0]))
        c = [val() for _ in range(4)]
        ch = [Child(q[1]) for q in c]
        m = rng.choice([.05, .3, .6, 1.5])
        st = [grid(), grid()] + [rng.choice([0., U(-m, m), U(-m, m), U(-m, m), 1., .5]) for _ in range(4)]
        if rng.random() < .15:
            st[2] = st[4] = 0.
        if rng.random() < .15:
            st[3] = st[5] = 0.
        p = [grid(9.) for _ in range(3)]
        if kind == "noise" and rng.random() < .3:
            p = [q + rng.choice([0, 255, 256, 300, -256]) for q in p]
        mm = 2 ** U(-5, .5)
        dx, dy = [[rng.choice([U(-mm, mm), U(-mm, mm), 0.]) for _ in range(3)] for _ in range(2)]
        if rng.random() < .1:
            dx, dy = [0.] * 3, [0.] * 3
        extra = dict(amt="0", omega="0", oct=0, scale="0", var="0")
        oct_, om, amt, sc, var = rng.choice([1, 2, 3, 6, 8]), rng.choice([.5, .5, U(.1, .9)]), rng.choice([0., 1., U(0, 1)]), rng.choice([1., U(.2, 3)]), rng.choice([.2, U(0, 2)])
        extra = dict(amt=enc(amt), omega=enc(om), oct=oct_, scale=enc(sc), var=enc(var))
        m2, m3 = Map2(st), Map3(p, dx, dy)
        keep0 = None
        def go():
            if kind == "constant": t = TT.ConstantTexture(c[0][1])
            elif kind == "scale": t = TT.ScaleTexture(ch[0], ch[1])
            elif kind == "mix": t = TT.MixTexture(ch[0], ch[1], Child(amt))
            elif kind == "bilerp": t = TT.BilerpTexture(m2, *[q[1] for q in c])
            elif kind == "uv": t = TT.UVTexture(m2)
            elif kind == "checker": t = TT.Chekcerboard2DTexture(m2, ch[0], ch[1], rng.choice(["none", None, "None"]))
            elif kind == "checkeraa": t = TT.Chekcerboard2DTexture(m2, ch[0], ch[1], *rng.choice([[], ["closedform"]]))
            elif kind == "checker3": t = TT.Checkboard3DTexture(m3, ch[0], ch[1])
            elif kind == "dots": t = TT.DotsTexture(m2, ch[0], ch[1])
            elif kind == "fbm": t = TT.FBmTexture(oct_, om, m3)
            elif kind == "wrinkled": t = TT.WrinkledTexture(oct_, om, m3)
            elif kind == "windy": t = TT.WindyTexture(m3)
            elif kind == "marble": t = TT.MarbleTexture(oct_, om, sc, var, m3)
            elif kind == "noise":
                q = rng.choice([geo.Point(p[0], p[1], p[2]), list(p)])
                t = lambda dg: TU.noise(q)
            elif kind == "smoothstep":
                lo, hi, x = sm
                t = lambda dg: TU.smooth_step(lo, hi, x)
            elif kind == "lanczos":
                if len(lz) == 1:
                    t = lambda dg: TU.Lanczos(lz[0])
                else:
                    arr = np.array(lz)
                    def t(dg):
                        r = TU.Lanczos(arr)
                        assert list(arr) == lz, "input changed"
                        return r
            tok = object()
            v = t(tok)
            for x in ch:
                assert all(y is tok for y in x.seen), "child not evaluated at the shading point"
            if kind == "lanczos":
                return [enc(float(q)) for q in np.atleast_1d(v)]
            return comps(v, 3 if kind in ("uv", "marble") else 1 if kind in ("fbm", "wrinkled", "windy", "noise", "smoothstep") else nc)
        if kind == "smoothstep":
            lo = U(-1, 1)
            sm = lo, lo + U(.1, 2), U(-2, 3)
            c[0] = ([sm[0], sm[1], sm[2]], None)
        if kind == "lanczos":
            lz = [rng.choice([0., .5, 1., U(-1.2, 1.2), U(-1.2, 1.2), 1.5]) for _ in range(rng.choice([1, 3]))]
            c[0] = (lz, None)
        before = [np.array(q[1], dtype=float).tolist() if q[1] is not None else None for q in c]
        ok, v = attempt(go)
        kept = before == [np.array(q[1], dtype=float).tolist() if q[1] is not None else None for q in c]
        a.out.put(op="tex", kind=kind, cls="tex/%s/%d" % (kind, nc), sig="tex/%s" % kind, st=[enc(x) for x in st], p=vec(p), dpdx=vec(dx), dpdy=vec(dy),
                  c1=[enc(x) for x in c[0][0]], c2=[enc(x) for x in c[1][0]], c3=[enc(x) for x in c[2][0]], c4=[enc(x) for x in c[3][0]],
                  err="" if ok else v, v=v if ok else [], kept=kept, **extra)

def placements():
    t = tr.Transform()
    for _ in range(rng.choice([0, 1, 2, 3])):
        k = rng.randrange(3)
        if k == 0: t = t * tr.Transform.translate(geo.Vector(U(-2, 2), U(-2, 2), U(-2, 2)))
        elif k == 1: t = t * tr.Transform.rotate(U(-180, 180), geo.Vector(U(-1, 1), U(-1, 1), U(.2, 1)))
        else: t = t * tr.Transform.scale(U(.5, 2), U(.5, 2), U(.5, 2))
    return t
def maps():
    for n in range(60 if a.quick else 800):
        kind = ["uv", "spherical", "cylindrical", "planar", "identity"][n % 5]
        p = [U(-3, 3) for _ in range(3)]
        m = rng.choice([.01, .3, 2., 8.])
        dx, dy = [[U(-m, m) for _ in range(3)] for _ in range(2)]
        w2t = placements()
        if kind in ("spherical", "cylindrical") and rng.random() < .4:      # near the seam
            w2t = tr.Transform()
            p = [(1 if kind == "spherical" else -1) * U(.5, 3), rng.choice([-1, 1]) * U(0, .1), U(-2, 2)]
            dx, dy = [U(-1, 1), -rng.choice([-1, 1]) * U(0, 5), U(-1, 1)], [U(-1, 1), rng.choice([-1, 1]) * U(0, 5), U(-1, 1)]
        dg = geo.DifferentialGeometry(geo.Point(*p), geo.Vector(1., 0., 0.), geo.Vector(0., 1., 0.), geo.Normal(0., 0., 0.), geo.Normal(0., 0., 0.), U(0, 1), U(0, 1), None)
        dg.dpdx, dg.dpdy = geo.Vector(*dx), geo.Vector(*dy)
        dg.dudx, dg.dvdx, dg.dudy, dg.dvdy = [U(-1, 1) for _ in range(4)]
        su, sv, du, dv = [U(-3, 3) for _ in range(4)]
        nds, ndt = kind == "planar" and rng.random() < .2, kind == "planar" and rng.random() < .2      # no offset given
        if nds:
            su = sv = 0.
        elif ndt:
            sv = 0.
        vs, vt = [[U(-1, 1) for _ in range(3)] for _ in range(2)]
        def go():
            if kind == "uv": f = TM.UVMapping2D(su, sv, du, dv)
            elif kind == "spherical": f = TM.SphericalMapping2D(w2t)
            elif kind == "cylindrical": f = TM.CylindricalMapping2D(w2t)
            elif kind == "planar": f = TM.PlannarMapping2D(geo.Vector(*vs), geo.Vector(*vt), *([] if nds else [su] if ndt else [su, sv]))
            else: f = TM.IdentityMapping3D(w2t)
            v = f(dg)
            assert [float(x) for x in dg.p] == p and [float(x) for x in dg.dpdx] == dx and [float(x) for x in dg.dpdy] == dy, "surface point changed"
            if kind == "identity":
                assert isinstance(v[0], geo.Point) and isinstance(v[1], geo.Vector) and isinstance(v[2], geo.Vector), "typing"
                return vec(v[0]) + vec(v[1]) + vec(v[2])
            return [enc(float(x)) for x in v]
        ok, v = attempt(go)
        a.out.put(op="map", kind=kind, cls="map/%s" % kind, sig="map/%s" % kind, p=vec(p), dpdx=vec(dx), dpdy=vec(dy), m=mat(w2t.m), su=enc(su), sv=enc(sv), du=enc(du), dv=enc(dv),
                  u=enc(dg.u), vv=enc(dg.v), d=[enc(dg.dudx), enc(dg.dvdx), enc(dg.dudy), enc(dg.dvdy)], vs=vec(vs), vt=vec(vt), err="" if ok else v, v=v if ok else [])

mipmaps()
images()
textures()
maps()
a.out.close()
