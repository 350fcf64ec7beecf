"""Replay histories of scene-description calls on the real module and record what each call did (P35)."""
import io, os, sys
from common import setup, attempt, enc, vec, mat, scenarios
a = setup()
import numpy as np
import pytracer.geometry as geo
from pytracer.transform import Transform
from pytracer.spectral import Spectrum
rng = a.rng
U = lambda x, y: round(rng.uniform(x, y) * 16) / 16.
try:
    import pytracer.interface as I
    import pytracer.interface.api as api
    BROKEN = ""
except Exception as e:  # noqa
    BROKEN = "%s: %s" % (type(e).__name__, e)
if BROKEN:
    a.out.put(op="history", cls="import", sig="import", err=BROKEN)
    a.out.close()
    sys.exit(0)
first = [True]
real_init = Spectrum.init
def init_once():
    """filling the colour tables takes long and changes nothing the second time"""
    if first[0]:
        first[0] = False
        real_init()
Spectrum.init = staticmethod(init_once)

OPTS = dict(film="set_film", sampler="set_sampler", aggregator="set_aggregator", renderer="set_renderer", surface="set_surface", volume="set_volume", filter="set_pixel_filter")
NAMES = ["Mitchell", "image", "BVH", "PATH", "x"]
params = {}
def param(k):
    if k not in params:
        params[k] = I.Param()
    return params[k]

def elem():
    k = rng.choice(["translate", "rot", "scale", "concat"])
    if k == "translate":
        return dict(k="translate", v=[U(-2, 2) for _ in range(3)])
    if k == "rot":
        return dict(k="rot", a=U(-180, 180), v=rng.choice([[1., 0., 0.], [0., 1., 0.], [0., 0., 1.], [1., 2., 2.], [U(.1, 2), U(-2, 2), U(-2, 2)]]))
    return dict(k="scale", v=[rng.choice([.5, 1., 2., -1.]) for _ in range(3)], concat=k == "concat")
def look():
    return dict(k="look", pos=[U(-2, 2) for _ in range(3)], look=[U(3, 5), U(-2, 2), U(-2, 2)], up=rng.choice([[0., 1., 0.], [0., 0., 2.], [.25, 1., -.5]]))
def trans(e):
    if e["k"] == "translate":
        return Transform.translate(geo.Vector(*e["v"]))
    if e["k"] == "rot":
        return Transform.rotate(e["a"], geo.Vector(*e["v"]))
    if e["k"] == "look":
        return Transform.look_at(geo.Point(*e["pos"]), geo.Point(*e["look"]), geo.Vector(*e["up"]))
    return Transform.scale(*e["v"])
def encode(e):
    return {k: (enc(v) if isinstance(v, float) else [enc(x) for x in v] if isinstance(v, list) else v) for k, v in e.items() if k != "concat"}

def call(c):
    n = c["c"]
    if n == "init":
        c["option"] = I.Option("x.png", True, 2)
        return lambda: I.system_init(c["option"])
    if n == "clean": return lambda: I.system_clean()
    if n == "identity": return lambda: I.trans_identity()
    if n == "apply":
        e = c["e"]
        if e["k"] == "translate": return lambda: I.trans_translate(list(e["v"]))
        if e["k"] == "rot": return lambda: I.trans_rotate(e["a"], list(e["v"]))
        if e.get("concat"): return lambda: I.trans_concat(trans(e))
        return lambda: I.trans_scale(list(e["v"]))
    if n == "look": return lambda: I.trans_look_at(c["e"]["pos"], c["e"]["look"], c["e"]["up"])
    if n == "set": return lambda: I.trans_set(trans(c["e"]))
    if n == "name": return lambda: I.add_coordinate_system(c["n"])
    if n == "recall": return lambda: I.set_coordinate_system(c["n"])
    if n == "camera": return lambda: I.set_camera(c["v"]["name"], param(c["v"]["p"]))
    if n == "option":
        if c["n"] == "time":
            return lambda: I.set_transformation_time(c["v"]["t0"], c["v"]["t1"])
        return lambda: getattr(I, OPTS[c["n"]])(c["v"]["name"], param(c["v"]["p"]))
    if n == "attr":
        def f():
            # no call sets an attribute yet: the holder of the attributes is written to, while there is one
            if I.API_STATUS == I.API_UNINIT:
                raise RuntimeError
            I.GRAPHICS_STATE.tag = c["v"]
        return f
    if n == "world": return lambda: I.world_begin()
    return lambda: getattr(I, {"abegin": "attribute_begin", "aend": "attribute_end", "tbegin": "transform_begin", "tend": "transform_end"}[n])()

def opt(kind):
    o = I.RENDER_OPTION
    if kind == "time":
        return dict(t0=enc(o.trans_start_time), t1=enc(o.trans_end_time))
    p = getattr(o, kind + "_param")
    return dict(name=getattr(o, kind + "_name"), p=([k for k in params if params[k] is p] or ["none" if p is None else "?"])[0])
def state():
    on = I.API_STATUS != I.API_UNINIT
    s = dict(on=on)
    if on:
        s.update(world=I.API_STATUS == I.API_WORLD, ts=[dict(m=mat(t.m), i=mat(t.m_inv)) for t in I.TRANSFORM_SET], tag=int(getattr(I.GRAPHICS_STATE, "tag", 0)),
                 cs=[dict(n=k, ts=[dict(m=mat(t.m), i=mat(t.m_inv)) for t in I.COORDINATE_SYSTEM[k]]) for k in sorted(I.COORDINATE_SYSTEM)],
                 cam=[dict(m=mat(t.m), i=mat(t.m_inv)) for t in I.RENDER_OPTION.cam2wld], opt=[dict(n=k, v=opt(k)) for k in sorted(OPTS) + ["camera", "time"]])
    return s

def replay(h, every, cls):
    """from a state not initialised; every: record the state after each call, else after the last"""
    I.system_clean()
    recs, ok, given = [], True, None
    for j, c in enumerate(h):
        cap, old = io.StringIO(), sys.stdout
        sys.stdout = cap
        done, v = attempt(call(c))
        sys.stdout = old
        if c["c"] == "init" and done:
            given = c["option"]
        r = {k: (encode(x) if k == "e" else ({y: (enc(z) if isinstance(z, float) else z.lower() if y == "name" else z) for y, z in x.items()} if isinstance(x, dict) else x)) for k, x in c.items() if k != "option"}
        r.update(out="ok" if done else "reject" if v.startswith("RuntimeError") else v, printed=bool(cap.getvalue().strip()), seen=j == len(h) - 1 or (every and rng.random() < .5), kept=I.API_STATUS == I.API_UNINIT or I.GLOBAL_OPTION is given)
        if r["seen"]:
            s, v = attempt(state)
            if not s:
                return a.out.put(op="history", cls=cls, sig=cls, err=v)
            r["s"] = v
        recs.append(r)
    a.out.put(op="history", cls=cls, sig=cls, err="", calls=recs)

def instantiate(h):
    """numbers for the symbols of a history TLC printed"""
    es = {}
    out = []
    for c in h:
        c = dict(c)
        if "e" in c:
            if c["c"] == "look":
                c["e"] = es.setdefault("l", look())
            else:
                c["e"] = es.setdefault(c["e"], elem())
        if c["c"] in ("camera", "option"):
            c["v"] = dict(name=rng.choice(NAMES), p=rng.choice(["p1", "p2"]))
        out.append(c)
    return out

def random_history(n):
    out = []
    for _ in range(n):
        x = rng.random()
        if not out or x < .03: c = dict(c="init")
        elif x < .05: c = dict(c="clean")
        elif x < .30: c = dict(c="apply", e=elem())
        elif x < .34: c = dict(c="look", e=look())
        elif x < .37: c = dict(c="set", e=elem())
        elif x < .39: c = dict(c="identity")
        elif x < .45: c = dict(c="name", n=rng.choice(["A", "B", "camera", "world"]))
        elif x < .52: c = dict(c="recall", n=rng.choice(["A", "B", "camera", "world", "nowhere"]))
        elif x < .55: c = dict(c="camera", v=dict(name=rng.choice(NAMES), p=rng.choice(["p1", "p2"])))
        elif x < .60: c = dict(c="option", n=rng.choice(sorted(OPTS)), v=dict(name=rng.choice(NAMES), p=rng.choice(["p1", "p2"])))
        elif x < .61: c = dict(c="option", n="time", v=dict(t0=U(-1, 1), t1=U(-1, 3)))
        elif x < .67: c = dict(c="attr", v=rng.randrange(1, 9))
        elif x < .68: c = dict(c="world")
        elif x < .78: c = dict(c="abegin")
        elif x < .86: c = dict(c="tbegin")
        elif x < .94: c = dict(c="aend")
        else: c = dict(c="tend")
        out.append(c)
    return out

def deep_history(n):
    """n blocks inside each other, each with its own attributes and transforms, then all the way out"""
    out, kinds = [dict(c="init"), dict(c="world")], []
    change = lambda: rng.choice([dict(c="attr", v=rng.randrange(1, 9)), dict(c="apply", e=elem()), dict(c="attr", v=rng.randrange(1, 9)), dict(c="name", n="A"), dict(c="recall", n=rng.choice(["A", "world"]))])
    p = rng.choice([.5, .8, 1.])
    for _ in range(n):
        kinds.append("a" if rng.random() < p else "t")
        out += [change() for _ in range(rng.choice([1, 1, 2]))] + [dict(c=kinds[-1] + "begin")]
    while kinds:
        if rng.random() < .7:
            out.append(change())
        if rng.random() < .1:
            out.append(dict(c="tend" if kinds[-1] == "a" else "aend"))
        out.append(dict(c=kinds.pop() + "end"))
    return out + [dict(c=rng.choice(["aend", "tend"]))]

def params_history():
    """parameter lists: values put in under types, taken out, counted; unknown types;
    several lists in use at once"""
    hist = []
    def go():
        types = ["float", "int", "bool", "vector", "normal", "spectrum", "point", "string"]
        use = rng.sample(types, 3)
        ps = []
        for k in range(25 * rng.choice([1, 2, 3])):
            if k % 25 == 0 and (not ps or rng.random() < .8):
                ps.append(I.Param())
                hist.append([])
            w = rng.randrange(len(ps))
            p, ops = ps[w], hist[w]
            t = rng.choice(use)
            x = rng.random()
            if x < .45:
                v = rng.choice([k, k, 0, 1])
                p.push_back(t, v)
                ops.append(dict(o="push", t=t, v=v, got=-1))
            elif x < .75:
                g = p.enum(t)
                ops.append(dict(o="take", t=t, v=-1, got=-1 if g is None else int(g)))
            elif x < .85:
                ops.append(dict(o="more", t=t, v=-1, got=1 if p.has_more(t) else 0))
            elif x < .95:
                ops.append(dict(o="all", t=t, v=-1, got=0, lst=[int(y) for y in p.fetch(t)]))
            else:
                f = rng.choice([lambda: p.push_back("matrix", 1), lambda: p.enum("matrix"), lambda: p.fetch("matrix"), lambda: p.has_more("matrix")])
                ok, err = attempt(f)
                ops.append(dict(o="unknown", t="matrix", v=-1, got=1 if ok else 0))
    ok, v = attempt(go)
    for ops in hist:
        a.out.put(op="param", cls="param", sig="param", err="" if ok else v, ops=ops if ok else [])

def defaults():
    """a second initialisation is as fresh as the first"""
    def go():
        I.system_clean()
        I.system_init(I.Option())
        s1 = state()
        for c in random_history(12)[1:]:
            attempt(call(c))
        I.system_clean()
        I.system_init(I.Option())
        return s1, state()
    ok, v = attempt(go)
    a.out.put(op="fresh", cls="fresh", sig="fresh", err="" if ok else v, **(dict(s1=v[0], s2=v[1]) if ok else {}))

sc = scenarios(a)
for k, h in enumerate(sc):
    if (not a.quick and len(h) < 5) or (k + a.seed) % (8 if a.quick else 2) == 0:
        replay(instantiate(h), False, "history-%d" % len(h))
for _ in range(30 if a.quick else 150):
    replay(random_history(rng.choice([10, 20, 40])), True, "random")
    params_history()
for _ in range(6 if a.quick else 40):
    replay(deep_history(rng.choice([3, 7, 12, 20])), True, "deep")
for _ in range(5 if a.quick else 50):
    defaults()
a.out.close()
