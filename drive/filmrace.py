"""Record the program of shared-memory events (lock, read, write, unlock) that each film update performs on the real
ImageFilm, by giving the film logging locks and logging pixels.  TLC explores every interleaving of the programs."""
import os, threading as realthreading
from common import setup, attempt, enc
a = setup()
import numpy as np
import pytracer.film.film as filmmod
from pytracer.film import ImageFilm
from pytracer.filter import BoxFilter, TriangleFilter, GaussianFilter
from pytracer.spectral import Spectrum
rng = a.rng
LOG = []
FAULT = [None]          # raise at the n-th logged write

class Boom(Exception):
    pass

def put(*ev):
    if FAULT[0] is not None and ev[0] == "w":
        FAULT[0] -= 1
        if FAULT[0] < 0:
            FAULT[0] = None
            raise Boom()
    LOG.append(list(ev))

class LogLock(object):
    n = 0
    def __init__(self, re=False):
        LogLock.n += 1
        self.id = "L%d" % LogLock.n
        self.depth, self.re = 0, re
    def acquire(self, blocking=True, timeout=-1):
        if self.depth and not self.re:
            raise RuntimeError("self-deadlock: lock already held")
        self.depth += 1
        if self.depth == 1:
            put("acq", self.id)
        return True
    def release(self):
        if not self.depth:
            raise RuntimeError("release unlocked lock")
        self.depth -= 1
        if self.depth == 0:
            put("rel", self.id)
    def locked(self):
        return self.depth > 0
    __enter__ = acquire
    def __exit__(self, *e):
        self.release()

class LogArray(np.ndarray):
    name = None
    def __array_finalize__(self, obj):
        self.name = None
    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        outs = kw.get("out", ())
        for x in inputs:
            if isinstance(x, LogArray) and x.name:
                put("r", x.name)
        args = [x.view(np.ndarray) if isinstance(x, LogArray) else x for x in inputs]
        for o in outs:
            if isinstance(o, LogArray) and o.name:
                put("w", o.name)
        if outs:
            kw["out"] = tuple(o.view(np.ndarray) if isinstance(o, LogArray) else o for o in outs)
        res = getattr(ufunc, method)(*args, **kw)
        return outs[0] if outs else res
    def __getitem__(self, k):
        if self.name:
            put("r", self.name)
        return self.view(np.ndarray)[k]
    def __setitem__(self, k, v):
        if self.name:
            put("w", self.name)
        self.view(np.ndarray)[k] = v

def livearray(arr, name):
    v = arr.view(LogArray)
    v.name = name
    return v

class PixelProxy(object):
    def __init__(self, real, x, y):
        object.__setattr__(self, "real", real)
        object.__setattr__(self, "at", "%d,%d" % (x, y))
    def __getattr__(self, k):
        v = getattr(self.real, k)
        if isinstance(v, np.ndarray):
            return livearray(v, self.at + "." + k)
        if isinstance(v, (float, int)):
            put("r", self.at + "." + k)
        return v
    def __setattr__(self, k, v):
        cur = getattr(self.real, k)
        if isinstance(v, np.ndarray) and isinstance(cur, np.ndarray) and np.shares_memory(v, cur):
            return          # in-place update already logged
        put("w", self.at + "." + k)
        setattr(self.real, k, np.array(v) if isinstance(v, np.ndarray) else v)

class FakeThreading(object):
    Lock = LogLock
    RLock = staticmethod(lambda: LogLock(True))
    def __getattr__(self, k):
        return getattr(realthreading, k)

class Sample(object):
    def __init__(self, x, y):
        self.imageX, self.imageY = x, y

def mkfilm(xr, yr, f, crop, spy):
    LogLock.n = 0
    old = filmmod.threading
    filmmod.threading = FakeThreading()
    try:
        film = ImageFilm(xr, yr, f, crop, "none.png")
    finally:
        filmmod.threading = old
    xs, xe, ys, ye = [int(v) for v in film.get_pixel_extent()]
    if spy:
        for i in range(xe - xs):
            for j in range(ye - ys):
                film.pixels[i][j] = PixelProxy(film.pixels[i][j], xs + i, ys + j)
    return film

def state(film):
    out = []
    xs, xe, ys, ye = [int(v) for v in film.get_pixel_extent()]
    for i in range(xe - xs):
        for j in range(ye - ys):
            p = film.pixels[i][j]
            p = getattr(p, "real", p)
            out.append(("%d,%d" % (xs + i, ys + j), (float(p.weight_sum),) + tuple(map(float, p.Lxyz)) + tuple(map(float, p.splatXYZ))))
    return out

def do(film, kind, x, y, L):
    getattr(film, "add_sample" if kind == "add" else "splat")(Sample(x, y), L)

def program(film, op):
    """events of one operation, plus whether everything it changed was seen"""
    del LOG[:]
    before = dict(state(film))
    ok, v = attempt(lambda: do(film, *op))
    prog = [list(e) for e in LOG]
    after = dict(state(film))
    changed = set(k for k in after if after[k] != before[k])
    seen = set(e[1].split(".")[0] for e in prog if e[0] == "w")
    return ok, v, prog, changed <= seen

FILTERS = [BoxFilter(.5, .5), BoxFilter(1., .5), BoxFilter(.5, .75), TriangleFilter(1., 1.), GaussianFilter(.75, 1.25, 1.), BoxFilter(.25, .25)]
for it in range(26 if a.quick else 150):
    f = FILTERS[it % len(FILTERS)] if it % 5 else rng.choice(FILTERS)
    xr, yr = rng.choice([(1, 1), (2, 1), (1, 3), (2, 2), (3, 2)])
    crop = [0., 1., 0., 1.]
    nthreads = 3 if rng.random() < .35 else 2
    cells = [(x, y) for x in range(xr) for y in range(yr)]
    wide = f.xw > .5 or f.yw > .5
    progs, opaque, err = [], False, ""
    film = mkfilm(xr, yr, f, crop, True)
    for t in range(nthreads):
        prog = []
        for _ in range(1 if nthreads == 3 else rng.choice([1, 1, 2])):
            kind = rng.choice(["add", "add", "splat"])
            c = rng.choice(cells)
            x, y = c[0] + rng.choice([.5, .25, .75]), c[1] + rng.choice([.5, .25, .875])
            ok, v, p, seen = program(film, (kind, x, y, Spectrum([rng.choice([1., 2.]) for _ in range(3)])))
            if not ok:
                err = v
            if not seen:
                opaque = True
            prog += p
        progs.append(prog)
    if not opaque and all(len(p) <= 40 for p in progs):
        a.out.put(op="race", cls="race/%s/%d" % ("wide" if wide else "narrow", nthreads), sig="film", wide=wide, progs=progs, err=err)

# failing updates: an exception inside the update must leave no lock held
for it in range(14 if a.quick else 60):
    f = rng.choice(FILTERS)
    film = mkfilm(2, 2, f, [0., 1., 0., 1.], True)
    FAULT[0] = rng.choice([0, 0, 1, 2])
    kind = rng.choice(["add", "splat"])
    del LOG[:]
    ok, v = attempt(lambda: do(film, kind, rng.choice([.5, 1.25]), rng.choice([.5, 1.5]), Spectrum([1., 1., 1.])))
    FAULT[0] = None
    a.out.put(op="fault", cls="fault/%s/%s" % (kind, "raised" if not ok else "completed"), sig="film", progs=[[list(e) for e in LOG]],
              wide=True, err="", raised=not ok)
# a colour of the wrong shape is rejected without leaving anything locked
for kind in ("add", "splat"):
    film = mkfilm(2, 2, FILTERS[1], [0., 1., 0., 1.], True)
    del LOG[:]
    class Bad(object):
        def to_xyz(self):
            return np.zeros(2)
        def __getitem__(self, k):
            return np.zeros(2)
    ok, v = attempt(lambda: do(film, kind, .5, .5, Bad()))
    a.out.put(op="fault", cls="fault/%s/shape" % kind, sig="film", progs=[[list(e) for e in LOG]], wide=True, err="", raised=not ok)
a.out.close()
