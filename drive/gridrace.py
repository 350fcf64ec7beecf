"""Concurrent queries on one lazily refined grid: real threads, one running at a time, switched at the points the
schedule names (calls on primitives and lock operations; optionally every line of the aggregate package)."""
import _thread, os, sys, threading
REAL_LOCK, REAL_RLOCK = threading.Lock, threading.RLock
S = [None]              # the active scheduler

class Abort(BaseException):
    pass

class Boom(Exception):
    pass

class CoopLock(object):
    def __init__(self, re=False):
        self.owner, self.depth, self.re = None, 0, re
        if S[0] is not None:
            S[0].locks.append(self)
    def acquire(self, blocking=True, timeout=-1):
        s = S[0]
        me = s.me() if s else -1
        if s:
            s.point()
        while self.owner is not None and not (self.re and self.owner == me):
            if not blocking or timeout >= 0:
                return False
            if s is None or me == -1:
                raise RuntimeError("lock is never released")
            s.block(self)
        self.owner = me
        self.depth += 1
        return True
    def release(self):
        if self.owner is None:
            raise RuntimeError("release unlocked lock")
        self.depth -= 1
        if self.depth == 0:
            self.owner = None
        if S[0]:
            S[0].point()
    def locked(self):
        return self.owner is not None
    def __enter__(self):
        return self.acquire()
    def __exit__(self, *e):
        self.release()

threading.Lock = lambda: CoopLock() if S[0] is not None else REAL_LOCK()
threading.RLock = lambda *x: CoopLock(True) if S[0] is not None else REAL_RLOCK(*x)
from common import setup, attempt, enc, vec, scenarios
a = setup()
import numpy as np
import pytracer.geometry as geo
import pytracer.aggregate as aggpkg
from pytracer.aggregate import Primitive, Intersection, GridAccel
AGGDIR = os.path.dirname(aggpkg.__file__)
rng = a.rng
INF = float("inf")

class Sched(object):
    """one thread runs at a time; at every point the policy names who goes on"""
    def __init__(self, policy, lines):
        self.policy, self.lines = policy, lines
        self.locks, self.ids, self.sem, self.state = [], {}, {}, {}
        self.main = _thread.allocate_lock()
        self.main.acquire()
        self.abort, self.steps, self.out, self.blocked = False, 0, {}, False
    def me(self):
        return self.ids.get(_thread.get_ident(), -1)
    def point(self):
        t = self.me()
        if t != -1:
            self.wait(t, "ready")
    def block(self, lock):
        self.wait(self.me(), lock)
    def wait(self, t, st):
        if self.abort:
            raise Abort()
        self.state[t] = st
        self.main.release()
        self.sem[t].acquire()
        if self.abort:
            raise Abort()
    def tracer(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(AGGDIR):
            return None
        if event == "line":
            self.point()
        return self.tracer
    def enabled(self, t):
        s = self.state[t]
        return s == "ready" or (isinstance(s, CoopLock) and s.owner is None)
    def body(self, t, fn):
        self.ids[_thread.get_ident()] = t
        self.state[t] = "ready"
        self.main.release()
        self.sem[t].acquire()
        try:
            if self.lines:
                sys.settrace(self.tracer)
            self.out[t] = ("", fn())
        except Abort:
            self.out[t] = ("Abort", None)
        except BaseException as e:
            self.out[t] = ("%s: %s" % (type(e).__name__, str(e)[:100]), None)
        finally:
            sys.settrace(None)
            self.state[t] = "done"
            del self.ids[_thread.get_ident()]
            self.main.release()
    def run(self, fns):
        for t, fn in enumerate(fns):
            self.sem[t] = _thread.allocate_lock()
            self.sem[t].acquire()
            _thread.start_new_thread(self.body, (t, fn))
            self.main.acquire()
        cur = None
        while any(s != "done" for s in self.state.values()):
            ok = [t for t in sorted(self.state) if self.enabled(t)]
            if not ok or self.steps > 200000:
                self.blocked = True
                self.abort = True
                for t in sorted(self.state):
                    if self.state[t] != "done":
                        self.sem[t].release()
                        self.main.acquire()
                break
            w = self.policy(self.steps, cur, ok)
            cur = w if w in ok else (cur if cur in ok else ok[0])
            self.steps += 1
            self.sem[cur].release()
            self.main.acquire()

class Stand(Primitive):
    """a primitive whose bound may exceed its box; kids make it refinable"""
    bad_calls = 0
    def __init__(self, lo, hi, blo=None, bhi=None, kids=None, fail=0):
        super(Stand, self).__init__()
        self.lo, self.hi, self.blo, self.bhi, self.kids, self.fail = lo, hi, blo or lo, bhi or hi, kids, fail
    def world_bound(self):
        return geo.BBox(geo.Point(*self.blo), geo.Point(*self.bhi))
    def can_intersect(self):
        if S[0]:
            S[0].point()
        return self.kids is None
    def refine(self, refined):
        if S[0]:
            S[0].point()
        if self.fail:
            self.fail -= 1
            raise Boom("refinement failed")
        refined.extend(self.kids)
        if S[0]:
            S[0].point()
    def get_area_light(self):
        return None
    def get_bsdf(self, dg, o2w):
        return None
    def get_bssrdf(self, dg, o2w):
        return None
    def solve(self, r):
        if S[0]:
            S[0].point()
        if self.kids is not None:
            Stand.bad_calls += 1
            return None
        t0, t1 = -INF, INF
        for k in range(3):
            if r.d[k] == 0.:
                if not (self.lo[k] < r.o[k] < self.hi[k]):
                    return None
            else:
                u, v = (self.lo[k] - r.o[k]) / r.d[k], (self.hi[k] - r.o[k]) / r.d[k]
                t0, t1 = max(t0, min(u, v)), min(t1, max(u, v))
        if t0 <= t1:
            for t in (t0, t1):
                if r.mint <= t <= r.maxt:
                    return float(t)
        return None
    def intersect(self, r, isect):
        t = self.solve(r)
        if t is None:
            return False
        r.maxt = t
        isect.primitive, isect.primitiveId, isect.dg, isect.rEps = self, self.primitiveId, None, 1e-3 * t
        return True
    def intersect_p(self, r):
        return self.solve(r) is not None

BLO, BHI = [-4., -4., -4.], [4., 4., 4.]
def small():
    lo = [rng.randrange(-7, 6) * .5 for _ in range(3)]
    return lo, [x + rng.choice([.5, 1., 1.5]) for x in lo]
def world(kinds):
    prims, leaves = [], []
    def leaf(**kw):
        lo, hi = small()
        p = Stand(lo, hi, **kw)
        leaves.append(p)
        return p
    for k in kinds:
        if k == "leaf":
            prims.append(leaf(blo=BLO, bhi=BHI))
        else:
            kids = [leaf() for _ in range(1 if k == "bag1" else rng.choice([2, 3] * 8 + [30]))]
            if k == "bag" and rng.random() < .3:
                kids = [Stand(BLO, BHI, kids=kids)]
            prims.append(Stand(BLO, BHI, kids=kids, fail=1 if k == "bad" else 0))
    return prims, leaves

def aim(leaves):
    p = rng.choice(leaves)
    c = [(l + h) / 2 + rng.choice([-.0625, .0625, .1875]) for l, h in zip(p.lo, p.hi)]
    d = [rng.choice([-2., -1., -.5, .5, 1., 2., 0.]) for _ in range(3)]
    if d == [0., 0., 0.]:
        d[rng.randrange(3)] = 1.
    s = rng.choice([0., 3., 8., 12.])
    return [x - s * y for x, y in zip(c, d)], d

def race(kinds, n, policy, lines, cls):
    prims, leaves = world(kinds)
    rays = [aim(leaves) for _ in range(n)]
    if rng.random() < .3:
        rays = [rays[0]] * n
    full = [rng.random() < .6 for _ in range(n)]
    def mk(q):
        return geo.Ray(geo.Point(*q[0]), geo.Vector(*q[1]), 0., INF, 1, .5)
    singles = []
    for q in rays:
        row = []
        for p in leaves:
            r = mk(q)
            h = p.intersect(r, Intersection())
            row.append(enc(r.maxt) if h else "miss")
        singles.append(row)
    s = Sched(policy, lines)
    S[0] = s
    Stand.bad_calls = 0
    try:
        ok, grid = attempt(lambda: GridAccel(list(prims), False))
        if not ok:
            a.out.put(op="race", cls=cls, sig="build", err=grid)
            return
        def job(q, f):
            def go():
                r, i = mk(q), Intersection()
                if f:
                    h = bool(grid.intersect(r, i))
                    b = [k + 1 for k, p in enumerate(leaves) if h and p is i.primitive]
                    return dict(hit=h, t=enc(r.maxt), best=b[0] if b else 0)
                return dict(hit=bool(grid.intersect_p(r)), t="inf", best=0)
            return go
        ok, v = attempt(lambda: s.run([job(q, f) for q, f in zip(rays, full)]), 60)
        answers = []
        for t in range(n):
            e, v2 = s.out.get(t, ("Abort", None))
            answers.append(dict(full=full[t], err=e, boom=e.startswith("Boom"), **(v2 or dict(hit=False, t="0", best=0))))
        held = any(l.owner is not None for l in s.locks)
        # a later query, alone: every refinement failure has had its turn after as many tries as there are bad ones
        later = None
        for _ in range(kinds.count("bad") + 1):
            ok2, w = attempt(job(rays[0], True), 40)
            later = dict(full=True, err="" if ok2 else w, boom=False, **(w if ok2 else dict(hit=False, t="0", best=0)))
            if ok2:
                break
        a.out.put(op="race", cls=cls, sig="grid", err="" if ok else v, kinds=list(kinds), answers=answers, singles=singles, later=later,
                  blocked=s.blocked, held=held, unrefined=Stand.bad_calls, bad=kinds.count("bad"), nt=n > 1)
    finally:
        S[0] = None

class Follow(object):
    """the model's schedule, repeated"""
    def __init__(self, sched):
        self.sched = [t - 1 for t in sched]
    def __call__(self, step, cur, ok):
        return self.sched[step % len(self.sched)]
class Switch(object):
    """run one thread, switch at the given steps"""
    def __init__(self, at):
        self.at = dict(at)
    def __call__(self, step, cur, ok):
        if step in self.at:
            return ok[self.at[step] % len(ok)]
        return cur if cur is not None else ok[0]

sc = scenarios(a)
if a.quick and len(sc) > 170:
    sc = rng.sample(sc, 170)
for s in sc:
    race(list(s["kind"]), s["n"], Follow(s["sched"]), False, "model/%d/%s" % (s["n"], "-".join(sorted(s["kind"]))))
KINDS = ["leaf", "bag", "bag1", "bad"]
for k in range(45 if a.quick else 1500):
    kinds = [rng.choice(KINDS) for _ in range(rng.choice([1, 1, 2]))]
    # line-level switches: the interesting region is the first few hundred lines after the walk starts
    m = rng.choice([1, 1, 2, 3])
    at = [(rng.randrange(1, 420), rng.randrange(3)) for _ in range(m)]
    race(kinds, rng.choice([2, 2, 3]), Switch(at), True, "lines/%d/%s" % (m, "-".join(sorted(kinds))))
a.out.close()
