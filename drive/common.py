"""Shared by the drivers: they run under the interpreter of the code under test, exercise it through its public
interface, and write one JSON record per observation.  They decide nothing: the TLA+ modules judge the records."""
import json, os, random, signal, sys
import warnings
warnings.filterwarnings("ignore")

class Timeout(BaseException):
    pass

def enc(x):
    """exact text of a float (or int) for module Rat"""
    if isinstance(x, bool):
        return x
    if isinstance(x, int):
        return str(x)
    x = float(x)
    if x != x:
        return "nan"
    if x in (float("inf"), float("-inf")):
        return "inf" if x > 0 else "-inf"
    return x.hex()

def vec(v, n=3):
    return [enc(v[k]) for k in range(n)]

def mat(m, r=4, c=4):
    return [[enc(m[a][b]) for b in range(c)] for a in range(r)]

class Out(object):
    def __init__(self, path):
        self.f = open(path, "w")
        self.n = 0
    def put(self, **rec):
        self.f.write(json.dumps(rec) + "\n")
        self.n += 1
    def close(self):
        self.f.close()

HANGS = [0]

def attempt(fn, secs=60):
    """(True, value) or (False, 'ErrorType: message'); a hang becomes 'Timeout': secs of processor time, or four times
    as long on the clock (a blocked call); after three hangs the next ones are given up sooner."""
    def on_alarm(sig, frm):
        raise Timeout()
    if HANGS[0] >= 3:
        secs = max(4, secs / 15.)
    old = signal.signal(signal.SIGALRM, on_alarm)
    oldv = signal.signal(signal.SIGVTALRM, on_alarm)
    signal.setitimer(signal.ITIMER_REAL, secs * 4)
    signal.setitimer(signal.ITIMER_VIRTUAL, secs)
    try:
        return True, fn()
    except Timeout:
        HANGS[0] += 1
        return False, "Timeout"
    except BaseException as e:  # noqa - the code under test may raise anything
        if isinstance(e, KeyboardInterrupt):
            raise
        return False, "%s: %s" % (type(e).__name__, str(e)[:160])
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGALRM, old)
        signal.signal(signal.SIGVTALRM, oldv)

class Args(object):
    pass

def setup():
    """argv: out-file tier seed part parts [scenario-file]"""
    a = Args()
    a.out = Out(sys.argv[1])
    a.tier = sys.argv[2]
    a.seed = int(sys.argv[3])
    a.part = int(sys.argv[4])
    a.parts = int(sys.argv[5])
    a.scen = sys.argv[6] if len(sys.argv) > 6 else None
    a.rng = random.Random(a.seed * 1000003 + a.part * 7919 + 17)
    import numpy as np
    np.random.seed((a.seed * 131 + a.part) % (2 ** 31))
    np.seterr(all="ignore")
    sys.stdout = open(os.devnull, "w")
    a.quick = a.tier != "thorough"
    return a

def scenarios(a):
    """the share of this part of the scenarios TLC generated"""
    out = []
    with open(a.scen) as f:
        for k, line in enumerate(f):
            if k % a.parts == a.part:
                out.append(json.loads(line))
    return out
