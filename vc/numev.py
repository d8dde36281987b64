"""Vectorised numeric evaluation of terms on a pool of sample points.  Used only
to (a) recognise feasible branches quickly and (b) look for counterexample
candidates; it never discharges an obligation."""
import numpy as np, hashlib, math
from fractions import Fraction
from term import T, is_t, atoms

def _h(name, k=0):
    """same hash as H() of vc_native.cpp, so that witnesses with abstract functions replay"""
    M = (1 << 64) - 1
    h = 1469598103934665603
    for c in ('%s|%d' % (name, k)).encode():
        h = ((h ^ c) * 1099511628211) & M
    h ^= h >> 29; h = (h * 0xbf58476d1ce4e5b9) & M; h ^= h >> 32
    return (h >> 16) / 281474976710656.0

class Pool:
    def __init__(self, n, seed):
        self.n = n
        self.seed = seed
        self.val = {}
        self.memo = {}
        self.kind = {}
        self.lastunit = None

    def rng(self, name):
        h = int.from_bytes(hashlib.sha256(('%d:%s' % (self.seed, name)).encode()).digest()[:8], 'big')
        return np.random.default_rng(h)

    def real(self, name, lo=None, hi=None):
        r = self.rng(name)
        n = self.n
        if lo is None and hi is None:
            v = r.normal(0, 1.5, n)
            k = r.integers(0, 12, n)
            v = np.where(k == 0, np.round(v), v)
            v = np.where(k == 1, r.uniform(0, 1, n), v)
            v = np.where(k == 2, v * 10.0 ** -r.uniform(0, 4, n), v)
        else:
            if lo is None: lo = hi - 10
            if hi is None: hi = lo + 10
            v = r.uniform(lo, hi, n)
            k = r.integers(0, 24, n)
            v = np.where(k == 0, lo, v)
            v = np.where(k == 1, hi, v)
            if lo <= 0 <= hi: v = np.where(k == 2, 0.0, v)
            v = np.where(k == 3, lo + (hi - lo) * np.round((v - lo) / (hi - lo) * 4) / 4, v)
            e = (hi - lo) * 10.0 ** -r.uniform(0, 4, n)
            v = np.where(k == 4, lo + e, np.where(k == 5, hi - e, v))
            if lo < 0 < hi: v = np.where(k == 6, np.clip(np.where(r.integers(0, 2, n) == 0, e, -e), lo, hi), v)
        return v

    def int(self, name, lo, hi):
        r = self.rng(name)
        if hi - lo > 50:
            small = r.integers(lo, lo + 20, self.n)
            big = r.integers(max(lo, hi - 20), hi + 1, self.n)
            mid = r.integers(lo, hi + 1, self.n)
            k = r.integers(0, 4, self.n)
            return np.where(k == 0, big, np.where(k == 1, small, mid)).astype(np.float64)
        return r.integers(lo, hi + 1, self.n).astype(np.float64)

    def unit3(self, name):
        r = self.rng(name)
        v = r.normal(0, 1, (3, self.n))
        k = r.integers(0, 16, self.n)
        e = 10.0 ** -r.uniform(0, 4, self.n)
        v[0] = np.where((k == 0) | (k == 1), v[0] * e, v[0])     # towards the normal, the coordinate planes, the horizon
        v[1] = np.where((k == 0) | (k == 2), v[1] * e, v[1])
        v[2] = np.where(k == 3, v[2] * e, v[2])
        v /= np.sqrt((v * v).sum(0))
        if self.lastunit is not None:                            # close to the previous direction
            k = r.integers(0, 16, self.n)
            w = self.lastunit + v * 10.0 ** -r.uniform(1, 4, self.n)
            v = np.where(k == 0, w / np.sqrt((w * w).sum(0)), v)
        self.lastunit = v
        return v

    def set(self, t, arr):
        self.val[t] = arr
        self.memo[t] = arr

    def ev(self, t, memo=None):
        if not is_t(t):
            return float(t)
        if memo is None: memo = self.memo
        r = memo.get(t)
        if r is not None: return r
        with np.errstate(all='ignore'):
            for s in atoms_needed(t, memo):
                memo[s] = self._ev1(s, memo)
        return memo[t]

    def _ev1(self, t, memo):
        op, a = t.op, t.args
        g = lambda x: memo[x] if is_t(x) else float(x)
        if op == 'pi': return math.pi
        if op == 'rvar':
            if a[0] == '__inf': return np.inf
            if a[0] == '__ninf': return -np.inf
            if a[0] == '__nan': return np.nan
            if t in self.val: return self.val[t]
            v = self.real(a[0]); self.val[t] = v
            return v
        if op == 'ivar':
            if t in self.val: return self.val[t]
            v = self.int(a[0], 0, 8); self.val[t] = v
            return v
        if op == 'bvar':
            return self.rng(a[0]).integers(0, 2, self.n).astype(bool)
        if op == '+': return g(a[0]) + g(a[1])
        if op == '*': return g(a[0]) * g(a[1])
        if op == '/': return np.divide(g(a[0]), g(a[1]))
        if op == 'neg': return -g(a[0])
        if op == 'i2r': return g(a[0])
        if op == 'ilin':
            r = float(a[0])
            for m, k in a[1]:
                p = float(k)
                for x in m: p = p * memo[x]
                r = r + p
            return r
        if op == 'itrunc': return np.trunc(g(a[0]))
        if op == 'ifloor': return np.floor(g(a[0]))
        if op == 'idiv': return np.floor(np.divide(g(a[0]), g(a[1])))
        if op == 'imod':
            x, y = g(a[0]), g(a[1])
            return x - y * np.floor(np.divide(x, y))
        if op == 'sqrt': return np.sqrt(g(a[0]))
        if op in ('sin', 'cos', 'tan', 'exp', 'log', 'floor', 'ceil'):
            return getattr(np, op)(g(a[0]))
        if op == 'acos': return np.arccos(g(a[0]))
        if op == 'asin': return np.arcsin(g(a[0]))
        if op == 'atan': return np.arctan(g(a[0]))
        if op == 'atan2': return np.arctan2(g(a[0]), g(a[1]))
        if op == 'pow': return np.power(np.asarray(g(a[0]), dtype=float), g(a[1]))
        if op == 'fabs': return np.abs(g(a[0]))
        if op == 'rint': return np.rint(g(a[0]))
        if op == 'round':
            x = g(a[0]); return np.sign(x) * np.floor(np.abs(x) + 0.5)
        if op in ('erf', 'tgamma', 'lgamma', 'cbrt'):
            f = np.vectorize(getattr(math, op) if hasattr(math, op) else (lambda x: np.cbrt(x)))
            try: return f(g(a[0]))
            except Exception: return np.nan
        if op == '<': return np.asarray(g(a[0]) < g(a[1]))
        if op == '<=': return np.asarray(g(a[0]) <= g(a[1]))
        if op == '=': return np.asarray(g(a[0]) == g(a[1]))
        if op == 'i>=0': return np.asarray(g(a[0]) >= 0)
        if op == 'i=0': return np.asarray(g(a[0]) == 0)
        B = lambda x: memo[x] if is_t(x) else bool(x)
        if op == 'not': return ~np.asarray(B(a[0]), dtype=bool)
        if op == 'and': return np.asarray(B(a[0])) & np.asarray(B(a[1]))
        if op == 'or': return np.asarray(B(a[0])) | np.asarray(B(a[1]))
        if op == 'ite':
            if t.sort == 'B': return np.where(B(a[0]), B(a[1]), B(a[2]))
            return np.where(B(a[0]), g(a[1]), g(a[2]))
        if op in ('uf', 'arr'):
            return self._uf(op, a, g)
        if op == 'sum':
            return self._sum(t, memo)
        raise NotImplementedError('numeric ' + op)

    def _uf(self, op, a, g):
        name = a[0]
        if op == 'arr':
            x = g(a[1])
            h = _h(name)
            v = np.sin(np.asarray(x, dtype=float) * 12.9898 + h * 7.0) * 43758.5453
            v = v - np.floor(v)
            return v if name.startswith('+') else v * 4 - 2
        dk = 0
        if name.startswith('digits') and name[6:].isdigit():
            q = int(name[6:]); x = np.broadcast_to(np.asarray(g(a[1]), dtype=float), (self.n,))
            return np.array([float('%.*g' % (q, y)) for y in x])
        if name[0] == 'D' and ':' in name:
            dk = int(name[1:name.index(':')]); name = name[name.index(':') + 1:]
        tot = _h(name, 77) * 3
        for k, x in enumerate(a[1:], 1):
            w = 0.3 + _h(name, k)
            tot = tot + w * g(x)
        if dk: return (0.3 + _h(name, dk)) * np.cos(tot)
        return 1.2 + np.sin(tot)

    def _sum(self, t, memo):
        kind, lo, hi, b, body = t.args
        lo = memo[lo] if is_t(lo) else lo
        hi = memo[hi] if is_t(hi) else hi
        lo = np.broadcast_to(np.asarray(lo, dtype=float), (self.n,))
        hi = np.broadcast_to(np.asarray(hi, dtype=float), (self.n,))
        mx = int(np.nanmax(hi - lo)) if self.n else 0
        mx = min(mx, 64)
        acc = np.zeros(self.n) if kind in ('+',) else (np.ones(self.n) if kind == '*' else np.full(self.n, -np.inf if kind == 'max' else np.inf))
        for k in range(max(mx, 0)):
            m2 = {}
            for s in atoms([body]):
                if s is b: continue
                if s in memo and not depends(s, b): m2[s] = memo[s]
            m2[b] = lo + k
            v = self.ev(body, m2) if is_t(body) else float(body)
            act = lo + k < hi
            if kind == '+': acc = acc + np.where(act, v, 0.0)
            elif kind == '*': acc = acc * np.where(act, v, 1.0)
            elif kind == 'max': acc = np.where(act, np.maximum(acc, v), acc)
            else: acc = np.where(act, np.minimum(acc, v), acc)
        return acc

_dep = {}
def depends(t, b):
    k = (t, b)
    r = _dep.get(k)
    if r is None:
        r = False
        for s in atoms([t]):
            if s is b: r = True; break
        _dep[k] = r
    return r

def atoms_needed(t, memo):
    """post-order of subterms not yet in memo"""
    out = []; seen = set()
    stack = [(t, False)]
    while stack:
        x, done = stack.pop()
        if done:
            out.append(x); continue
        if x in seen or x in memo: continue
        seen.add(x)
        stack.append((x, True))
        if x.op == 'ilin':
            for mono, k in x.args[1]:
                for a in mono:
                    if a not in memo and a not in seen: stack.append((a, False))
        elif x.op == 'sum':
            for a in x.args[1:3]:
                if is_t(a): stack.append((a, False))
            # the body is evaluated separately; but its free parts are needed lazily
        else:
            for a in x.args:
                if is_t(a) and a not in memo and a not in seen: stack.append((a, False))
    return out
