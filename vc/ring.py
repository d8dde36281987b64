"""Normaliser for real terms: rational functions over Q in 'atoms' (variables and
applications of transcendental functions to normalised arguments) modulo
s^2+c^2=1, sqrt(u)^2=u, |u|^2=u^2 and unit-vector relations.  Decides equalities
t1 == t2 'wherever both sides are defined' (all denominators nonzero, radicands
and logarithm arguments in domain).  Sound: an answer True is a proof."""
from fractions import Fraction
import math, time
import numpy as np
from term import *
import term as TM

class Limit(Exception):
    pass

MAXTERMS = 60000

# polynomials: dict mono -> Fraction ; mono: tuple((idx,exp),...) sorted by idx
def padd(a, b, k=1):
    if len(a) < len(b) and k == 1: a, b = b, a
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + k * c
        if v == 0: r.pop(m, None)
        else: r[m] = v
    return r

def mmul(m, n):
    if not m: return n
    if not n: return m
    d = dict(m)
    for i, e in n: d[i] = d.get(i, 0) + e
    return tuple(sorted(d.items()))

def pmul(a, b):
    if len(a) * len(b) > 4000000: raise Limit('poly size')
    if len(a) == 1:
        (m, c), = a.items()
        if not m: return {n: c * d for n, d in b.items()}
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = mmul(m, n)
            v = r.get(k, 0) + c * d
            if v == 0: r.pop(k, None)
            else: r[k] = v
    if len(r) > MAXTERMS: raise Limit('poly terms')
    return r

def ppow(a, n):
    r = {(): Fraction(1)}
    for _ in range(n): r = pmul(r, a)
    return r

def pconst(c):
    return {(): Fraction(c)} if c != 0 else {}

class RF:
    """N / prod D_i^e_i  (D: dict polykey -> exp)"""
    __slots__ = ('n', 'd')
    def __init__(self, n, d=None):
        self.n = n
        self.d = d or {}

def pkey(p):
    return tuple(sorted(p.items()))

class Ring:
    def __init__(self, pool=None, mask=None, ranges=None, unit3=None, prove_sign=None, deadline=None):
        self.atoms = []          # list of (kind, data)
        self.bykey = {}
        self.rel = {}            # idx -> RF  (atom^2 = RF)
        self.memo = {}
        self.pool = pool
        self.mask = mask if mask is None or mask.any() else None      # samples only guide the search
        self.ranges = ranges or {}
        self.unit3 = unit3 or {}     # T(z) -> (x,y)
        self.prove_sign = prove_sign
        self.angden = {}
        self.funs = {}           # fname -> list of (argsRF, numeric, atom idx)
        self.angles = []         # (base RF numeric..., cos RF, sin RF)
        self.deadline = deadline
        self.assumed = set()

    # -------- helpers
    def check_time(self):
        if self.deadline and time.time() > self.deadline: raise Limit('ring time')

    def atom(self, key):
        i = self.bykey.get(key)
        if i is None:
            i = len(self.atoms)
            self.bykey[key] = i
            self.atoms.append(key)
        return i

    def A(self, i):
        return RF({((i, 1),): Fraction(1)})

    def const(self, c): return RF(pconst(c))

    def factor(self, p):
        """p (poly, nonzero) -> (coef, {polykey:exp}) splitting off monomials and content"""
        if len(p) == 1:
            (m, c), = p.items()
            return c, {((((i, 1),), Fraction(1)),): e for i, e in m}
        # common monomial
        common = None
        for m in p:
            d = dict(m)
            common = d if common is None else {i: min(e, d[i]) for i, e in common.items() if i in d}
            if not common: break
        fac = {}
        if common:
            for i, e in common.items(): fac[((((i, 1),), Fraction(1)),)] = e
            q = {}
            for m, c in p.items():
                d = dict(m)
                for i, e in common.items():
                    d[i] -= e
                    if d[i] == 0: del d[i]
                q[tuple(sorted(d.items()))] = c
            p = q
        lead = p[max(p)]
        p = {m: c / lead for m, c in p.items()}
        k = pkey(p)
        fac[k] = fac.get(k, 0) + 1
        return lead, fac

    def expandD(self, d):
        r = {(): Fraction(1)}
        for k, e in d.items(): r = pmul(r, ppow(dict(k), e))
        return r

    def add(self, a, b):
        if not a.n: return b
        if not b.n: return a
        if a.d == b.d:
            n = padd(a.n, b.n)
            return RF(n, a.d if n else {})
        L = dict(a.d)
        for k, e in b.d.items(): L[k] = max(L.get(k, 0), e)
        fa = {k: e - a.d.get(k, 0) for k, e in L.items() if e > a.d.get(k, 0)}
        fb = {k: e - b.d.get(k, 0) for k, e in L.items() if e > b.d.get(k, 0)}
        n = padd(pmul(a.n, self.expandD(fa)), pmul(b.n, self.expandD(fb)))
        return RF(n, L if n else {})

    def neg(self, a): return RF({m: -c for m, c in a.n.items()}, a.d)
    def sub(self, a, b): return self.add(a, self.neg(b))

    def mul(self, a, b):
        if not a.n or not b.n: return RF({})
        d = dict(a.d)
        for k, e in b.d.items(): d[k] = d.get(k, 0) + e
        # cancel factors syntactically: numerator single-monomial or equal to a factor
        an, bn = a.n, b.n
        an, d = self.cancel(an, d)
        bn, d = self.cancel(bn, d)
        return RF(pmul(an, bn), d)

    def cancel(self, n, d):
        if not d: return n, d
        d = dict(d)
        # monomial common factors
        for k in list(d):
            p = dict(k)
            if len(p) == 1:
                (m, _), = p.items()
                i = m[0][0]
                mn = min((dict(x).get(i, 0) for x in n), default=0)
                c = min(mn, d[k])
                if c:
                    q = {}
                    for mm, cc in n.items():
                        dd = dict(mm); dd[i] -= c
                        if dd[i] == 0: del dd[i]
                        q[tuple(sorted(dd.items()))] = cc
                    n = q
                    d[k] -= c
                    if d[k] == 0: del d[k]
            elif len(p) == len(n):
                lead = n[max(n)]
                if pkey({m: c / lead for m, c in n.items()}) == k:
                    n = pconst(lead)
                    d[k] -= 1
                    if d[k] == 0: del d[k]
        return n, d

    def inv(self, a):
        if not a.n: raise ZeroDivisionError
        n = self.simp_n(a)
        c, fac = self.factor(n)
        num = {(): 1 / c}
        # old denominators become numerators; try cancel
        d = dict(fac)
        for k, e in a.d.items():
            t = min(e, d.get(k, 0))
            if t:
                d[k] -= t
                if d[k] == 0: del d[k]
            if e - t: num = pmul(num, ppow(dict(k), e - t))
        return RF(num, d)

    def simp_n(self, a):
        return a.n

    def div(self, a, b): return self.mul(a, self.inv(b))

    def reduce_low(self, a):
        """apply relations once to lower even powers (keeps expressions small)"""
        n = a.n
        hot = set()
        for m in n:
            for i, e in m:
                if e >= 2 and i in self.rel and not self.rel[i].d:
                    hot.add(i)
        if not hot: return a
        for _ in range(20):
            r = {}
            ch = False
            for m, c in n.items():
                for i, e in m:
                    if e >= 2 and i in self.rel and not self.rel[i].d:
                        rest = dict(m)
                        rest[i] = e - 2 * (e // 2)
                        if rest[i] == 0: del rest[i]
                        t = pmul({tuple(sorted(rest.items())): c}, ppow(self.rel[i].n, e // 2))
                        for mm, cc in t.items():
                            v = r.get(mm, 0) + cc
                            if v == 0: r.pop(mm, None)
                            else: r[mm] = v
                        ch = True
                        break
                else:
                    v = r.get(m, 0) + c
                    if v == 0: r.pop(m, None)
                    else: r[m] = v
            n = r
            if not ch: break
            if len(n) > MAXTERMS: raise Limit('terms')
        d = a.d
        if not n: d = {}
        return RF(n, d)

    def iszero_poly(self, n, depth=0):
        self.check_time()
        if not n: return True
        top = -1
        for m in n:
            for i, e in m:
                if i in self.rel and i > top: top = i
        if top < 0: return False
        ev, od = {}, {}
        mx = 0
        for m, c in n.items():
            d = dict(m)
            e = d.pop(top, 0)
            mm = tuple(sorted(d.items()))
            (od if e % 2 else ev).setdefault(e // 2, {})
            tgt = (od if e % 2 else ev)[e // 2]
            tgt[mm] = tgt.get(mm, 0) + c
            mx = max(mx, e // 2)
        u = self.rel[top]
        U, D = u.n, self.expandD(u.d)
        for part in (od, ev):
            if not part: continue
            tot = {}
            mk_ = max(part)
            for k, p in part.items():
                q = p
                if k: q = pmul(q, ppow(U, k))
                if mk_ - k: q = pmul(q, ppow(D, mk_ - k))
                tot = padd(tot, q)
            if not self.iszero_poly(tot, depth + 1): return False
        return True

    def to_term(self, z):
        def poly(p):
            r = ZERO
            for m, c in p.items():
                t = c
                for i, e in m:
                    k = self.atoms[i]
                    if not isinstance(k, T): return None
                    if k.op == 'fabs':
                        w = self.to_term(self.nf(k.args[0]))
                        if w is not None: k = rfun('fabs', w)
                    for _ in range(e): t = rmul(t, k)
                r = radd(r, t)
            return r
        if len(z.n) > 60: return None
        n = poly(z.n)
        if n is None: return None
        d = ONE
        for k, e in z.d.items():
            q = poly(dict(k))
            if q is None: return None
            for _ in range(e): d = rmul(d, q)
        return n if d is ONE else rdiv(n, d)

    def iszero(self, a): return self.iszero_poly(a.n)

    # -------- numeric fingerprints
    def num(self, t):
        if self.pool is None: return None
        v = self.pool.ev(t)
        v = np.broadcast_to(np.asarray(v, dtype=float), (self.pool.n,))
        if self.mask is not None: v = v[self.mask]
        return v[:64]

    @staticmethod
    def close(a, b):
        if a is None or b is None: return True
        if len(a) == 0: return True
        with np.errstate(all='ignore'):
            ok = np.isfinite(a) & np.isfinite(b)
            if not ok.any(): return True
            a, b = a[ok], b[ok]
            return bool(np.all(np.abs(a - b) <= 1e-6 * (1 + np.abs(a) + np.abs(b))))

    # -------- terms
    def nf(self, t):
        if not is_t(t): return self.const(t)
        r = self.memo.get(t)
        if r is not None: return r
        for s in atoms([t]):
            if s not in self.memo and s.sort == 'R':
                if self.under_sum(s): continue
                self.memo[s] = self.nf1(s)
        return self.memo[t]

    def under_sum(self, s):
        return False

    def nf1(self, t):
        self.check_time()
        op, a = t.op, t.args
        if op == '+': return self.reduce_low(self.add(self.nf(a[0]), self.nf(a[1])))
        if op == 'neg': return self.neg(self.nf(a[0]))
        if op == '*': return self.reduce_low(self.mul(self.nf(a[0]), self.nf(a[1])))
        if op == '/':
            b = self.nf(a[1])
            if self.iszero(b): raise Limit('division by identically zero')
            return self.reduce_low(self.mul(self.nf(a[0]), self.inv(b)))
        if op == 'rvar':
            i = self.atom(t)
            if t in self.unit3 and i not in self.rel:
                x, y = self.unit3[t]
                xr, yr = self.nf(x), self.nf(y)
                # make sure z is above x,y in atom order
                i = self.retop(t)
                self.rel[i] = self.sub(self.const(1), self.add(self.mul(xr, xr), self.mul(yr, yr)))
            return self.A(i)
        if op == 'pi': return self.A(self.atom(t))
        if op in ('sin', 'cos'): return self.trig(op, a[0])
        if op == 'tan': return self.div(self.trig('sin', a[0]), self.trig('cos', a[0]))
        if op == 'ite': return self.A(self.atom(t))
        if op == 'i2r': return self.A(self.atom(t))
        if op == 'sqrt': return self.sqrt(t)
        if op == 'fabs': return self.fabs(t)
        if op == 'acos': return self.acos(t)
        if op == 'atan2': return self.atan2(t)
        if op == 'exp': return self.exp(t)
        if op == 'pow': return self.pow(t)
        if op == 'sum': return self.sum(t)
        if op == 'arr' : return self.A(self.atom(t))
        # generic function of reals: congruence through normalised arguments
        return self.A(self.generic(t))

    def retop(self, t):
        i = self.bykey[t]
        if i == len(self.atoms) - 1: return i
        # re-register at the end
        del self.bykey[t]
        self.atoms[i] = ('dead', t)
        return self.atom(t)

    def eqargs(self, t, s):
        for x, y in zip(t.args, s.args):
            if x is y: continue
            if is_t(x) and x.sort != 'R' or is_t(y) and y.sort != 'R':
                if is_t(x) or is_t(y) or x != y: return False
                continue
            if isinstance(x, str) or isinstance(y, str):
                if x != y: return False
                continue
            if not self.close(self.num(x), self.num(y)): return False
        for x, y in zip(t.args, s.args):
            if x is y or isinstance(x, str): continue
            if not self.iszero(self.sub(self.nf(x), self.nf(y))): return False
        return True

    def generic(self, t):
        lst = self.funs.setdefault((t.op, len(t.args)), [])
        for s, i in lst:
            if self.eqargs(t, s): return i
        i = self.atom(t)
        lst.append((t, i))
        return i

    def trivial_reg(self, t):
        lst = self.funs.setdefault((t.op, len(t.args)), [])
        for s, i in lst:
            if self.eqargs(t, s): return i
        return None

    # ---- sqrt / fabs
    def sign_of(self, t):
        """+1/-1/0(unknown) under the path condition (proved)"""
        v = self.num(t)
        if v is None or self.prove_sign is None: return 0
        ok = v[np.isfinite(v)]
        if len(ok) and (ok > 1e-12).any() and (ok < -1e-12).any(): return 0
        if len(ok) == 0 or (ok >= -1e-12).all():
            if self.prove_sign(t, 1): return 1
        if len(ok) == 0 or (ok <= 1e-12).all():
            if self.prove_sign(t, -1): return -1
        return 0

    def sqrt(self, t):
        u = t.args[0]
        i = self.trivial_reg(t)
        if i is not None: return self.A(i)
        ur = self.nf(u)
        # constant?
        if not ur.n: return self.const(0)
        if not ur.d and len(ur.n) == 1 and () in ur.n:
            c = ur.n[()]
            k = rfun('sqrt', c)
            if not is_t(k): return self.const(k)
        # perfect squares of known candidates
        w = self.find_root(u, ur)
        if w is not None: return w
        i = self.atom(t)
        self.funs.setdefault((t.op, 1), []).append((t, i))
        self.rel[i] = ur
        return self.A(i)

    def find_root(self, u, ur):
        v = self.num(u)
        if v is None or len(v) == 0: return None
        with np.errstate(all='ignore'):
            sv = np.sqrt(v)
            fin = np.isfinite(sv)
            if not fin.any(): return None
            cands = []
            for key in self.atoms:
                if isinstance(key, T) and key.op in ('sin', 'cos', 'rvar', 'sqrt', 'fabs', 'pi', 'i2r', 'exp', 'pow'):
                    cands.append(key)
            one = ONE
            nums = [(c, self.num(c)) for c in cands[-60:]]
            trip = [((c,), n) for c, n in nums]
            for a in range(len(nums)):
                for b in range(a + 1, len(nums)):
                    trip.append(((nums[a][0], nums[b][0]), nums[a][1] * nums[b][1]))
            trip += [((c, 'inv'), 1.0 / n) for c, n in nums]
            subs = [x for x in atoms([u]) if x.op in ('+', '*') and x is not u]
            if len(subs) <= 80: trip += [((c,), self.num(c)) for c in subs]
            for cs, n in trip:
                r = sv / np.abs(n)
                rr = r[fin & np.isfinite(r)]
                if len(rr) < 3: continue
                if rr.max() - rr.min() > 1e-9 * abs(rr.max()): continue
                k2 = Fraction(float(np.median(rr)) ** 2).limit_denominator(100000)
                if k2 <= 0: continue
                if 'inv' in cs: w = rdiv(ONE, cs[0])
                else:
                    w = cs[0]
                    for c in cs[1:]: w = rmul(w, c)
                wr = self.nf(w)
                if not self.iszero(self.sub(ur, self.mul(self.const(k2), self.mul(wr, wr)))): continue
                s = self.sign_of(w)
                if s == 0: continue
                k = rfun('sqrt', k2)
                return self.mul(self.mul(self.nf(k), wr), self.const(s))
        return None

    def fabs(self, t):
        s = self.sign_of(t.args[0])
        if s: return self.mul(self.const(s), self.nf(t.args[0]))
        i = self.trivial_reg(t)
        if i is not None: return self.A(i)
        # |-x| == |x|
        ar = self.nf(t.args[0])
        i = self.atom(t)
        self.funs.setdefault((t.op, 1), []).append((t, i))
        self.rel[i] = self.mul(ar, ar)
        return self.A(i)

    # ---- trig
    def lin_angle(self, ar):
        """RF -> list of (monomial key, coef) and pi coefficient, or None"""
        if ar.d: return None
        out = []
        pik = Fraction(0)
        pid = self.bykey.get(PI)
        for m, c in ar.n.items():
            if m == ((pid, 1),): pik = c
            elif m == (): return None if len(ar.n) > 1 or True else None
            else: out.append((m, c))
        return out, pik

    def trig(self, op, arg):
        key = ('trig', arg)
        cs = self.memo.get(key)
        if cs is None:
            cs = self.trig2(arg)
            self.memo[key] = cs
        return cs[0] if op == 'cos' else cs[1]

    def prescan(self, ts):
        """lcm of the denominators of angle coefficients"""
        den = {}
        for s in atoms(ts):
            if s.op in ('sin', 'cos', 'tan'):
                self.scan_angle(s.args[0], Fraction(1), den)
        self.angden = den

    def scan_angle(self, t, k, den):
        if not is_t(t): return
        if t.op == '+':
            self.scan_angle(t.args[0], k, den); self.scan_angle(t.args[1], k, den); return
        if t.op == 'neg': self.scan_angle(t.args[0], k, den); return
        if t.op == '*' and not is_t(t.args[0]):
            self.scan_angle(t.args[1], k * t.args[0], den); return
        if t.op == 'pi': return
        d = den.get(t, 1)
        if k.denominator <= 720:
            den[t] = d * k.denominator // math.gcd(d, k.denominator)

    def split_angle(self, t, k, out):
        if not is_t(t):
            out.append((None, k * t)); return
        if t.op == '+':
            self.split_angle(t.args[0], k, out); self.split_angle(t.args[1], k, out); return
        if t.op == 'neg': self.split_angle(t.args[0], -k, out); return
        if t.op == '*' and not is_t(t.args[0]):
            self.split_angle(t.args[1], k * t.args[0], out); return
        out.append((t, k))

    def trig2(self, arg):
        out = []
        self.split_angle(arg, Fraction(1), out)
        coef = {}
        for t, k in out:
            coef[t] = coef.get(t, Fraction(0)) + k
        C, S = self.const(1), self.const(0)
        for t, k in coef.items():
            if k == 0: continue
            if t is None:
                c, s = self.base_cs(k)
                n = 1
            elif t is PI:
                c, s = self.pi_cs(k); n = 1
            else:
                den = self.angden.get(t, 1)
                kk = k * den
                if kk.denominator != 1 or abs(kk) > 24:
                    c, s = self.base_cs(rmul(k, t)); n = 1
                else:
                    c, s = self.base_cs(t if den == 1 else rmul(Fraction(1, den), t), )
                    n = int(kk)
            if n < 0: s = self.neg(s); n = -n
            for _ in range(n):
                C, S = (self.reduce_low(self.sub(self.mul(C, c), self.mul(S, s))),
                        self.reduce_low(self.add(self.mul(S, c), self.mul(C, s))))
        return C, S

    def pi_cs(self, k):
        k = k % 2
        tab = {Fraction(0): (1, 0), Fraction(1, 2): (0, 1), Fraction(1): (-1, 0), Fraction(3, 2): (0, -1)}
        if k in tab:
            c, s = tab[k]; return self.const(c), self.const(s)
        if (k * 4).denominator == 1:
            r = self.mul(self.const(Fraction(1, 2)), self.nf(rfun('sqrt', Fraction(2))))
            c = r if k in (Fraction(1, 4), Fraction(7, 4)) else self.neg(r)
            s = r if k < 1 else self.neg(r)
            return c, s
        if (k * 6).denominator == 1:
            h = self.const(Fraction(1, 2)); q = self.mul(h, self.nf(rfun('sqrt', Fraction(3))))
            kk = int(k * 6)
            cs = {1: (q, h), 2: (h, q), 4: (self.neg(h), q), 5: (self.neg(q), h), 7: (self.neg(q), self.neg(h)),
                  8: (self.neg(h), self.neg(q)), 10: (h, self.neg(q)), 11: (q, self.neg(h))}
            if kk in cs: return cs[kk]
        return self.base_cs(rmul(k, PI))

    def base_cs(self, t):
        """(cos,sin) normal forms of a base angle term"""
        key = ('base', t)
        r = self.memo.get(key)
        if r is not None: return r
        r = self.base_cs1(t)
        self.memo[key] = r
        return r

    def base_cs1(self, t):
        if is_t(t):
            half = False
            b = t
            if t.op == '*' and t.args[0] == Fraction(1, 2): b = t.args[1]; half = True
            if b.op == 'acos':
                y = b.args[0]
                if not half:
                    return self.nf(y), self.nf(rfun('sqrt', rsub(ONE, rmul(y, y))))
                return (self.nf(rfun('sqrt', rmul(Fraction(1, 2), radd(ONE, y)))),
                        self.nf(rfun('sqrt', rmul(Fraction(1, 2), rsub(ONE, y)))))
            if b.op == 'asin' and not half:
                y = b.args[0]
                return self.nf(rfun('sqrt', rsub(ONE, rmul(y, y)))), self.nf(y)
            if b.op == 'atan' and not half:
                y = b.args[0]
                q = self.nf(rfun('sqrt', radd(ONE, rmul(y, y))))
                return self.inv(q), self.div(self.nf(y), q)
            if b.op == 'atan2' and not half:
                y, x = b.args
                q = self.nf(rfun('sqrt', radd(rmul(x, x), rmul(y, y))))
                if not self.iszero(q):
                    return self.div(self.nf(x), q), self.div(self.nf(y), q)
            # the angle itself may normalise to something simpler
            br = self.nf(t)
            if not br.d and len(br.n) == 1:
                (m, c), = br.n.items()
                if len(m) == 1 and m[0][1] == 1:
                    k = self.atoms[m[0][0]]
                    if isinstance(k, T) and k is not t and k is not b and c.denominator == 1 and abs(c) <= 8:
                        return self.trig2(rmul(c, k))
        # congruence with earlier base angles
        v = self.num(t)
        for s, sv, cs in self.angles:
            if self.close(v, sv) and self.iszero(self.sub(self.nf(t), self.nf(s))): return cs
            if v is not None and self.close(-v, sv) and self.iszero(self.add(self.nf(t), self.nf(s))):
                return cs[0], self.neg(cs[1])
        c = self.atom(mk('cos', (t,), 'R'))
        s = self.atom(mk('sin', (t,), 'R'))
        self.rel[s] = RF({(): Fraction(1), ((c, 2),): Fraction(-1)})
        cs = (self.A(c), self.A(s))
        self.angles.append((t, v, cs))
        return cs

    def in_range(self, t, lo, hi):
        """prove lo <= t <= hi"""
        if self.prove_sign is None: return False
        return self.prove_sign(rsub(t, lo), 1) and self.prove_sign(rsub(hi, t), 1)

    def acos(self, t):
        y = t.args[0]
        i = self.trivial_reg(t)
        if i is not None: return self.A(i)
        yv = self.num(y)
        yr = self.nf(y)
        for s, sv, cs in list(self.angles):
            for sign in (1, -1):
                try: cv = np.cos(sv) * sign
                except Exception: continue
                if self.close(yv, cv) and self.iszero(self.sub(yr, self.mul(self.const(sign), cs[0]))):
                    b = s if sign == 1 else rsub(PI, s)
                    if self.in_range(b, ZERO, PI): return self.nf(b)
                    nb = rneg(s) if sign == 1 else radd(PI, s)
                    if self.in_range(nb, ZERO, PI): return self.nf(nb)
        i = self.atom(t)
        self.funs.setdefault((t.op, 1), []).append((t, i))
        return self.A(i)

    def atan2(self, t):
        y, x = t.args
        i = self.trivial_reg(t)
        if i is not None: return self.A(i)
        tv = self.num(t)
        if not self.nf(y).n and self.prove_sign and is_t(x):
            if self.prove_sign(x, 1): return self.const(0)
            if self.prove_sign(x, -1): return self.nf(PI)
        if tv is not None and len(tv):
            cand = []
            for s, sv, cs in list(self.angles):
                cand.append((s, sv))
            for s2, i2 in self.funs.get(('atan2', 2), []):
                cand.append((s2, self.num(s2)))
            base = list(cand)
            for a in range(len(base)):
                for b in range(len(base)):
                    if a != b and len(base) <= 8:
                        cand.append((radd(base[a][0], base[b][0]), base[a][1] + base[b][1]))
                        cand.append((rsub(base[a][0], base[b][0]), base[a][1] - base[b][1]))
            cand += [(rneg(s), -sv) for s, sv in list(cand)]
            cand0 = list(cand)
            for k in (1, -1, 2, -2):
                cand += [(radd(s, rmul(Fraction(k), PI)), sv + k * np.pi) for s, sv in cand0]
            for s, sv in cand:
                if not self.close(tv, sv): continue
                c, sn = self.trig('cos', s), self.trig('sin', s)
                if not self.iszero(self.sub(self.mul(self.nf(y), c), self.mul(self.nf(x), sn))): continue
                # r = x cos + y sin must be > 0 and s in (-pi, pi]
                rr = radd(rmul(x, rfun('cos', s)), rmul(y, rfun('sin', s)))
                if self.prove_sign and self.prove_sign(rr, 1) and self.in_range(s, rneg(PI), PI):
                    self.assumed.add('atan2 away from its branch cut and the origin')
                    return self.nf(s)
        i = self.atom(t)
        self.funs.setdefault((t.op, 2), []).append((t, i))
        return self.A(i)

    # ---- exp/pow
    def exp(self, t):
        i = self.trivial_reg(t)
        if i is not None: return self.A(i)
        v = self.num(t.args[0])
        for s, i in self.funs.get(('exp', 1), []):
            sv = self.num(s.args[0])
            if v is not None and len(v):
                with np.errstate(all='ignore'):
                    q = v / sv
                    q = q[np.isfinite(q)]
                if len(q) < 2 or q.max() - q.min() > 1e-7 * abs(q.max()): continue
                k = int(round(float(np.median(q))))
                if k == 0 or abs(k) > 8: continue
                if self.iszero(self.sub(self.nf(t.args[0]), self.mul(self.const(k), self.nf(s.args[0])))):
                    r = RF({((i, abs(k)),): Fraction(1)})
                    return r if k > 0 else self.inv(r)
        i = self.atom(t)
        self.funs.setdefault(('exp', 1), []).append((t, i))
        return self.A(i)

    def pow(self, t):
        i = self.trivial_reg(t)
        if i is not None: return self.A(i)
        x, y = t.args
        xv, yv = self.num(x), self.num(y)
        for s, i in self.funs.get(('pow', 2), []):
            sx, sy = s.args
            # x^(-y) / exponent shifted by an integer
            if not self.close(xv, self.num(sx)): continue
            for sg in (1, -1):
                dv = yv - sg * self.num(sy)
                dv = dv[np.isfinite(dv)]
                if len(dv) == 0: continue
                k = round(float(np.median(dv)))
                if abs(k) > 12 or np.abs(dv - k).max() > 1e-7: continue
                if not self.iszero(self.sub(self.nf(x), self.nf(sx))): continue
                if not self.iszero(self.sub(self.sub(self.nf(y), self.mul(self.const(sg), self.nf(sy))), self.const(k))): continue
                xr = self.nf(x)
                r = self.A(i)
                if sg == -1: r = self.inv(r)
                p = xr if k >= 0 else self.inv(xr)
                for _ in range(abs(k)): r = self.mul(r, p)
                return r
        i = self.atom(t)
        self.funs.setdefault(('pow', 2), []).append((t, i))
        return self.A(i)

    # ---- folds
    def sum(self, t):
        kind, lo, hi, b, body = t.args
        if kind == '+':
            # linearity: split the body over its normal form
            br = self.nf(body) if is_t(body) else self.const(body)
            from numev import depends
            dep = lambda i: isinstance(self.atoms[i], T) and depends(self.atoms[i], b)
            if any(dep(i) for k in br.d for m, c in k for i, e in m):
                return self.A(self.sumatom(t))
            tot = RF({})
            groups = {}
            for m, c in br.n.items():
                dm = tuple((i, e) for i, e in m if dep(i))
                im = tuple((i, e) for i, e in m if not dep(i))
                g = groups.setdefault(dm, {})
                g[im] = g.get(im, 0) + c
            for dm, coef in groups.items():
                if not dm:
                    cnt = self.nf(ite(icmp_le(lo, hi), i2r(isub(hi, lo)), ZERO, 'R')) if not (not is_t(lo) and lo == 0) else self.nf(i2r(hi))
                    tot = self.add(tot, self.mul(RF(coef), cnt))
                else:
                    key = ('sum', lo, hi, dm)
                    i = self.atom(key)
                    tot = self.add(tot, self.mul(RF(coef), self.A(i)))
            return self.mul(tot, RF({(): Fraction(1)}, br.d))
        return self.A(self.sumatom(t))

    def sumatom(self, t):
        lst = self.funs.setdefault(('sum', t.args[0]), [])
        for s, i in lst:
            if s.args[1] == t.args[1] and s.args[2] == t.args[2] and self.iszero(self.sub(self.nf(s.args[4]), self.nf(t.args[4]))):
                return i
        i = self.atom(t)
        lst.append((t, i))
        return i

def strip_ites(ts):
    """first ite condition (innermost) occurring in the terms, or None"""
    for s in atoms(ts):
        if s.op == 'ite' and s.sort in ('R', 'I'):
            # innermost first thanks to post-order
            return s.args[0]
    return None
