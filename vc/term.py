"""Hash-consed terms: Real, Int and Bool.  Concrete values are plain Python
Fraction / int / bool; everything symbolic is a T node."""
from fractions import Fraction
import math

class T:
    __slots__ = ('op', 'args', 'sort', 'id', 'cache')
    def __repr__(self):
        return show(self)
    def __bool__(self):
        raise TypeError('symbolic truth value: %r' % (self,))

_tab = {}
_cnt = [0]

def mk(op, args, sort):
    k = (op, args, sort)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op; t.args = args; t.sort = sort; t.cache = None
        _cnt[0] += 1
        t.id = _cnt[0]
        _tab[k] = t
    return t

def is_t(x):
    return isinstance(x, T)

def show(t, depth=12):
    if not is_t(t):
        if isinstance(t, Fraction):
            return str(t)
        return str(t)
    if depth == 0:
        return '..'
    if t.op in ('rvar', 'ivar', 'bvar'):
        return t.args[0]
    if t.op == 'ilin':
        s = []
        c, ms = t.args
        for m, k in ms:
            s.append(('%d*' % k if k != 1 else '') + '*'.join(show(a, depth - 1) for a in m))
        if c: s.append(str(c))
        return '(' + ' + '.join(s) + ')'
    return '(' + t.op + ' ' + ' '.join(show(a, depth - 1) if not isinstance(a, tuple) else
                                     str(a) for a in t.args) + ')'

# ------------------------------------------------------------------ reals
PI = mk('pi', (), 'R')
ZERO = Fraction(0)
ONE = Fraction(1)

def rvar(n): return mk('rvar', (n,), 'R')
def ivar(n): return mk('ivar', (n,), 'I')
def bvar(n): return mk('bvar', (n,), 'B')

_litcache = {}
import struct as _struct
F32PI = [(_struct.unpack('<f', _struct.pack('<f', float(k) * math.pi ** s))[0], k, s) for k, s in
         [(Fraction(k), 1) for k in (1, 2, 4)] + [(Fraction(1, k), 1) for k in (2, 3, 4, 6, 180)] + [(Fraction(k), -1) for k in (1, 2, 180)] + [(Fraction(1, 2), -1)]]
def float_literal(d):
    """A double literal of the program read as the simplest real that rounds to
    it: a rational with a small denominator, the shortest decimal, or a small
    rational multiple of pi."""
    r = _litcache.get(d)
    if r is not None:
        return r
    if d != d or d in (float('inf'), float('-inf')):
        # infinities: outside the real model; kept as named symbols
        r = mk('rvar', ('__inf' if d > 0 else ('__nan' if d != d else '__ninf'),), 'R')
    elif d == 0 or abs(d) in (6.123233995736766e-17, 1.8369701987210297e-16, 1.2246467991473532e-16):
        # (folded by the compiler: the cosine of pi/2, 3pi/2 and the sine of pi)
        r = ZERO
    else:
        f = Fraction(d)
        for v, k, s in F32PI:              # multiples of pi rounded to binary32
            if abs(d) == v:
                r = rmul(k, PI) if s > 0 else rdiv(k, PI)
                _litcache[d] = r = r if d > 0 else rneg(r)
                return r
        if f.denominator <= 4096 and abs(f.numerator) < 2**40:
            r = f
        else:
            g = f.limit_denominator(10000)
            q = (d / math.pi)
            p = Fraction(q).limit_denominator(1000)
            dec = Fraction(repr(d))
            if dec.denominator <= 10**9:
                r = dec
            elif g.numerator != 0 and float(g) == d:
                r = g
            elif p != 0 and abs(p.numerator) <= 1000 and abs(float(p) * math.pi - d) <= 4e-16 * abs(d):
                r = rmul(p, PI)
            else:
                # multiples of 1/pi
                q = d * math.pi
                p = Fraction(q).limit_denominator(1000)
                if p != 0 and abs(p.numerator) <= 1000 and abs(float(p) / math.pi - d) <= 4e-16 * abs(d):
                    r = rdiv(p, PI)
                elif (abs(Fraction(d * d).limit_denominator(100)) > 0 and Fraction(d * d).limit_denominator(100).numerator <= 1000 and
                      abs(math.sqrt(float(Fraction(d * d).limit_denominator(100))) - abs(d)) <= 4e-16 * abs(d)):
                    s = rfun('sqrt', Fraction(d * d).limit_denominator(100))
                    r = s if d > 0 else rneg(s)
                else:
                    # irrational constants written with 14 or more digits
                    r = dec
                    k = Fraction(d * d / math.pi).limit_denominator(64)
                    if 0 < k.numerator <= 64 and abs(math.sqrt(float(k) * math.pi) - abs(d)) <= 4e-16 * abs(d):
                        r = rfun('sqrt', rmul(k, PI)); _litcache[d] = r = r if d > 0 else rneg(r)
                        return r
                    for v, mkc in ((math.sqrt(0.5), lambda: rfun('sqrt', Fraction(1, 2))), (1 / math.sqrt(2 * math.pi), lambda: rdiv(ONE, rfun('sqrt', rmul(Fraction(2), PI)))),
                                   (math.sqrt(math.pi), lambda: rfun('sqrt', PI)), (1 / math.sqrt(math.pi), lambda: rdiv(ONE, rfun('sqrt', PI)))):
                        if abs(abs(d) - v) <= 2e-14 * v: r = mkc() if d > 0 else rneg(mkc()); break
    _litcache[d] = r
    return r

def radd(a, b):
    if not is_t(a) and not is_t(b): return a + b
    if not is_t(a) and a == 0: return b
    if not is_t(b) and b == 0: return a
    if is_t(a) and is_t(b) and a.id > b.id: a, b = b, a
    if not is_t(b): a, b = b, a
    if is_t(b) and b.op == 'neg' and b.args[0] is a: return ZERO
    if is_t(a) and a.op == 'neg' and a.args[0] is b: return ZERO
    # constant folding through one level
    if not is_t(a) and is_t(b) and b.op == '+' and not is_t(b.args[0]):
        return radd(a + b.args[0], b.args[1])
    return mk('+', (a, b), 'R')

def rneg(a):
    if not is_t(a): return -a
    if a.op == 'neg': return a.args[0]
    if a.op == '*' and not is_t(a.args[0]): return rmul(-a.args[0], a.args[1])
    return mk('neg', (a,), 'R')

def rsub(a, b):
    return radd(a, rneg(b))

def rmul(a, b):
    if not is_t(a) and not is_t(b): return a * b
    if not is_t(b): a, b = b, a
    if not is_t(a):
        if a == 0: return ZERO
        if a == 1: return b
        if a == -1: return rneg(b)
        if b.op == '*' and not is_t(b.args[0]): return rmul(a * b.args[0], b.args[1])
        if b.op == 'neg': return rmul(-a, b.args[0])
        return mk('*', (a, b), 'R')
    if a.op == 'neg': return rneg(rmul(a.args[0], b))
    if b.op == 'neg': return rneg(rmul(a, b.args[0]))
    if a.op == '*' and not is_t(a.args[0]): return rmul(a.args[0], rmul(a.args[1], b))
    if b.op == '*' and not is_t(b.args[0]): return rmul(b.args[0], rmul(a, b.args[1]))
    if a is b and a.op == 'sqrt':
        return a.args[0]
    if a.id > b.id: a, b = b, a
    return mk('*', (a, b), 'R')

def rdiv(a, b):
    if not is_t(b):
        if b == 0:
            return mk('/', (a, ZERO), 'R')
        return rmul(Fraction(1) / b, a) if is_t(a) else a / b
    if a is b: return ONE          # where defined
    if not is_t(a) and a == 0: return ZERO
    if b.op == 'neg': return rneg(rdiv(a, b.args[0]))
    if is_t(a) and a.op == 'neg': return rneg(rdiv(a.args[0], b))
    return mk('/', (a, b), 'R')

def rfun(f, *args):
    a = args[0]
    if f == 'sqrt':
        if not is_t(a):
            if a >= 0:
                n, d = math.isqrt(a.numerator), math.isqrt(a.denominator)
                if n * n == a.numerator and d * d == a.denominator:
                    return Fraction(n, d)
            # canonical: sqrt(n/d) = sqrt(n*d)/d
                if a.denominator != 1:
                    return rmul(Fraction(1, a.denominator), rfun('sqrt', Fraction(a.numerator * a.denominator)))
                if a.numerator < 10**6:
                    n = a.numerator; k = 1; fs = []
                    p = 2
                    while p * p <= n:
                        while n % (p * p) == 0: n //= p * p; k *= p
                        if n % p == 0: fs.append(p); n //= p
                        p += 1
                    if n > 1: fs.append(n)
                    if k != 1 or len(fs) > 1:
                        r = Fraction(k)
                        for p in fs: r = rmul(r, mk('sqrt', (Fraction(p),), 'R'))
                        return r
        elif a.op == '*' and not is_t(a.args[0]) and a.args[0] > 0 and a.args[1].op == 'pi':
            return rmul(rfun('sqrt', a.args[0]), rfun('sqrt', a.args[1]))
    elif f in ('sin', 'tan', 'atan', 'asin', 'erf'):
        if not is_t(a) and a == 0: return ZERO
        if is_t(a) and a.op == 'neg': return rneg(rfun(f, a.args[0]))
        if is_t(a) and a.op == '*' and not is_t(a.args[0]) and a.args[0] < 0:
            return rneg(rfun(f, rneg(a)))
    elif f == 'cos':
        if not is_t(a) and a == 0: return ONE
        if is_t(a) and a.op == 'neg': return rfun('cos', a.args[0])
        if is_t(a) and a.op == 'acos': return a.args[0]
    elif f == 'exp':
        if not is_t(a) and a == 0: return ONE
    elif f == 'log':
        if not is_t(a) and a == 1: return ZERO
    elif f == 'fabs':
        if not is_t(a): return abs(a)
        if a.op == 'neg': return rfun('fabs', a.args[0])
        if a.op in ('fabs', 'sqrt', 'exp', 'acos'): return a
        if a.op == '*' and a.args[0] is a.args[1]: return a
        if a.op == '*' and not is_t(a.args[0]): return rmul(abs(a.args[0]), rfun('fabs', a.args[1]))
    elif f == 'pow':
        b = args[1]
        if not is_t(b):
            if b == 0: return ONE
            if b == 1: return a
            if b == Fraction(1, 2): return rfun('sqrt', a)
            if b.denominator == 1 and 0 < abs(b.numerator) <= 16:
                n = abs(b.numerator); r = a
                for _ in range(n - 1): r = rmul(r, a)
                return r if b > 0 else rdiv(ONE, r)
        if not is_t(a) and a == 1: return ONE
    elif f in ('floor', 'ceil', 'rint', 'round'):
        if not is_t(a):
            if f == 'floor': return Fraction(math.floor(a))
            if f == 'ceil': return Fraction(math.ceil(a))
            if f == 'round':
                s = 1 if a >= 0 else -1
                return Fraction(s * math.floor(abs(a) + Fraction(1, 2)))
            return Fraction(round(a))
        if a.op == 'i2r': return a
        if f == 'floor': return i2r(ifun('ifloor', a))
        if f == 'ceil': return rneg(i2r(ifun('ifloor', rneg(a))))
    elif f == 'fmod':
        b = args[1]
        if not is_t(a) and not is_t(b) and b != 0:
            q = a / b
            q = math.floor(q) if q >= 0 else -math.floor(-q)
            return a - q * b
        return rsub(a, rmul(b, i2r(ifun('itrunc', rdiv(a, b)))))
    elif f == 'acos':
        if not is_t(a):
            if a == 1: return ZERO
            if a == 0: return rmul(Fraction(1, 2), PI)
            if a == -1: return PI
    elif f == 'atan2':
        if not is_t(a) and not is_t(args[1]) and a == 0 and args[1] >= 0: return ZERO
    return mk(f, tuple(args), 'R')

# ------------------------------------------------------------------ ints
def _lin(x):
    """int value -> (const, dict mono->coef)"""
    if not is_t(x): return x, {}
    if x.op == 'ilin': return x.args[0], dict(x.args[1])
    return 0, {(x,): 1}

def _mklin(c, d):
    d = {m: k for m, k in d.items() if k != 0}
    if not d: return c
    if c == 0 and len(d) == 1:
        (m, k), = d.items()
        if k == 1 and len(m) == 1: return m[0]
    items = tuple(sorted(d.items(), key=lambda mk_: tuple(a.id for a in mk_[0])))
    return mk('ilin', (c, items), 'I')

def iadd(a, b):
    if not is_t(a) and not is_t(b): return a + b
    if not is_t(a) and a == 0: return b
    if not is_t(b) and b == 0: return a
    ca, da = _lin(a); cb, db = _lin(b)
    for m, k in db.items(): da[m] = da.get(m, 0) + k
    return _mklin(ca + cb, da)

def ineg(a):
    if not is_t(a): return -a
    c, d = _lin(a)
    return _mklin(-c, {m: -k for m, k in d.items()})

def isub(a, b): return iadd(a, ineg(b))

def imul(a, b):
    if not is_t(a) and not is_t(b): return a * b
    if not is_t(a):
        if a == 0: return 0
        if a == 1: return b
    if not is_t(b):
        if b == 0: return 0
        if b == 1: return a
    ca, da = _lin(a); cb, db = _lin(b)
    r = {}
    for m, k in da.items():
        if cb: r[m] = r.get(m, 0) + k * cb
        for n, l in db.items():
            mm = tuple(sorted(m + n, key=lambda t: t.id))
            r[mm] = r.get(mm, 0) + k * l
    if ca:
        for n, l in db.items(): r[n] = r.get(n, 0) + ca * l
    return _mklin(ca * cb, r)

def ifun(op, *args):
    if op == 'itrunc':
        a = args[0]
        if not is_t(a): return math.trunc(a)
        if a.op == 'i2r': return a.args[0]
        x = r2i(a)
        if x is not None: return x
    elif op == 'ifloor':
        a = args[0]
        if not is_t(a): return math.floor(a)
        if a.op == 'i2r': return a.args[0]
        x = r2i(a)
        if x is not None: return x
    elif op in ('idiv', 'imod'):          # floor semantics, positive divisor
        a, b = args
        if not is_t(a) and not is_t(b) and b != 0:
            return a // b if op == 'idiv' else a % b
        if not is_t(b) and b == 1:
            return a if op == 'idiv' else 0
        if not is_t(b) and b > 0 and is_t(a):
            c, d = _lin(a)
            dq = {m: k // b for m, k in d.items() if k % b == 0}
            dr = {m: k for m, k in d.items() if k % b != 0}
            if not dr:
                q = _mklin(c // b, dq)
                return q if op == 'idiv' else c % b
            if dq or c // b:
                rest = _mklin(c % b, dr)
                if op == 'idiv':
                    return iadd(_mklin(c // b, dq), mk('idiv', (rest, b), 'I'))
                return mk('imod', (rest, b), 'I')
        if is_t(b) and is_t(a):
            cb, db = _lin(b)
            if cb == 0 and len(db) == 1:
                (bm, kb), = db.items()
                c, d = _lin(a); dq = {}; dr = {}
                for m, k in d.items():
                    l = list(m)
                    for f in bm:
                        if f in l: l.remove(f)
                        else: l = None; break
                    if l is None or k % kb: dr[m] = k
                    else: dq[tuple(l)] = k // kb
                if dq:
                    q0 = dq.pop((), 0); q = _mklin(q0, dq)
                    if not dr and c == 0: return q if op == 'idiv' else 0
                    rest = _mklin(c, dr)
                    return iadd(q, mk('idiv', (rest, b), 'I')) if op == 'idiv' else mk('imod', (rest, b), 'I')
    return mk(op, tuple(args), 'I')

def i2r(a):
    if not is_t(a): return Fraction(a)
    if a.op == 'ilin':
        c, ms = a.args
        r = Fraction(c)
        for m, k in ms:
            p = Fraction(k)
            for x in m: p = rmul(p, i2r(x))
            r = radd(r, p)
        return r
    if a.op == 'ite':
        return ite(a.args[0], i2r(a.args[1]), i2r(a.args[2]), 'R')
    return mk('i2r', (a,), 'R')

def r2i(a):
    """exact int term equal to the real term a, if a is syntactically integral"""
    if not is_t(a):
        return a.numerator if a.denominator == 1 else None
    if a.op == 'i2r': return a.args[0]
    if a.op == '+' or a.op == '*':
        x = r2i(a.args[0])
        if x is None: return None
        y = r2i(a.args[1])
        if y is None: return None
        return iadd(x, y) if a.op == '+' else imul(x, y)
    if a.op == 'neg':
        x = r2i(a.args[0])
        return None if x is None else ineg(x)
    return None

def r2split(a):
    """(integer term, rest) with a = their sum"""
    if not is_t(a): return 0, a
    if a.op == '+':
        x = r2split(a.args[0]); y = r2split(a.args[1])
        return iadd(x[0], y[0]), radd(x[1], y[1])
    x = r2i(a)
    return (0, a) if x is None else (x, Fraction(0))

def tdepth(t, cap=100):
    n = 0; seen = set(); st = [t]
    while st:
        x = st.pop()
        if not is_t(x) or x in seen: continue
        seen.add(x); n += 1
        if n >= cap: return n
        st += [y for y in x.args if is_t(y)]
    return n

# ------------------------------------------------------------------ bools
def bnot(a):
    if not is_t(a): return not a
    if a.op == 'not': return a.args[0]
    if a.op == '<': return mk('<=', (a.args[1], a.args[0]), 'B')
    if a.op == '<=': return mk('<', (a.args[1], a.args[0]), 'B')
    if a.op == 'i<': return icmp_le(a.args[1], a.args[0])
    return mk('not', (a,), 'B')

def band(a, b):
    if not is_t(a): return b if a else False
    if not is_t(b): return a if b else False
    if a is b: return a
    if a.id > b.id: a, b = b, a
    return mk('and', (a, b), 'B')

def bor(a, b):
    if not is_t(a): return True if a else b
    if not is_t(b): return True if b else a
    if a is b: return a
    if a.id > b.id: a, b = b, a
    return mk('or', (a, b), 'B')

def bimp(a, b): return bor(bnot(a), b)

def bxor(a, b):
    if not is_t(a): return bnot(b) if a else b
    if not is_t(b): return bnot(a) if b else a
    return ite(a, bnot(b), b, 'B')

def ite(c, a, b, sort):
    if not is_t(c): return a if c else b
    if a is b or (not is_t(a) and not is_t(b) and a == b): return a
    if sort == 'B':
        if a is True and b is False: return c
        if a is False and b is True: return bnot(c)
        if a is True: return bor(c, b)
        if b is False: return band(c, a)
        if a is False: return band(bnot(c), b)
        if b is True: return bor(bnot(c), a)
    if c.op == 'not':
        return ite(c.args[0], b, a, sort)
    return mk('ite', (c, a, b), sort)

def rlt(a, b):
    if not is_t(a) and not is_t(b): return a < b
    if a is b: return False
    return mk('<', (a, b), 'B')

def rle(a, b):
    if not is_t(a) and not is_t(b): return a <= b
    if a is b: return True
    return mk('<=', (a, b), 'B')

def req(a, b):
    if not is_t(a) and not is_t(b): return a == b
    if a is b: return True
    if is_t(a) and is_t(b) and a.id > b.id: a, b = b, a
    if not is_t(a): a, b = b, a
    return mk('=', (a, b), 'B')

def _isnonneg_syn(t):
    if not is_t(t): return t >= 0
    if t.op in ('sqrt', 'fabs', 'exp'): return True
    if t.op == '*': return t.args[0] is t.args[1] or (_isnonneg_syn(t.args[0]) and _isnonneg_syn(t.args[1]))
    if t.op == '+': return _isnonneg_syn(t.args[0]) and _isnonneg_syn(t.args[1])
    if t.op == '/': return _isnonneg_syn(t.args[0]) and _isnonneg_syn(t.args[1])
    return False

def equalities(pc):
    """{term: constant} implied by facts of the form (nonnegative) <= 0 and x = constant"""
    out = {}
    def zero(t):
        if not is_t(t): return
        if t.op == '+':
            if _isnonneg_syn(t): zero(t.args[0]); zero(t.args[1])
            return
        if t.op == '*':
            if t.args[0] is t.args[1]: zero(t.args[0])
            elif not is_t(t.args[0]): zero(t.args[1])
            return
        if t.op == 'neg': zero(t.args[0]); return
        if t.op in ('sqrt', 'fabs'): zero(t.args[0])
        out[t] = ZERO
    for c in pc:
        if not is_t(c): continue
        if c.op == '<=' and not is_t(c.args[1]) and c.args[1] == 0 and _isnonneg_syn(c.args[0]): zero(c.args[0])
        elif c.op == '=':
            a, b = c.args
            if not is_t(a): a, b = b, a
            if is_t(a) and not is_t(b):
                if b == 0 and _isnonneg_syn(a): zero(a)
                elif a.op == 'arr' or a.op == 'rvar' or (a.op in ('sin', 'cos', 'sqrt') and b == 0): out[a] = b
            else:
                if is_t(b) and b.op == 'arr' and not (is_t(a) and a.op == 'arr'): a, b = b, a
                if is_t(a) and a.op == 'arr' and is_t(b) and a not in out and not any(s.op == 'arr' for s in atoms([b])): out[a] = b
    return out

def icmp_lt(a, b):
    return icmp_le(iadd(a, 1), b)

def icmp_le(a, b):
    d = isub(b, a)
    if not is_t(d): return d >= 0
    # normalise by gcd
    if d.op == 'ite' and not is_t(d.args[1]) and not is_t(d.args[2]):
        return ite(d.args[0], d.args[1] >= 0, d.args[2] >= 0, 'B')
    if d.op == 'ilin':
        c, ms = d.args
        g = 0
        for m, k in ms: g = math.gcd(g, k)
        if g > 1:
            d = _mklin(c // g, {m: k // g for m, k in ms})
        # single ite atom with constants
        if d.op == 'ilin' and len(d.args[1]) == 1:
            (m, k), = d.args[1]
            if len(m) == 1 and m[0].op == 'ite' and not is_t(m[0].args[1]) and not is_t(m[0].args[2]):
                c0 = d.args[0]
                return ite(m[0].args[0], k * m[0].args[1] + c0 >= 0, k * m[0].args[2] + c0 >= 0, 'B')
    return mk('i>=0', (d,), 'B')

def icmp_eq(a, b):
    d = isub(a, b)
    if not is_t(d): return d == 0
    if d.op == 'ite' and not is_t(d.args[1]) and not is_t(d.args[2]):
        return ite(d.args[0], d.args[1] == 0, d.args[2] == 0, 'B')
    if d.op == 'ilin':
        c, ms = d.args
        g = 0
        for m, k in ms: g = math.gcd(g, k)
        if c % g != 0: return False
        if ms[0][1] < 0: g = -g
        d = _mklin(c // g, {m: k // g for m, k in ms})
        if is_t(d) and d.op == 'ilin' and len(d.args[1]) == 1:
            (m, k), = d.args[1]
            if len(m) == 1 and m[0].op == 'ite' and not is_t(m[0].args[1]) and not is_t(m[0].args[2]):
                c0 = d.args[0]
                return ite(m[0].args[0], k * m[0].args[1] + c0 == 0, k * m[0].args[2] + c0 == 0, 'B')
    return mk('i=0', (d,), 'B')

# ------------------------------------------------------------ traversal
def subst(t, m, memo=None):
    """replace sub-terms: m maps T -> value"""
    if memo is None: memo = {}
    return _subst(t, m, memo)

def _subst(t, m, memo):
    if not is_t(t): return t
    r = memo.get(t)
    if r is not None: return r
    if t in m:
        r = m[t]
    elif t.op in ('rvar', 'ivar', 'bvar', 'pi'):
        r = t
    else:
        r = rebuild(t, lambda a: _subst(a, m, memo))
    memo[t] = r
    return r

def rebuild(t, f):
    op = t.op
    if op == 'ilin':
        c, ms = t.args
        r = c
        for mono, k in ms:
            p = k
            for a in mono: p = imul(p, f(a))
            r = iadd(r, p)
        return r
    a = [f(x) if is_t(x) else x for x in t.args]
    if op == '+': return radd(*a)
    if op == '*': return rmul(*a)
    if op == '/': return rdiv(*a)
    if op == 'neg': return rneg(*a)
    if op == 'i2r': return i2r(*a)
    if op == '<': return rlt(*a)
    if op == '<=': return rle(*a)
    if op == '=': return req(*a)
    if op == 'i>=0': return icmp_le(0, a[0])
    if op == 'i=0': return icmp_eq(a[0], 0)
    if op == 'not': return bnot(*a)
    if op == 'and': return band(*a)
    if op == 'or': return bor(*a)
    if op == 'ite': return ite(a[0], a[1], a[2], t.sort)
    if op in ('uf', 'arr'):
        return mk(op, tuple(a), t.sort)
    if op == 'sum':
        return mk_sum(*a)
    if t.sort == 'R': return rfun(op, *a)
    if t.sort == 'I': return ifun(op, *a)
    return mk(op, tuple(a), t.sort)

def mk_sum(kind, lo, hi, bound, body):
    """fold over bound in [lo,hi) of body; bound is an ivar"""
    if not is_t(lo) and not is_t(hi) and hi <= lo:
        return ZERO
    canon = ivar('$b')
    b2 = subst(body, {bound: canon}) if bound is not canon else body
    return mk('sum', (kind, lo, hi, canon, b2), 'R')

def atoms(ts):
    """all subterms (post-order) of a list"""
    seen = set(); out = []
    stack = [(t, False) for t in ts if is_t(t)]
    while stack:
        t, done = stack.pop()
        if done:
            out.append(t); continue
        if t in seen: continue
        seen.add(t)
        stack.append((t, True))
        if t.op == 'ilin':
            for mono, k in t.args[1]:
                for a in mono:
                    if a not in seen: stack.append((a, False))
        else:
            for a in t.args:
                if is_t(a) and a not in seen: stack.append((a, False))
    return out

# ------------------------------------------------------------ derivative
def deriv(t, v, memo=None):
    if memo is None: memo = {}
    if not is_t(t): return ZERO
    if t is v: return ONE
    r = memo.get(t)
    if r is not None: return r
    op, a = t.op, t.args
    D = lambda x: deriv(x, v, memo)
    if op in ('rvar', 'pi'): r = ZERO
    elif op == '+': r = radd(D(a[0]), D(a[1]))
    elif op == 'neg': r = rneg(D(a[0]))
    elif op == '*': r = radd(rmul(D(a[0]), a[1]), rmul(a[0], D(a[1])))
    elif op == '/':
        da, db = D(a[0]), D(a[1])
        r = rdiv(da, a[1])
        if is_t(db) or db != 0:
            r = rsub(r, rdiv(rmul(a[0], db), rmul(a[1], a[1])))
    elif op == 'ite': r = ite(a[0], D(a[1]), D(a[2]), 'R')
    elif op == 'i2r': r = ZERO       # piecewise constant
    elif op == 'sum':
        dx = deriv(a[4], v, {})
        r = mk_sum(a[0], a[1], a[2], a[3], dx) if is_t(dx) or dx != 0 else ZERO
    elif op in ('uf', 'arr'):
        name = a[0]
        r = ZERO
        for k in range(1, len(a)):
            if not (is_t(a[k]) and a[k].sort == 'R'): continue
            dk = D(a[k])
            if is_t(dk) or dk != 0:
                r = radd(r, rmul(mk('uf', ('D%d:%s' % (k, name),) + a[1:], 'R'), dk))
    else:
        d0 = D(a[0])
        z0 = (not is_t(d0)) and d0 == 0
        if op == 'pow':
            x, y = a
            dy = D(y); zy = (not is_t(dy)) and dy == 0
            r = ZERO
            if not z0: r = radd(r, rmul(rmul(y, rfun('pow', x, rsub(y, ONE))), d0))
            if not zy: r = radd(r, rmul(rmul(t, rfun('log', x)), dy))
        elif op == 'atan2':
            y, x = a
            dx = D(x)
            den = radd(rmul(x, x), rmul(y, y))
            r = rdiv(rsub(rmul(x, d0), rmul(y, dx)), den)
        elif z0: r = ZERO
        elif op == 'sqrt': r = rdiv(d0, rmul(Fraction(2), t))
        elif op == 'sin': r = rmul(rfun('cos', a[0]), d0)
        elif op == 'cos': r = rneg(rmul(rfun('sin', a[0]), d0))
        elif op == 'tan': r = rmul(radd(ONE, rmul(t, t)), d0)
        elif op == 'exp': r = rmul(t, d0)
        elif op == 'log': r = rdiv(d0, a[0])
        elif op == 'acos': r = rneg(rdiv(d0, rfun('sqrt', rsub(ONE, rmul(a[0], a[0])))))
        elif op == 'asin': r = rdiv(d0, rfun('sqrt', rsub(ONE, rmul(a[0], a[0]))))
        elif op == 'atan': r = rdiv(d0, radd(ONE, rmul(a[0], a[0])))
        elif op == 'fabs': r = ite(rle(ZERO, a[0]), d0, rneg(d0), 'R')
        elif op == 'erf': r = rmul(rmul(rdiv(Fraction(2), rfun('sqrt', PI)), rfun('exp', rneg(rmul(a[0], a[0])))), d0)
        else:
            raise NotImplementedError('derivative of ' + op)
    memo[t] = r
    return r
