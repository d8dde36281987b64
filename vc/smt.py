"""Translation of terms to z3, with the axioms of the real functions used."""
import z3, time, subprocess, os, tempfile
from fractions import Fraction
from term import *
import term as TM

STATS = {}

def q(fr):
    return z3.RealVal(str(fr.numerator) + ('/' + str(fr.denominator) if fr.denominator != 1 else ''))

class Tr:
    def __init__(self):
        self.m = {}
        self.ax = []
        self.axdone = set()
        self.trigs = {}

    def t(self, x, sort=None):
        if not is_t(x):
            if isinstance(x, bool): return z3.BoolVal(x)
            if isinstance(x, Fraction): return q(x)
            return z3.IntVal(x)
        r = self.m.get(x)
        if r is not None: return r
        for s in atoms([x]):
            if s not in self.m:
                self.m[s] = self.t1(s)
        return self.m[x]

    def fresh(self, s, sort='R'):
        n = '%s!%d' % (s.op, s.id)
        return z3.Real(n) if sort == 'R' else z3.Int(n)

    def cs(self, a):
        """(cos,sin) z3 variables of the angle term a"""
        key = a
        r = self.trigs.get(key)
        if r is None:
            i = a.id if is_t(a) else 'c' + str(a)
            c, s = z3.Real('cos!%s' % i), z3.Real('sin!%s' % i)
            self.trigs[key] = (c, s)
            z = self.t(a)
            pi = self.t(PI)
            self.ax += [c * c + s * s == 1, c <= 1, c >= -1, s <= 1, s >= -1,
                        z3.Implies(z3.And(z >= 0, z <= pi), s >= 0),
                        z3.Implies(z3.And(z > 0, z < pi), s > 0),
                        z3.Implies(z3.And(z >= -pi, z <= 0), s <= 0),
                        z3.Implies(z3.And(z > -pi, z < 0), s < 0),
                        z3.Implies(z3.And(2 * z >= -pi, 2 * z <= pi), c >= 0),
                        z3.Implies(z3.And(2 * z > -pi, 2 * z < pi), c > 0),
                        z3.Implies(z3.And(2 * z >= pi, 2 * z <= 3 * pi), c <= 0),
                        z3.Implies(z3.And(2 * z > pi, 2 * z < 3 * pi), c < 0),
                        z3.Implies(z == 0, c == 1),
                        z3.Implies(z3.And(z >= 0, 2 * z <= pi), z3.And(q(Fraction(15708, 10000)) * s >= z, s <= z)),
                        z3.Implies(z3.And(z > -2 * pi, z < 2 * pi, z != 0), c < 1),
                        z3.Implies(z3.And(z > -pi, z < pi), c > -1)]
            # monotonicity against other angles on [0,pi]
            for b, (cb, sb) in list(self.trigs.items()):
                if b is key or (not is_t(b) and not is_t(key) and b == key): continue
                if len(self.trigs) > 8: break
                zb = self.t(b)
                self.ax.append(z3.Implies(z3.And(z >= 0, z <= pi, zb >= 0, zb <= pi), (z < zb) == (c > cb)))
        return self.trigs[key]

    def t1(self, s):
        op, a = s.op, s.args
        m = lambda x: self.m[x] if is_t(x) else self.t(x)
        if op == 'rvar': return z3.Real(a[0])
        if op == 'ivar': return z3.Int(a[0])
        if op == 'bvar': return z3.Bool(a[0])
        if op == 'pi':
            p = z3.Real('pi!')
            self.ax += [p > q(Fraction('3.14159265358979')), p < q(Fraction('3.14159265358980'))]
            return p
        if op == '+': return m(a[0]) + m(a[1])
        if op == '*': return m(a[0]) * m(a[1])
        if op == 'neg': return -m(a[0])
        if op == '/':
            r = self.fresh(s)
            d = m(a[1])
            self.ax.append(z3.Implies(d != 0, r * d == m(a[0])))
            return r
        if op == 'i2r': return z3.ToReal(m(a[0]))
        if op == 'ilin':
            r = z3.IntVal(a[0])
            for mono, k in a[1]:
                p = z3.IntVal(k)
                if k == 1: p = None
                for x in mono: p = m(x) if p is None else p * m(x)
                r = r + p
            return r
        if op == 'itrunc':
            v = m(a[0])
            return z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
        if op == 'ifloor': return z3.ToInt(m(a[0]))
        if op == 'idiv':
            return m(a[0]) / m(a[1])
        if op == 'imod':
            return m(a[0]) % m(a[1])
        if op == 'sqrt':
            r = self.fresh(s); x = m(a[0])
            self.ax += [r >= 0, z3.Implies(x >= 0, r * r == x)]
            return r
        if op == 'fabs':
            x = m(a[0]); return z3.If(x >= 0, x, -x)
        if op == 'cos': return self.cs(a[0])[0]
        if op == 'sin': return self.cs(a[0])[1]
        if op == 'tan':
            c, sn = self.cs(a[0]); r = self.fresh(s)
            self.ax.append(z3.Implies(c != 0, r * c == sn))
            return r
        if op == 'acos':
            r = self.fresh(s); y = m(a[0]); pi = self.t(PI)
            self.ax += [r >= 0, r <= pi, z3.Implies(z3.And(y >= -1, y <= 1), z3.And((y > 0) == (2 * r < pi), (y == 0) == (2 * r == pi),
                        (y == 1) == (r == 0), (y == -1) == (r == pi)))]
            self.m[s] = r
            c, sn = self.cs(s)
            self.ax.append(z3.Implies(z3.And(y >= -1, y <= 1), c == y))
            return r
        if op == 'asin':
            r = self.fresh(s); y = m(a[0]); pi = self.t(PI)
            self.m[s] = r
            c, sn = self.cs(s)
            self.ax += [2 * r >= -pi, 2 * r <= pi, z3.Implies(z3.And(y >= -1, y <= 1), sn == y)]
            return r
        if op == 'atan':
            r = self.fresh(s); pi = self.t(PI); y = m(a[0])
            self.m[s] = r
            c, sn = self.cs(s)
            self.ax += [2 * r > -pi, 2 * r < pi, sn == y * c, (y > 0) == (r > 0), (y == 0) == (r == 0)]
            return r
        if op == 'atan2':
            r = self.fresh(s); pi = self.t(PI)
            y, x = m(a[0]), m(a[1])
            self.ax += [r >= -pi, r <= pi, z3.Implies(y > 0, z3.And(r > 0, r < pi)), z3.Implies(y < 0, z3.And(r < 0, r > -pi)),
                        z3.Implies(z3.And(y == 0, x > 0), r == 0), z3.Implies(z3.And(y == 0, x < 0), z3.Or(r == pi, r == -pi)),
                        z3.Implies(x > 0, z3.And(2 * r > -pi, 2 * r < pi))]
            self.m[s] = r
            c, sn = self.cs(s)
            h = z3.Real('hyp!%d' % s.id)
            self.ax += [h >= 0, h * h == x * x + y * y, x == h * c, y == h * sn]
            return r
        if op == 'exp':
            r = self.fresh(s); x = m(a[0])
            self.ax += [r > 0, (x > 0) == (r > 1), (x == 0) == (r == 1), r >= 1 + x]
            return r
        if op == 'log':
            r = self.fresh(s); x = m(a[0])
            self.ax += [z3.Implies(x > 0, z3.And((x > 1) == (r > 0), (x == 1) == (r == 0)))]
            return r
        if op == 'pow':
            x, y = m(a[0]), m(a[1])
            f = z3.Function('pow!', z3.RealSort(), z3.RealSort(), z3.RealSort())
            r = f(x, y)
            self.ax += [z3.Implies(x > 0, r > 0), z3.Implies(z3.And(x == 0, y > 0), r == 0), z3.Implies(x == 1, r == 1),
                        z3.Implies(y == 0, r == 1), z3.Implies(y == 1, r == x), z3.Implies(z3.And(x > 0, x < 1, y > 0), r < 1),
                        z3.Implies(z3.And(x > 1, y > 0), r > 1), z3.Implies(z3.And(x == 0, y >= 0), r >= 0)]
            return r
        if op in ('erf', 'tgamma', 'lgamma', 'cbrt', 'rint', 'round', 'floor', 'ceil'):
            f = z3.Function(op + '!', z3.RealSort(), z3.RealSort())
            r = f(m(a[0]))
            if op == 'erf': self.ax += [r > -1, r < 1, (r > 0) == (m(a[0]) > 0)]
            if op == 'round':
                x = m(a[0])
                self.ax += [z3.IsInt(r), z3.Implies(x >= 0, r == z3.ToReal(z3.ToInt(x + q(Fraction(1, 2))))),
                            z3.Implies(x < 0, r == -z3.ToReal(z3.ToInt(-x + q(Fraction(1, 2)))))]
            return r
        if op == '<': return m(a[0]) < m(a[1])
        if op == '<=': return m(a[0]) <= m(a[1])
        if op == '=': return m(a[0]) == m(a[1])
        if op == 'i>=0': return m(a[0]) >= 0
        if op == 'i=0': return m(a[0]) == 0
        if op == 'not': return z3.Not(m(a[0]))
        if op == 'and': return z3.And(m(a[0]), m(a[1]))
        if op == 'or': return z3.Or(m(a[0]), m(a[1]))
        if op == 'ite': return z3.If(m(a[0]), m(a[1]), m(a[2]))
        if op in ('uf', 'arr'):
            args = [m(x) for x in a[1:]]
            f = z3.Function(op + '!' + a[0], *([x.sort() for x in args] + [z3.RealSort() if s.sort == 'R' else z3.IntSort()]))
            r = f(*args)
            if a[0].startswith('+'): self.ax.append(r >= 0)
            return r
        if op == 'sum':
            # congruence of bodies is left to the ring normaliser
            return self.fresh(s)
        if s.sort == 'R': return self.fresh(s)
        if s.sort == 'I': return self.fresh(s, 'I')
        raise NotImplementedError('z3 ' + op)

def solver(timeout):
    s = z3.Solver()
    s.set('timeout', int(timeout * 1000))
    return s

def check(facts, timeout=5.0):
    """satisfiability of the conjunction; returns (verdict, model, translator)"""
    tr = Tr()
    fs = [tr.t(f) for f in facts]
    s = solver(timeout)
    for f in fs: s.add(f)
    for f in tr.ax: s.add(f)
    t0 = time.time()
    r = s.check()
    STATS['z3_s'] = STATS.get('z3_s', 0.0) + time.time() - t0
    STATS['z3_calls'] = STATS.get('z3_calls', 0) + 1
    if r == z3.unsat: return 'unsat', None, tr
    if r == z3.sat: return 'sat', s.model(), tr
    return 'unknown', None, tr

def to_smt2(facts):
    tr = Tr()
    fs = [tr.t(f) for f in facts]
    s = z3.Solver()
    for f in fs: s.add(f)
    for f in tr.ax: s.add(f)
    return s.to_smt2()

def cvc5(facts, timeout=10):
    txt = to_smt2(facts)
    t0 = time.time()
    try:
        p = subprocess.run(['cvc5', '--tlimit=%d' % int(timeout * 1000), '-q', '--nl-ext-tplanes', '-'],
                           input='(set-logic ALL)\n' + txt, capture_output=True, text=True, timeout=timeout + 5)
        out = p.stdout.strip().split('\n')[0] if p.stdout else 'unknown'
    except Exception:
        out = 'unknown'
    STATS['cvc5_s'] = STATS.get('cvc5_s', 0.0) + time.time() - t0
    STATS['cvc5_calls'] = STATS.get('cvc5_calls', 0) + 1
    return out if out in ('sat', 'unsat') else 'unknown'

def compound(t):
    return {x for x in atoms([t]) if x.sort == 'R' and x.op not in ('rvar', 'pi')}

def generalised(pc, ng, timeout):
    """try to refute ng with its shared sub-terms replaced by arbitrary reals (sound: a stronger statement is proved)"""
    if len(atoms([ng])) < 12: return False
    facts = relevant(pc, ng)
    if abstracted([ng], facts, timeout): return True
    cs = compound(ng)
    near = [f for f in facts if cs & compound(f)]
    return bool(near) and abstracted([ng] + near, facts, timeout)

def abstracted(top, facts, timeout):
    par = {}
    for s in atoms(top):
        for x in s.args:
            if is_t(x) and x.sort == 'R': par[x] = par.get(x, 0) + 1
    shared = {x for x, k in par.items() if k >= 2 and x.op not in ('rvar', 'pi')}
    for rounds in range(3):
        # maximal shared terms
        m = {}
        seen = set()
        stack = list(top)
        while stack:
            x = stack.pop()
            if not is_t(x) or x in seen: continue
            seen.add(x)
            if x in shared: m[x] = rvar('$g%d' % x.id); continue
            stack += [y for y in x.args if is_t(y)]
        if not m: return False
        g2 = [subst(g, m) for g in top]
        if False in g2: return True
        g2 = [g for g in g2 if is_t(g)]
        fs = [subst(f, m) for f in facts]
        gv = {s for s in atoms(g2) if s.op == 'rvar'}
        fs = [f for f in fs if is_t(f) and {s for s in atoms([f]) if s.op == 'rvar'} <= gv]
        if check(fs + g2, timeout)[0] == 'unsat': return True
        shared -= set(m)
    return False

def relevant(pc, goal):
    """facts sharing variables (transitively) with the goal"""
    from term import atoms
    def vs(t):
        return {s for s in atoms([t]) if s.op in ('rvar', 'ivar', 'bvar', 'uf', 'arr')}
    gs = vs(goal)
    rest = [(f, vs(f)) for f in pc]
    out = []
    ch = True
    while ch:
        ch = False
        for k in rest[:]:
            if k[1] & gs:
                out.append(k[0]); gs |= k[1]; rest.remove(k); ch = True
    return out

def direct(pc, goal):
    """facts about the variables of the goal only"""
    from term import atoms
    def vs(t): return {s for s in atoms([t]) if s.op in ('rvar', 'ivar', 'bvar', 'uf', 'arr')}
    gs = vs(goal)
    return [f for f in pc if vs(f) <= gs]
