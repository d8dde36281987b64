"""External functions: the contracts (models) assumed for the C/C++ runtime, and
the harness interface vc_*."""
import struct, math
from fractions import Fraction
from term import *
from exec_ import *
import exec_ as X

def table(E):
    T = {}
    def reg(*names):
        def d(f):
            for n in names: T['@' + n] = f
            return f
        return d

    # ------------------------------------------------------------ harness
    def uniq(st, nm):
        k = st.names.get(nm, 0)
        st.names[nm] = k + 1
        return nm if k == 0 else '%s#%d' % (nm, k)

    def newreal(st, nm, lo=None, hi=None):
        v = rvar(nm)
        if nm not in E.vars:
            E.vars[nm] = ('real', lo, hi)
            E.pool.set(v, E.pool.real(nm, None if lo is None else float(lo), None if hi is None else float(hi)))
        return v

    @reg('vc_real')
    def vc_real(st, a, ins):
        return newreal(st, uniq(st, E.cstr(st, a[0]).decode()))

    @reg('vc_real_in')
    def vc_real_in(st, a, ins):
        nm = uniq(st, E.cstr(st, a[0]).decode())
        lo, hi = a[1], a[2]
        v = rvar(nm)
        if nm not in E.vars:
            E.vars[nm] = ('real', lo, hi)
            E.pool.set(v, E.pool.real(nm, E.pool.ev(lo) if is_t(lo) else float(lo), E.pool.ev(hi) if is_t(hi) else float(hi)))
        E.assume(st, rle(lo, v)); E.assume(st, rle(v, hi))
        return v

    @reg('vc_real_above')
    def vc_real_above(st, a, ins):
        nm = uniq(st, E.cstr(st, a[0]).decode())
        lo = a[1]
        v = rvar(nm)
        if nm not in E.vars:
            E.vars[nm] = ('real', lo, None)
            r = E.pool.real(nm)
            E.pool.set(v, (E.pool.ev(lo) if is_t(lo) else float(lo)) + abs(r) + (r == 0))
        E.assume(st, rlt(lo, v))
        return v

    @reg('vc_int_in')
    def vc_int_in(st, a, ins):
        nm = uniq(st, E.cstr(st, a[0]).decode())
        lo, hi = a[1], a[2]
        if not is_t(lo) and not is_t(hi) and lo == hi: return lo
        v = ivar(nm)
        if nm not in E.vars:
            E.vars[nm] = ('int', lo, hi)
            import numpy as np
            l = E.pool.ev(lo) if is_t(lo) else float(lo)
            h = E.pool.ev(hi) if is_t(hi) else float(hi)
            if is_t(lo) or is_t(hi):
                r = E.pool.rng(nm).random(E.pool.n)
                arr = np.floor(l + r * np.maximum(h - l + 1, 0))
                arr = np.minimum(arr, h)
            else: arr = E.pool.int(nm, int(l), int(h))
            E.pool.set(v, arr)
        E.assume(st, icmp_le(lo, v)); E.assume(st, icmp_le(v, hi))
        return v

    @reg('vc_size_in')
    def vc_size_in(st, a, ins):
        """a symbolic size: like vc_int_in but sampled small"""
        nm = uniq(st, E.cstr(st, a[0]).decode())
        lo, hi = a[1], a[2]
        v = ivar(nm)
        if nm not in E.vars:
            E.vars[nm] = ('int', lo, hi)
            E.pool.set(v, E.pool.int(nm, int(lo), int(min(hi, lo + 5))))
        E.assume(st, icmp_le(lo, v)); E.assume(st, icmp_le(v, hi))
        return v

    @reg('vc_enum_in')
    def vc_enum_in(st, a, ins):
        """a small finite domain: explored value by value (complete case split)"""
        nm = uniq(st, E.cstr(st, a[0]).decode())
        lo, hi = a[1], a[2]
        E.vars[nm] = ('enum', lo, hi)
        for v in range(lo + 1, hi + 1):
            s2 = st.clone()
            f2 = s2.frames[-1]
            f2.regs[ins.res] = v
            s2.ghost.setdefault('choice', {})[nm] = v
            inv = ins.a[3]
            if inv: E.goto(s2, f2, inv[0], None)
            else: f2.ip += 1
            E.pending.append(s2)
        st.ghost.setdefault('choice', {})[nm] = lo
        return lo

    @reg('vc_upto')
    def vc_upto(st, a, ins):
        return vc_enum_in(st, a[:3], ins)

    @reg('vc_bool')
    def vc_bool(st, a, ins):
        return vc_enum_in(st, [a[0], 0, 1], ins)

    @reg('vc_unit3')
    def vc_unit3(st, a, ins):
        nm = uniq(st, E.cstr(st, a[0]).decode())
        vs = [rvar(nm + c) for c in '.x .y .z'.split()]
        first = vs[0].args[0] not in E.vars
        if first:
            u = E.pool.unit3(nm)
            for v, x in zip(vs, u):
                E.vars[v.args[0]] = ('real', -1, 1)
                E.pool.set(v, x)
            E.unit3[vs[2]] = (vs[0], vs[1])
        n2 = rsub(radd(radd(rmul(vs[0], vs[0]), rmul(vs[1], vs[1])), rmul(vs[2], vs[2])), ONE)
        st.pc.append(req(n2, ZERO))      # numerically only up to rounding: do not filter samples
        for v in vs:
            E.assume(st, rle(Fraction(-1), v)); E.assume(st, rle(v, ONE))
        p = a[1]
        for i, v in enumerate(vs): E.store(st, P(p.o, iadd(p.off, 8 * i)), ('f', 64), v)
        return None

    @reg('vc_array')
    def vc_array(st, a, ins):
        """havoc n doubles at p: arbitrary contents"""
        nm = uniq(st, E.cstr(st, a[0]).decode())
        p, n = a[1], a[2]
        E.vars[nm] = ('array', n, None)
        if not is_t(n) and n <= 4096 and not is_t(p.off):
            for i in range(n):
                E.store(st, P(p.o, p.off + 8 * i), ('f', 64), newreal(st, '%s[%d]' % (nm, i)))
            return None
        o = st.wobj(p.o)
        E.check_access_sym(st, p, imul(8, n), 'write')
        if not is_t(p.off) and p.off == 0 and not o.cells and o.log is None:
            o.base = ('arr', nm, 8, 'R')
            o.log = []
            return None
        E.fresh_id += 1
        k = ivar('$a%d' % E.fresh_id)
        o = E.to_log(st, o)
        o.log.append(('q', k, n, True, iadd(p.off, imul(8, k)), 8, mk('arr', (nm, k), 'R'), ('f', 64)))
        return None

    @reg('vc_array_pos')
    def vc_array_pos(st, a, ins):
        raise Unsupported('vc_array_pos')

    @reg('vc_assume')
    def vc_assume(st, a, ins):
        c = a[0]
        if isinstance(c, int) and not isinstance(c, bool): c = bool(c)
        if is_t(c) and c.sort == 'I': c = bnot(icmp_eq(c, 0))
        E.assume(st, c)
        return None

    @reg('vc_check')
    def vc_check(st, a, ins):
        c = a[0]
        if isinstance(c, int) and not isinstance(c, bool): c = bool(c)
        if c is UNDEF: c = bvar('__undefcheck')
        if is_t(c) and c.sort == 'I': c = bnot(icmp_eq(c, 0))
        E.oblige(st, c, E.cstr(st, a[1]).decode())
        return None

    def det(x):
        return x if x is not UNDEF else E.fresh_undef(ZERO)

    @reg('vc_check_eq')
    def vc_check_eq(st, a, ins):
        x, y = det(a[0]), det(a[1])
        if not is_t(x) and not is_t(y): 
            same = (x == y) or abs(x - y) <= Fraction(1, 10**9) * (1 + abs(x) + abs(y))
            E.oblige(st, same, E.cstr(st, a[2]).decode()); return None
        E.oblige(st, req(x, y), E.cstr(st, a[2]).decode(), pair=(x, y))
        return None

    @reg('vc_check_same')
    def vc_check_same(st, a, ins):
        x, y = det(a[0]), det(a[1])
        E.oblige(st, req(x, y), E.cstr(st, a[2]).decode(), pair=(x, y) if is_t(x) or is_t(y) else None)
        return None

    @reg('vc_check_ieq')
    def vc_check_ieq(st, a, ins):
        E.oblige(st, icmp_eq(E.int_(a[0]), E.int_(a[1])), E.cstr(st, a[2]).decode()); return None

    @reg('vc_check_le')
    def vc_check_le(st, a, ins):
        E.oblige(st, rle(det(a[0]), det(a[1])), E.cstr(st, a[2]).decode()); return None

    @reg('vc_check_lt')
    def vc_check_lt(st, a, ins):
        E.oblige(st, rlt(det(a[0]), det(a[1])), E.cstr(st, a[2]).decode()); return None

    @reg('vc_cover')
    def vc_cover(st, a, ins):
        nm = E.cstr(st, a[0]).decode()
        if nm not in E.covers or not E.covers[nm]:
            ok = bool(st.mask.any())
            if not ok:
                v, m, tr = smt.check(st.pc, 5.0)
                ok = v == 'sat' or (v == 'unknown' and None)
            E.covers[nm] = ok
        return None

    @reg('vc_deriv')
    def vc_deriv(st, a, ins):
        if not is_t(a[0]): return ZERO
        if not is_t(a[1]): raise Unsupported('derivative wrt a constant')
        return deriv(a[0], a[1])

    @reg('vc_symbolic')
    def vc_symbolic(st, a, ins): return 1

    @reg('vc_defined')
    def vc_defined(st, a, ins):
        st.ghost['defined'] = bool(a[0]); return None

    @reg('vc_allow_abort')
    def vc_allow_abort(st, a, ins):
        st.ghost['allow_abort'] = bool(a[0]); return None

    @reg('vc_expect_abort')
    def vc_expect_abort(st, a, ins):
        return None

    @reg('vc_havoc_int')
    def vc_havoc_int(st, a, ins):
        nm = uniq(st, E.cstr(st, a[0]).decode())
        return ivar(nm)

    @reg('vc_uf')
    def vc_uf(st, a, ins):
        nm = E.cstr(st, a[0]).decode()
        n = a[1]
        if is_t(n): raise Unsupported('vc_uf arity')
        args = []
        for i in range(n):
            v = E.load(st, P(a[2].o, iadd(a[2].off, 8 * i)), ('f', 64))
            if v is UNDEF: v = E.fresh_undef(ZERO)
            args.append(v)
        return mk('uf', (nm,) + tuple(args), 'R')

    @reg('vc_arr')
    def vc_arr(st, a, ins):
        """element i of the arbitrary real sequence named a[0]"""
        return mk('arr', (E.cstr(st, a[0]).decode(), a[1]), 'R')

    @reg('vc_sum')
    def vc_sum(st, a, ins): raise Unsupported('vc_sum')

    @reg('vc_rounding')
    def vc_rounding(st, a, ins): return None

    @reg('vc_isundef')
    def vc_isundef(st, a, ins): return 1 if a[0] is UNDEF else 0

    @reg('vc_log')
    def vc_log(st, a, ins):
        print('LOG', a); return None

    # ------------------------------------------------------------ maths
    def fn(name, arity=1):
        def h(st, a, ins):
            a = [det(x) for x in a]
            if any(x is NAN for x in a): return NAN
            if isinstance(a[0], list): return [rfun(name, x) for x in a[0]]
            if st.ghost.get('defined'):
                if name == 'sqrt' and is_t(a[0]): E.oblige(st, rle(ZERO, a[0]), 'defined: radicand is nonnegative', 'def')
                if name in ('acos', 'asin') and is_t(a[0]):
                    E.oblige(st, band(rle(Fraction(-1), a[0]), rle(a[0], ONE)), 'defined: %s argument in [-1,1]' % name, 'def')
                if name == 'log' and is_t(a[0]): E.oblige(st, rlt(ZERO, a[0]), 'defined: log argument positive', 'def')
            if name == 'fabs' and is_t(a[0]):
                d = E.decide(st, rle(ZERO, a[0]))
                if d is True: return a[0]
                if d is False: return rneg(a[0])
            if name == 'floor' and is_t(a[0]):
                try: return i2r(E.fp2int(st, a[0], 'ifloor'))
                except Unsupported: pass
            return rfun(name, *a[:arity])
        return h
    for f in ('sqrt', 'sin', 'cos', 'tan', 'acos', 'asin', 'atan', 'exp', 'log', 'fabs', 'floor', 'ceil', 'rint', 'round', 'erf', 'tgamma', 'cbrt', 'sinh', 'cosh', 'tanh', 'log10', 'exp2', 'log2'):
        T['@' + f] = fn(f); T['@' + f + 'f'] = fn(f)
        T['@llvm.' + f] = fn(f)
    T['@llvm.nearbyint'] = fn('rint')
    for f in ('pow', 'atan2', 'fmod'):
        T['@' + f] = fn(f, 2); T['@' + f + 'f'] = fn(f, 2); T['@llvm.' + f] = fn(f, 2)
    @reg('llvm.powi')
    def powi(st, a, ins): return rfun('pow', a[0], Fraction(a[1]) if not is_t(a[1]) else i2r(a[1]))
    @reg('ldexp', 'llvm.ldexp')
    def ldexp(st, a, ins):
        if is_t(a[1]): raise Unsupported('ldexp with a symbolic exponent')
        return rmul(det(a[0]), Fraction(2) ** a[1])
    @reg('llvm.fmuladd', 'llvm.fma', 'fma')
    def fma(st, a, ins): return radd(rmul(det(a[0]), det(a[1])), det(a[2]))
    @reg('llvm.maxnum', 'fmax', 'llvm.maximum')
    def fmax(st, a, ins):
        if a[0] is NAN: return a[1]
        if a[1] is NAN: return a[0]
        c = rlt(a[0], a[1]); d = E.decide(st, c)
        return ite(d if d is not None else c, a[1], a[0], 'R')
    @reg('llvm.minnum', 'fmin', 'llvm.minimum')
    def fmin(st, a, ins):
        if a[0] is NAN: return a[1]
        if a[1] is NAN: return a[0]
        c = rlt(a[1], a[0]); d = E.decide(st, c)
        return ite(d if d is not None else c, a[1], a[0], 'R')
    @reg('llvm.copysign', 'copysign')
    def copysign(st, a, ins):
        s = E.decide(st, rlt(a[1], ZERO))
        m = rfun('fabs', a[0])
        if s is None: return ite(rlt(a[1], ZERO), rneg(m), m, 'R')
        return rneg(m) if s else m
    @reg('llvm.smax')
    def smax(st, a, ins): return imax(st, a[0], a[1])
    @reg('llvm.smin')
    def smin(st, a, ins): return imin(st, a[0], a[1])
    def imax(st, x, y):
        c = icmp_lt(x, y); d = E.decide(st, c)
        return ite(d if d is not None else c, y, x, 'I')
    def imin(st, x, y):
        c = icmp_lt(y, x); d = E.decide(st, c)
        return ite(d if d is not None else c, y, x, 'I')
    def width(ins): return ins.a[0][1]
    @reg('llvm.umax')
    def umax(st, a, ins): return imax(st, E.unsigned(st, a[0], width(ins)), E.unsigned(st, a[1], width(ins)))
    @reg('llvm.umin')
    def umin(st, a, ins): return imin(st, E.unsigned(st, a[0], width(ins)), E.unsigned(st, a[1], width(ins)))
    @reg('llvm.abs', 'abs', 'labs')
    def iabs(st, a, ins):
        if not is_t(a[0]): return abs(a[0])
        c = icmp_le(0, a[0]); d = E.decide(st, c)
        return ite(d if d is not None else c, a[0], ineg(a[0]), 'I')
    @reg('llvm.usub.sat')
    def usubsat(st, a, ins):
        return imax(st, isub(E.unsigned(st, a[0], width(ins)), E.unsigned(st, a[1], width(ins))), 0)
    def ovf(op):
        def h(st, a, ins):
            t = ins.a[0]; n = t[1][0][1]
            x, y = a
            if op[0] == 'u': x, y = E.unsigned(st, x, n), E.unsigned(st, y, n)
            r = {'add': iadd, 'sub': isub, 'mul': imul}[op[1:]](x, y)
            if not is_t(r):
                if op[0] == 'u': return [tosigned(r, n), not (0 <= r < (1 << n))]
                return [tosigned(r, n), not (-(1 << (n - 1)) <= r < (1 << (n - 1)))]
            if op == 'usub': return [r, icmp_lt(x, y)]
            E.assumptions.add('size computations do not overflow')
            return [r, False]
        return h
    for o in ('uadd', 'usub', 'umul', 'sadd', 'ssub', 'smul'): T['@llvm.%s.with' % o] = ovf(o)
    @reg('llvm.is')
    def isfp(st, a, ins):
        # llvm.is.fpclass: real model has no nan/inf
        x = a[0]
        mask = a[1]
        cls_nan, inf_neg, inf_pos = 3, 4, 512
        if is_t(x) and x.op == 'rvar' and x.args[0] == '__inf': return bool(mask & inf_pos)
        if is_t(x) and x.op == 'rvar' and x.args[0] == '__ninf': return bool(mask & inf_neg)
        if mask & ~(3 | 4 | 512) == 0: return False
        if mask & 0x1f8 == 0x1f8: return True
        raise Unsupported('is.fpclass')
    @reg('llvm.ctpop', 'llvm.ctlz', 'llvm.cttz', 'llvm.bswap', 'llvm.fshl')
    def bits(st, a, ins):
        n = width(ins); x = a[0]
        nm = ins.a[1][1]
        if is_t(x): raise Unsupported('bit intrinsic')
        x &= (1 << n) - 1
        if 'ctpop' in nm: return bin(x).count('1')
        if 'ctlz' in nm: return n - x.bit_length()
        if 'cttz' in nm: return (x & -x).bit_length() - 1 if x else n
        if 'fshl' in nm:
            y = a[1] & ((1 << n) - 1); k = a[2] % n
            return tosigned(((x << n | y) << k) >> n, n)
        return tosigned(int.from_bytes(x.to_bytes(n // 8, 'little'), 'big'), n)

    # ------------------------------------------------------------ memory
    @reg('malloc', '_Znwm', '_Znam', 'aligned_alloc_', '_ZnwmRKSt9nothrow_t', '_ZnamRKSt9nothrow_t')
    def malloc(st, a, ins):
        if a[0] is UNDEF: raise Unsupported('malloc undef')
        nm = ins.a[1][1] if ins.a[1][0] == 'g' else ''
        if not is_t(a[0]) and (a[0] < 0 or a[0] > 1 << 40): E.fail_path(st, 'allocation of a negative or huge size')
        if is_t(a[0]): 
            E.oblige(st, icmp_le(0, a[0]), 'allocation size is nonnegative', 'mem')
        o = E.new_obj(st, a[0], 'heap', 'heap')
        return P(o.id, 0)
    @reg('calloc')
    def calloc(st, a, ins):
        o = E.new_obj(st, imul(a[0], a[1]), 'heap', 'heap', 'zero')
        return P(o.id, 0)
    @reg('free', '_ZdlPv', '_ZdaPv', '_ZdlPvm', '_ZdaPvm', 'cfree')
    def free(st, a, ins):
        p = a[0]
        if p is UNDEF: E.fail_path(st, 'free of uninitialised pointer')
        if p == NULL: return None
        o = st.mem.get(p.o)
        if o is None or o.kind != 'heap' or is_t(p.off) or p.off != 0: E.fail_path(st, 'free of a pointer not from malloc')
        if o.freed: E.fail_path(st, 'double free')
        o = st.wobj(p.o)
        o.freed = True; o.cells = {}; o.log = None
        return None
    @reg('realloc')
    def realloc(st, a, ins):
        if a[0] == NULL: return malloc(st, [a[1]], ins)
        old = st.mem[a[0].o]
        o = E.new_obj(st, a[1], 'heap', 'heap')
        n = old.size
        if is_t(n) or is_t(a[1]): raise Unsupported('symbolic realloc')
        E.memcpy(st, P(o.id, 0), a[0], min(n, a[1]))
        free(st, [a[0]], ins)
        return P(o.id, 0)
    @reg('clock_gettime')
    def clock_gettime(st, a, ins):      # the clock stands still: nothing verified depends on the time taken
        E.store(st, a[1], ('i', 64), 0); E.store(st, P(a[1].o, iadd(a[1].off, 8)), ('i', 64), 0)
        return 0
    @reg('posix_memalign')
    def pma(st, a, ins):
        o = E.new_obj(st, a[2], 'heap', 'heap')
        E.store(st, a[0], 'ptr', P(o.id, 0)); return 0
    @reg('llvm.memcpy', 'llvm.memmove', 'memcpy', 'memmove')
    def memcpy(st, a, ins):
        E.memcpy(st, a[0], a[1], a[2]); return a[0]
    @reg('llvm.memset', 'memset')
    def memset(st, a, ins):
        E.memset(st, a[0], a[1], a[2]); return a[0]
    @reg('llvm.lifetime', 'llvm.experimental', 'llvm.dbg', 'llvm.prefetch', 'llvm.stackrestore', 'llvm.var', 'llvm.invariant', 'llvm.donothing')
    def nop(st, a, ins): return UNDEF
    @reg('llvm.stacksave')
    def ss(st, a, ins): return NULL
    @reg('llvm.assume')
    def lassume(st, a, ins): return None
    @reg('llvm.expect')
    def lexpect(st, a, ins): return a[0]
    @reg('llvm.objectsize')
    def osz(st, a, ins): return -1
    @reg('llvm.trap', 'abort', '_ZSt9terminatev', '__cxa_pure_virtual', '_ZSt17__throw_bad_allocv')
    def trap(st, a, ins): die(st, 'abort')
    def die(st, msg):
        if st.ghost.get('allow_abort'): raise PathEnd(msg)
        E.fail_path(st, msg)
    @reg('exit', '_exit', '_Exit')
    def exit_(st, a, ins): die(st, 'exit(%s)' % a[0])
    @reg('__assert_fail')
    def assertf(st, a, ins):
        try: m = E.cstr(st, a[0]).decode(errors='replace')
        except Unsupported: m = '?'
        die(st, 'assertion failed: ' + m)
    @reg('__cxa_allocate_exception')
    def cae(st, a, ins):
        return P(E.new_obj(st, a[0] + 64, 'heap', 'exception').id, 0)
    @reg('_ZSt17iostream_categoryv', '_ZNSt3_V216generic_categoryEv', '_ZNSt3_V215system_categoryEv')
    def category(st, a, ins): return P(E.new_obj(st, 64, 'heap', 'error category').id, 0)
    @reg('_ZNSt8ios_base7failureB5cxx11C1EPKcRKSt10error_code', '_ZNSt8ios_base7failureB5cxx11C1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE', '_ZNSt8ios_base7failureB5cxx11C1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEERKSt10error_code')
    def failure(st, a, ins): return None
    @reg(*['_ZNSt%sC1E%s' % (c, t) for c in ('13runtime_error', '11logic_error', '12out_of_range', '16invalid_argument') for t in ('PKc', 'RKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE')])
    def exception(st, a, ins): return None
    @reg('_ZNKSt9exception4whatEv', '_ZNKSt13runtime_error4whatEv', '_ZNKSt11logic_error4whatEv', '_ZNKSt8ios_base7failureB5cxx114whatEv')
    def what(st, a, ins): # some text, for the console
        o = E.new_obj(st, 8, 'heap', 'what'); E.store(st, P(o.id, 0), ('i', 64), 0x726f727265); return P(o.id, 0)
    @reg('__cxa_throw', '__cxa_rethrow', '_ZSt20__throw_length_errorPKc', '_ZSt17__throw_bad_castv', '_ZSt19__throw_logic_errorPKc',
         '_ZSt20__throw_out_of_rangePKc', '_ZSt24__throw_out_of_range_fmtPKcz', '_ZSt25__throw_bad_function_callv', '_ZSt28__throw_bad_array_new_lengthv', '_ZSt16__throw_bad_castv', '_ZSt24__throw_invalid_argumentPKc', '_ZSt20__throw_system_errori', '__cxa_throw_bad_array_new_length', '__cxa_bad_cast')
    def thr(st, a, ins):
        msg = 'exception thrown (%s)' % (ins.a[1][1] if ins.a[1][0] == 'g' else '')
        if msg.endswith('__cxa_throw)') and isinstance(a[1], P): E.throw(st, a[0], E.objnames.get(a[1].o, ''), msg)
        c = st.ghost.get('caught')
        if msg.endswith('__cxa_rethrow)') and c: E.throw(st, *c[-1])
        die(st, msg)
    @reg('__cxa_begin_catch')
    def cbc(st, a, ins):
        e = st.ghost.get('exc', {}).get(a[0].o) if isinstance(a[0], P) else None
        if e is not None: st.ghost['caught'] = st.ghost.get('caught', ()) + (e,)
        return a[0]
    @reg('__cxa_end_catch')
    def cec(st, a, ins): st.ghost['caught'] = st.ghost.get('caught', ())[:-1]
    @reg('llvm.eh')
    def tid(st, a, ins): return E.typeid(E.objnames.get(a[0].o, '') if a[0].o else 'null')
    @reg('strerror')
    def strerror(st, a, ins):
        o = E.new_obj(st, 8, 'heap', 'text of an error', 'zero'); E.store(st, P(o.id, 0), ('i', 8), 63); return P(o.id, 0)
    @reg('__cxa_free_exception', '__cxa_guard_abort', '__cxa_guard_release')
    def nop2(st, a, ins):
        if a and isinstance(a[0], P) and 'guard_release' in ins.a[1][1]: E.store(st, a[0], ('i', 8), 1)
        return None
    @reg('__cxa_guard_acquire')
    def cga(st, a, ins):
        v = E.load(st, a[0], ('i', 8))
        return 0 if v == 1 else 1
    @reg('__cxa_atexit', 'atexit', 'pthread_mutex_lock', 'pthread_mutex_unlock', '__cxa_thread_atexit')
    def ok0(st, a, ins): return 0
    @reg('memcmp', 'bcmp')
    def memcmp(st, a, ins):
        n = a[2]
        if is_t(n): raise Unsupported('symbolic memcmp')
        diffs = []; r = 0
        for i in range(n):
            x = E.load(st, P(a[0].o, iadd(a[0].off, i)), ('i', 8)); y = E.load(st, P(a[1].o, iadd(a[1].off, i)), ('i', 8))
            if x is UNDEF or y is UNDEF: raise Unsupported('memcmp of uninitialised bytes')
            if x is y: continue
            if not is_t(x): x &= 255
            if not is_t(y): y &= 255
            if not is_t(x) and not is_t(y):
                if x != y: r = -1 if x < y else 1; break
                continue
            if any(is_t(z) and E.decide(st, icmp_le(0, z)) is not True for z in (x, y)): raise Unsupported('memcmp of symbolic bytes')
            d = E.decide(st, icmp_eq(x, y))
            if d is True: continue
            l = ite(icmp_lt(x, y), -1, 1, 'I')
            if d is False: r = l; break
            diffs.append((icmp_eq(x, y), l))
        for e, l in reversed(diffs): r = ite(e, r, l, 'I')
        return r
    @reg('strlen')
    def strlen(st, a, ins): return len(E.cstr2(st, a[0]))
    def strput(st, d, cs):
        for j, c in enumerate(cs): E.store(st, P(d.o, d.off + j), ('i', 8), c)
    @reg('strcpy', 'stpcpy')
    def strcpy(st, a, ins):
        cs = list(E.cstr2(st, a[1])) + [0]; strput(st, a[0], cs)
        return a[0] if ins.a[1][1] == '@strcpy' else P(a[0].o, a[0].off + len(cs) - 1)
    @reg('strncpy')
    def strncpy(st, a, ins):
        if is_t(a[2]): raise Unsupported('strncpy of a symbolic size')
        cs = list(E.cstr2(st, a[1]))[:a[2]]; strput(st, a[0], cs + [0] * (a[2] - len(cs))); return a[0]
    @reg('strdup')
    def strdup(st, a, ins):
        cs = list(E.cstr2(st, a[0])) + [0]; o = E.new_obj(st, len(cs), 'heap', 'strdup'); p = P(o.id, 0); strput(st, p, cs); return p
    @reg('strcmp')
    def strcmp(st, a, ins):
        x, y = E.cstr(st, a[0]), E.cstr(st, a[1])
        return -1 if x < y else 1 if x > y else 0
    @reg('strncmp')
    def strncmp(st, a, ins):
        x, y = E.cstr(st, a[0])[:a[2]], E.cstr(st, a[1])[:a[2]]
        return -1 if x < y else 1 if x > y else 0
    @reg('memchr')
    def memchr(st, a, ins):
        for i in range(a[2]):
            c = E.load(st, P(a[0].o, a[0].off + i), ('i', 8))
            if is_t(c):
                if E.decide(st, icmp_eq(c, tosigned(a[1] & 255, 8))) is not False: raise Unsupported('memchr of symbolic bytes')
                continue
            if (c & 255) == (a[1] & 255): return P(a[0].o, a[0].off + i)
        return NULL
    @reg('strchr')
    def strchr(st, a, ins):
        s = E.cstr(st, a[0]); k = s.find(bytes([a[1] & 255]))
        return NULL if k < 0 else P(a[0].o, a[0].off + k)
    @reg('__errno_location')
    def errno(st, a, ins):
        o = st.ghost.get('errno')
        if o is None:
            o = E.new_obj(st, 8, 'global', 'errno', 'zero').id; st.ghost['errno'] = o
        return P(o, 0)
    @reg('atof', 'strtod')
    def atof(st, a, ins):
        cs = E.cstr2(st, a[0])
        if cs and is_t(cs[0]) and (len(cs) == 1 or not is_t(cs[1]) and chr(cs[1]) not in '0123456789.eE'):
            kind, v, p = E.tokens[cs[0]]
            if ins.a[1][1] == '@strtod' and isinstance(a[1], P) and a[1].o: E.store(st, a[1], 'ptr', P(a[0].o, a[0].off + 1))
            return i2r(v) if kind == 'i' else streams.rounded(v, p)
        if any(is_t(c) for c in cs): raise Unsupported('symbolic character')
        s = bytes(cs).decode()
        import re
        m = re.match(r'\s*[-+]?(\d+\.?\d*([eE][-+]?\d+)?|\.\d+([eE][-+]?\d+)?)', s)
        if ins.a[1][1] == '@strtod' and isinstance(a[1], P) and a[1].o:
            E.store(st, a[1], 'ptr', P(a[0].o, a[0].off + (m.end() if m else 0)))
        return Fraction(m.group(0).strip()) if m else ZERO
    @reg('atoi', 'strtol', '__isoc23_strtol')
    def atoi(st, a, ins):
        cs = E.cstr2(st, a[0])
        if len(cs) == 1 and is_t(cs[0]) and E.tokens[cs[0]][0] == 'i': return E.tokens[cs[0]][1]
        s = bytes([c for c in cs if not is_t(c)]).decode() if not any(is_t(c) for c in cs) else E._unsup('symbolic character')
        import re
        m = re.match(r'\s*[-+]?\d+', s)
        if ins.a[1][1] != '@atoi' and isinstance(a[1], P) and a[1].o:
            E.store(st, a[1], 'ptr', P(a[0].o, a[0].off + (m.end() if m else 0)))
        return int(m.group(0)) if m else 0
    @reg('isspace')
    def isspace(st, a, ins): return int(chr(a[0] & 255).isspace())
    @reg('puts', 'putchar', 'printf', 'fflush', 'fprintf')
    def io0(st, a, ins): return 0
    @reg('__dynamic_cast')
    def dyncast(st, a, ins):
        p, src, dst, hint = a
        if p == NULL: return NULL
        vptr = E.load(st, p, 'ptr')
        top = E.load(st, P(vptr.o, vptr.off - 16), ('i', 64))
        if isinstance(top, P): top = top.off
        ti = E.load(st, P(vptr.o, vptr.off - 8), 'ptr')
        r = find_base(st, ti, dst.o, 0)
        if r is None: return NULL
        return P(p.o, p.off + top + r)
    def find_base(st, ti, dst, off):
        if ti.o == dst: return off
        o = st.mem.get(ti.o)
        if o is None: E.gobj(st, E.objnames[ti.o]); o = st.mem[ti.o]
        if o.kind == 'extern': return None
        kind = E.objnames.get(E.load(st, P(ti.o, 0), 'ptr').o, '')
        if 'class_type_infoE' in kind and '__si_' in kind:
            return find_base(st, E.load(st, P(ti.o, 16), 'ptr'), dst, off)
        if '__vmi_' in kind:
            n = E.load(st, P(ti.o, 20), ('i', 32))
            for i in range(n):
                b = E.load(st, P(ti.o, 24 + 16 * i), 'ptr'); fl = E.load(st, P(ti.o, 32 + 16 * i), ('i', 64))
                if fl & 1: continue
                r = find_base(st, b, dst, off + (fl >> 8))
                if r is not None: return r
        return None

    # ------------------------------------------------------------ streams
    import streams
    streams.register(E, T, reg)
    return T

def generic(E, name):
    import streams
    return streams.generic(E, name)
