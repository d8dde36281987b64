import re
"""Symbolic executor / VC generator over LLVM IR."""
import struct, time, sys, math
import numpy as np
from fractions import Fraction
from term import *
import term as TM, ir, smt, numev
from ring import Ring, Limit

class Unsupported(Exception): pass
class PathEnd(Exception): pass
class Thrown(Exception):
    """an exception of the program for which a caller has a handler"""
    def __init__(self, obj, ti, msg): self.obj = obj; self.ti = ti; self.msg = msg
# the handlers that take an exception besides those of its own type
BASES = {'@_ZTINSt8ios_base7failureB5cxx11E': ('@_ZTISt12system_error', '@_ZTISt13runtime_error', '@_ZTISt9exception'),
         '@_ZTISt13runtime_error': ('@_ZTISt9exception',), '@_ZTISt11logic_error': ('@_ZTISt9exception',), '@_ZTISt16invalid_argument': ('@_ZTISt11logic_error', '@_ZTISt9exception'), '@_ZTISt12out_of_range': ('@_ZTISt11logic_error', '@_ZTISt9exception')}

class P:
    """pointer: object id + byte offset"""
    __slots__ = ('o', 'off')
    def __init__(self, o, off): self.o = o; self.off = off
    def __eq__(self, b): return isinstance(b, P) and self.o == b.o and (self.off is b.off or (not is_t(self.off) and not is_t(b.off) and self.off == b.off))
    def __hash__(self): return hash((self.o, self.off if not is_t(self.off) else self.off.id))
    def __repr__(self): return 'P(%s,%s)' % (self.o, self.off)

NULL = P(0, 0)

class Undef:
    def __repr__(self): return 'undef'
UNDEF = Undef()
NAN = mk('rvar', ('__nan',), 'R')

class PB:
    """integer word of which only some bits are initialised"""
    __slots__ = ('k', 'v')
    def __init__(self, k, v): self.k = k; self.v = v & k
    def __repr__(self): return 'PB(%x,%x)' % (self.k, self.v)

class Obj:
    __slots__ = ('id', 'size', 'kind', 'cells', 'log', 'base', 'freed', 'owner', 'name', 'ro', 'fn')
    def __init__(self, id, size, kind, name='', base='uninit'):
        self.id = id; self.size = size; self.kind = kind
        self.cells = {}        # off -> (n, value, ty)
        self.log = None        # symbolic writes, oldest first
        self.base = base       # 'uninit' | 'zero' | ('arr', fname, elem)
        self.freed = False; self.owner = None; self.name = name; self.ro = False; self.fn = None
    def clone(self, owner):
        o = Obj.__new__(Obj)
        o.id = self.id; o.size = self.size; o.kind = self.kind
        o.cells = dict(self.cells); o.log = list(self.log) if self.log is not None else None
        o.base = self.base; o.freed = self.freed; o.owner = owner; o.name = self.name; o.ro = self.ro; o.fn = self.fn
        return o

class Frame:
    __slots__ = ('fn', 'regs', 'blk', 'ip', 'prev', 'allocas', 'ret', 'loops')
    def __init__(self, fn):
        self.fn = fn; self.regs = {}; self.blk = fn.entry; self.ip = 0; self.prev = None
        self.allocas = []; self.ret = None; self.loops = {}
    def clone(self):
        f = Frame.__new__(Frame)
        f.fn = self.fn; f.regs = dict(self.regs); f.blk = self.blk; f.ip = self.ip; f.prev = self.prev
        f.allocas = list(self.allocas); f.ret = self.ret; f.loops = dict(self.loops)
        return f

_stid = [0]
class State:
    def __init__(self):
        _stid[0] += 1
        self.id = _stid[0]
        self.frames = []; self.mem = {}; self.pc = []; self.mask = None; self.names = {}
        self.ghost = {}; self.trace = None; self.quiet = False
        self.loopctx = None
    def clone(self):
        s = State()
        s.frames = [f.clone() for f in self.frames]
        s.mem = dict(self.mem)
        s.pc = list(self.pc); s.mask = self.mask; s.names = dict(self.names)
        s.ghost = {k: (list(v) if isinstance(v, list) else dict(v) if isinstance(v, dict) else v) for k, v in self.ghost.items()}
        s.trace = self.trace; s.quiet = self.quiet; s.loopctx = self.loopctx
        # ownership: both states must copy before writing
        self.id2()
        return s
    def id2(self):
        _stid[0] += 1
        self.id = _stid[0]
    def wobj(self, oid):
        o = self.mem[oid]
        if o.owner != self.id:
            o = o.clone(self.id)
            self.mem[oid] = o
        return o

def tosigned(v, n):
    v &= (1 << n) - 1
    return v - (1 << n) if v >> (n - 1) else v

class Obligation:
    __slots__ = ('name', 'kind', 'status', 'backend', 'time', 'witness', 'detail', 'bounded')
    def __init__(self, name, kind):
        self.name = name; self.kind = kind; self.status = None; self.backend = None; self.time = 0
        self.witness = None; self.detail = ''; self.bounded = False

TRUE_ = object()

class Engine:
    def __init__(self, module, seed=1, pool=2048, opts=None):
        self.m = module
        self.ty = module.types
        self.opts = opts or {}
        self.pool = numev.Pool(pool, seed)
        self.nextobj = 1
        self.objnames = {}
        self.globals = {}
        self.base = State()
        self.obls = []
        self.work = []
        self.vars = {}         # name -> (kind, lo, hi)
        self.unit3 = {}
        self.npaths = 0
        self.ninst = 0
        self.maxinst = self.opts.get('maxinst', 40_000_000)
        self.deadline = self.opts.get('deadline', time.time() + 600)
        self.unroll = self.opts.get('unroll', 4)
        self.bounded_notes = set()
        self.assumptions = set()
        self.loop_summaries = 0
        self.covers = {}
        self.undecided_branches = 0
        self.signcache = {}
        self.depth_left = 2
        self.failed_stop = False
        self.fresh_id = 0
        self.called = set()
        import intrinsics
        self.intr = intrinsics.table(self)
        self.extern_seen = set()

    # ---------------------------------------------------------------- memory
    def new_obj(self, st, size, kind, name='', base='uninit'):
        self.nextobj += 1
        o = Obj(self.nextobj, size, kind, name, base)
        o.owner = st.id
        st.mem[o.id] = o
        return o

    def gobj(self, st, name):
        name = self.m.aliases.get(name, name)
        oid = self.globals.get(name)
        if oid is not None:
            if oid in st.mem: return oid
        if oid is None:
            self.nextobj += 1
            oid = self.nextobj
            self.globals[name] = oid
            self.objnames[oid] = name
        if name in self.m.funcs or name in self.m.decls:
            o = Obj(oid, 1, 'func', name); o.fn = name
            o.owner = -1
            st.mem[oid] = o
            return oid
        ext, t, init, const = self.m.global_info(name)
        o = Obj(oid, self.ty.size(t) if not ext else 4096, 'global', name, 'zero')
        o.owner = st.id
        st.mem[oid] = o
        if ext:
            self.init_extern(st, o, name)
        else:
            self.init_const(st, o, 0, t, init)
        o.ro = const
        return oid

    def init_extern(self, st, o, name):
        o.kind = 'extern'
        o.base = 'extern'
        if name == '@__libc_single_threaded':
            o.cells[0] = (1, 1, ('i', 8))
        if name in ('@_ZSt4cout', '@_ZSt4cerr', '@_ZSt4clog'):
            import streams
            streams.init_std(self, st, o)

    def init_const(self, st, o, off, t, v):
        k = v[0]
        t = self.ty.res(t)
        if k == 'zero' or k == 'undef':
            return
        if k == 'str':
            for i, b in enumerate(v[1]):
                if b: o.cells[off + i] = (1, tosigned(b, 8), ('i', 8))
            return
        if k == 'agg':
            if t[0] == 'arr' or t[0] == 'vec':
                es = self.ty.size(t[2])
                for i, (et, ev) in enumerate(v[2]): self.init_const(st, o, off + i * es, et, ev)
            else:
                offs = self.ty.layout(t)[0]
                for i, (et, ev) in enumerate(v[2]): self.init_const(st, o, off + offs[i], et, ev)
            return
        val = self.const(st, t, v)
        o.cells[off] = (self.ty.size(t), val, t)

    def const(self, st, t, v):
        k = v[0]
        if k == 'c':
            if t == ('i', 1): return bool(v[1])
            if isinstance(t, tuple) and t[0] == 'i': return tosigned(v[1], t[1])
            return v[1]
        if k == 'f': return float_literal(v[1]) if t == ('f', 64) else float_literal(float(v[1]))
        if k == 'null': return NULL
        if k == 'g': return P(self.gobj(st, v[1]), 0)
        if k == 'undef':
            t = self.ty.res(t)
            if t[0] in ('st', 'arr', 'vec'):
                return self.zero_agg(t, UNDEF)
            return UNDEF
        if k == 'zero':
            t = self.ty.res(t)
            return self.zero_agg(t, None)
        if k == 'agg':
            return [self.const(st, et, ev) for et, ev in v[2]]
        if k == 'gep':
            ops = [(tt, self.const(st, tt, vv)) for tt, vv in v[2]]
            return self.gep(v[1], ops)
        if k == 'cast':
            x = self.const(st, v[2], v[3])
            return self.cast(st, v[1], v[2], x, v[4])
        if k == 'bin':
            a = self.const(st, v[3], v[4]); b = self.const(st, v[3], v[5])
            if v[1] == 'icmp': return self.icmp(st, v[2], v[3], a, b)
            return self.binop(st, v[1], v[3], a, b, ())
        if k == 'str':
            return [tosigned(b, 8) for b in v[1]]
        raise Unsupported('const %r' % (v,))

    def zero_agg(self, t, fill):
        t = self.ty.res(t) if t != 'ptr' else t
        if t == 'ptr': return NULL if fill is None else fill
        if t[0] == 'st': return [self.zero_agg(e, fill) for e in t[1]]
        if t[0] in ('arr', 'vec'): return [self.zero_agg(t[2], fill) for _ in range(t[1])]
        if fill is not None: return fill
        if t[0] == 'f': return ZERO
        if t == ('i', 1): return False
        return 0

    def val(self, st, fr, t, v):
        k = v[0]
        if k == 'r':
            return fr.regs[v[1]]
        if k == 'c':
            if t == ('i', 1): return bool(v[1])
            return tosigned(v[1], t[1])
        return self.const(st, t, v)

    # objects: loads and stores --------------------------------------------
    def typed(self, st, v, n, vt, t):
        """reinterpret value v (stored with type vt, n bytes) as type t"""
        if v is UNDEF: return UNDEF
        if t == vt: return v
        if isinstance(t, tuple) and t[0] == 'f':
            if isinstance(v, Fraction) or (is_t(v) and v.sort == 'R'): return v
            if isinstance(v, int) and not isinstance(v, bool):
                if t[1] == 64: return float_literal(struct.unpack('<d', struct.pack('<q', v))[0])
                if t[1] == 32: return float_literal(struct.unpack('<f', struct.pack('<i', v))[0])
        if isinstance(t, tuple) and t[0] == 'i':
            if isinstance(v, bool): return v if t[1] == 1 else int(v)
            if isinstance(v, int): return (v & 1 != 0) if t[1] == 1 else v
            if is_t(v) and v.sort == 'I': return v
            if is_t(v) and v.sort == 'B': return ite(v, 1, 0, 'I')
            if isinstance(v, P): return v if t[1] == 64 else self._unsup('ptr as i%d' % t[1])
            if isinstance(v, Fraction):
                if t[1] == 64: return struct.unpack('<q', struct.pack('<d', float(v)))[0]
                if t[1] == 32: return struct.unpack('<i', struct.pack('<f', float(v)))[0]
            if is_t(v) and v.sort == 'R': return v      # opaque copy through an integer register
        if t == 'ptr':
            if isinstance(v, P): return v
            if v == 0: return NULL
            if isinstance(v, int): return P(0, v)
        raise Unsupported('reinterpret %r %r as %r' % (v, vt, t))

    def _unsup(self, s): raise Unsupported(s)

    def check_access(self, st, p, n, what):
        if p.o == 0:
            self.fail_path(st, 'null pointer %s' % what)
        o = st.mem.get(p.o)
        if o is None:
            if p.o in self.objnames:
                self.gobj(st, self.objnames[p.o]); o = st.mem[p.o]
            else: raise Unsupported('dangling object')
        if o.freed: self.fail_path(st, '%s of freed memory (%s)' % (what, o.name))
        if o.kind == 'extern': return o
        if o.kind == 'func': raise Unsupported('access to function')
        off, size = p.off, o.size
        if not is_t(off) and not is_t(size):
            if off < 0 or off + n > size:
                self.fail_path(st, 'out-of-bounds %s at offset %d of %s [%d bytes]' % (what, off, o.name, size))
        else:
            self.oblige(st, band(icmp_le(0, off), icmp_le(iadd(off, n), size)), 'memory-safety: %s in bounds of %s' % (what, o.name), 'mem')
        return o

    def load(self, st, p, t):
        if p is UNDEF: raise Unsupported('load through undef pointer')
        if not isinstance(p, P): raise Unsupported('load through %r' % (p,))
        t = self.ty.res(t) if t != 'ptr' else t
        if isinstance(t, tuple) and t[0] in ('st', 'arr'):
            if t[0] == 'arr':
                es = self.ty.size(t[2])
                return [self.load(st, P(p.o, iadd(p.off, i * es)), t[2]) for i in range(t[1])]
            offs = self.ty.layout(t)[0]
            return [self.load(st, P(p.o, iadd(p.off, offs[i])), e) for i, e in enumerate(t[1])]
        if isinstance(t, tuple) and t[0] == 'vec':
            es = self.ty.size(t[2])
            return [self.load(st, P(p.o, iadd(p.off, i * es)), t[2]) for i in range(t[1])]
        n = self.ty.size(t)
        o = self.check_access(st, p, n, 'read')
        if st.loopctx is not None: st.loopctx.read(st, o, p.off, n)
        return self.load_obj(st, o, p.off, n, t)

    def load_obj(self, st, o, off, n, t):
        if o.log is not None:
            return self.load_log(st, o, off, n, t)
        if is_t(off):
            off2 = self.concretize_off(st, o, off)
            if off2 is None: return self.load_symoff(st, o, off, n, t)
            off = off2
        return self.load_cells(st, o, off, n, t)

    def load_cells(self, st, o, off, n, t):
        c = o.cells.get(off)
        if c is not None and c[0] == n:
            return self.typed(st, c[1], n, c[2], t)
        return self.load_bytes(st, o, off, n, t)

    def load_bytes(self, st, o, off, n, t):
        bs = []
        for i in range(n):
            bs.append(self.get_byte(o, off + i))
        if all(b is None for b in bs):
            return self.base_value(st, o, off, n, t)
        if all(isinstance(b, int) for b in bs):
            v = int.from_bytes(bytes(b & 255 for b in bs), 'little')
            return self.typed(st, tosigned(v, 8 * n), n, ('i', 8 * n), t)
        # pieces of one value
        if all(isinstance(b, tuple) for b in bs):
            v0 = bs[0]
            if all(b[0] is v0[0] and b[2] == v0[2] + i for i, b in enumerate(bs)):
                if v0[2] == 0 and v0[1] == n: return self.typed(st, v0[0], n, v0[3], t)
        # mixed zero base
        if o.base == 'zero':
            bs = [0 if b is None else b for b in bs]
            if all(isinstance(b, int) for b in bs):
                v = int.from_bytes(bytes(b & 255 for b in bs), 'little')
                return self.typed(st, tosigned(v, 8 * n), n, ('i', 8 * n), t)
        # low-order integer part of a wider symbolic integer known to be small
        if any(b is None for b in bs): return UNDEF
        if isinstance(t, tuple) and t[0] == 'i': return ('bytes', tuple(bs))   # only good for copying
        raise Unsupported('partial load of %s at %d size %d: %r' % (o.name, off, n, bs[:8]))

    def get_byte(self, o, off):
        c = o.cells.get(off)
        if c is not None and c[0] == 1:
            v = c[1]
            if isinstance(v, bool): return int(v)
            if isinstance(v, int): return v & 255
            if isinstance(v, tuple) and v[0] == 'piece': return (v[1], v[2], v[3], v[4])
            return (v, 1, 0, c[2])
        for k in range(0, 16):
            c = o.cells.get(off - k)
            if c is not None:
                if c[0] > k:
                    v = c[1]
                    if isinstance(v, tuple) and v[0] == 'piece':
                        return (v[1], v[2], v[3] + k, v[4])
                    if isinstance(v, Fraction) and isinstance(c[2], tuple) and c[2][0] == 'f' and v == 0: return 0
                    if isinstance(v, Fraction):
                        raw = struct.pack('<d', float(v)) if c[0] == 8 else struct.pack('<f', float(v))
                        return raw[k]
                    if isinstance(v, int) and not isinstance(v, bool):
                        return (v >> (8 * k)) & 255
                    if isinstance(v, bool): return int(v) if k == 0 else 0
                    if isinstance(v, P) and v.o == 0 and not is_t(v.off): return (v.off >> (8 * k)) & 255
                    if v is UNDEF: return None
                    return (v, c[0], k, c[2])
                return None
        return None

    def base_value(self, st, o, off, n, t):
        if o.base == 'zero' : return self.zero_agg(t, None)
        if o.base == 'uninit': return UNDEF
        if o.base == 'extern':
            if o.name.rstrip('$').lstrip('@') in ('stdout', 'stderr', 'stdin') and t == 'ptr': return P(o.id if hasattr(o, 'id') else 0, 0)
            raise Unsupported('read of external object %s' % o.name)
        if isinstance(o.base, tuple) and o.base[0] == 'arr':
            _, fname, es, sort = o.base
            if n != es: raise Unsupported('array element size')
            idx = self.div_exact(st, off, es)
            return mk('arr', (fname, idx), sort)
        raise Unsupported('base')

    def fp2int(self, st, v, op='itrunc'):
        """truncation or floor; exact when the number is an integer plus a rest known to be within [0,1)"""
        if not is_t(v): return math.trunc(v) if op == 'itrunc' else math.floor(v)
        for w in (v, None):
            if w is None:
                if tdepth(v, 60) >= 60: break
                try:
                    R = self.mkring(st); R.prescan([v]); w = R.to_term(R.nf(v))
                except (Limit, Unsupported, ZeroDivisionError): w = None
                if w is None: break
            i, c = r2split(w)
            if not is_t(i) and is_t(c): continue
            if not is_t(c):
                if c.denominator == 1: return iadd(i, int(c))
                f = iadd(i, math.floor(c))
                if not is_t(f): return math.trunc(i + c) if op == 'itrunc' else f
            else:
                if not self.prove(st, rle(ZERO, c)) or not self.prove(st, rlt(c, ONE)): continue
                f = i
            if op == 'ifloor' or self.prove(st, icmp_le(0, f)): return f
        return ifun(op, v)

    def fdiv_int(self, st, op, a, b):
        """quotient or remainder of a nonnegative number; b*q + r with r known to be below b is split"""
        r = ifun('imod', a, b)
        if is_t(r) and r.op == 'imod' and not is_t(b):
            x = r.args[0]
            if self.prove(st, icmp_le(0, x)) and self.prove(st, icmp_lt(x, b)):
                return x if op == 'imod' else ifun('idiv', isub(a, x), b)
        if is_t(a) and is_t(b) and self.prove(st, icmp_lt(a, b)) and self.prove(st, icmp_le(0, a)): return a if op == 'imod' else 0
        return ifun(op, a, b)

    def div_exact(self, st, off, k):
        if not is_t(off):
            if off % k: raise Unsupported('misaligned array access')
            return off // k
        r = ifun('imod', off, k)
        if is_t(r) or r != 0:
            if not self.prove(st, icmp_eq(r, 0)): raise Unsupported('alignment of symbolic offset')
        q = ifun('idiv', off, k)
        return q

    def concretize_off(self, st, o, off):
        """constant value of a symbolic offset if the path condition fixes it"""
        return None

    def to_log(self, st, o):
        """switch an object to a write log (needed for symbolic offsets)"""
        o = st.wobj(o.id)
        if o.log is None:
            o.log = []
        return o

    def load_symoff(self, st, o, off, n, t):
        """symbolic offset into an object with concrete cells: case split as ite"""
        if not o.cells:
            return self.base_value(st, o, off, n, t)
        # candidate offsets: aligned cells of the same size
        cands = sorted(k for k, c in o.cells.items() if c[0] == n)
        if not is_t(o.size) and o.base in ('zero',) :
            pass
        if len(cands) > 4096: raise Unsupported('symbolic offset into large object')
        r = self.base_value(st, o, off, n, t) if o.base != 'uninit' else UNDEF
        vals = [(k, self.load_cells(st, o, k, n, t)) for k in cands]
        vals = [(k, v) for k, v in vals if self.maybe(st, icmp_eq(off, k))]
        if r is UNDEF and vals:
            r = vals[-1][1]; vals = vals[:-1]
            # reading an unwritten offset would be undef: oblige membership
            self.oblige(st, self.bor_list([icmp_eq(off, k) for k in cands]), 'memory-safety: initialised read of %s' % o.name, 'mem')
        for k, v in reversed(vals):
            r = self.ite_val(icmp_eq(off, k), v, r, t)
        return r

    def bor_list(self, l):
        r = False
        for x in l: r = bor(r, x)
        return r

    def ite_val(self, c, a, b, t):
        if not is_t(c): return a if c else b
        if a is b: return a
        if isinstance(a, P) or isinstance(b, P):
            if a == b: return a
            if isinstance(a, P) and isinstance(b, P) and a.o == b.o: return P(a.o, ite(c, a.off, b.off, 'I'))
            raise Unsupported('ite of pointers')
        if isinstance(a, list): return [self.ite_val(c, x, y, None) for x, y in zip(a, b)]
        if a is UNDEF and b is UNDEF: return UNDEF
        if a is UNDEF: a = self.fresh_undef(b)
        if b is UNDEF: b = self.fresh_undef(a)
        s = a.sort if is_t(a) else b.sort if is_t(b) else ('B' if isinstance(a, bool) else 'R' if isinstance(a, Fraction) else 'I')
        if s == 'I':
            if isinstance(a, bool): a = int(a)
            if isinstance(b, bool): b = int(b)
        return ite(c, a, b, s)

    def fresh_undef(self, like):
        self.fresh_id += 1
        n = '__undef%d' % self.fresh_id
        s = like.sort if is_t(like) else ('B' if isinstance(like, bool) else 'R' if isinstance(like, Fraction) else 'I')
        return rvar(n) if s == 'R' else ivar(n) if s == 'I' else bvar(n)

    def load_log(self, st, o, off, n, t):
        log = o.log
        stack = []
        i = len(log) - 1
        res = None
        while i >= 0:
            e = log[i]
            if e[0] == 'w':
                _, woff, wn, wv, wt = e
                d = isub(off, woff)
                if not is_t(d):
                    if d == 0 and wn == n:
                        res = self.typed(st, wv, n, wt, t); break
                    if d <= -n or d >= wn:
                        i -= 1; continue
                    raise Unsupported('overlapping log access')
                if wn != n: 
                    if self.prove(st, bor(icmp_le(n, ineg(d)), icmp_le(wn, d))): i -= 1; continue
                    raise Unsupported('log access of different size')
                c = icmp_eq(d, 0)
                if not is_t(c) and not c: i -= 1; continue
                dec = self.decide(st, c)
                if dec is True: res = self.typed(st, wv, n, wt, t); break
                if dec is False: i -= 1; continue
                stack.append((c, self.typed(st, wv, n, wt, t)))
                i -= 1; continue
            if e[0] == 'q':
                # quantified write: for k in [0,K): cond(k) -> [off(k)] = val(k)
                _, k, K, cond, woff, wn, wv, wt = e
                if wn != n: raise Unsupported('quantified write of different size')
                ks = self.solve_index(st, woff, k, off)
                if ks is None: i -= 1; continue
                c = band(icmp_le(0, ks), icmp_lt(ks, K))
                if is_t(cond) or cond is not True: c = band(c, subst(cond, {k: ks}) if is_t(cond) else cond)
                v = self.subst_val(wv, {k: ks})
                dec = self.decide(st, c)
                if dec is True: res = self.typed(st, v, n, wt, t); break
                if dec is False: i -= 1; continue
                stack.append((c, self.typed(st, v, n, wt, t)))
                i -= 1; continue
            raise Unsupported('log entry')
        if res is None:
            if is_t(off):
                if o.cells: res = self.load_symoff(st, o, off, n, t)
                else: res = self.base_value(st, o, off, n, t)
            else: res = self.load_cells(st, o, off, n, t)
        for c, v in reversed(stack):
            res = self.ite_val(c, v, res, t)
        return res

    def subst_val(self, v, m):
        if is_t(v): return subst(v, m)
        if isinstance(v, P) and is_t(v.off): return P(v.o, subst(v.off, m))
        return v

    def solve_index(self, st, woff, k, off):
        """k* with woff(k*) == off, as an int term; None when provably no solution"""
        c, d = TM._lin(woff)
        a = d.get((k,), 0)
        others = {m: q for m, q in d.items() if m != (k,)}
        if any(k in m for m in others) :
            # coefficient is symbolic: woff = A*k + B with A polynomial
            A = {}; B = {}
            for m, q in d.items():
                cnt = sum(1 for x in m if x is k)
                if cnt == 1: A[tuple(x for x in m if x is not k)] = A.get(tuple(x for x in m if x is not k), 0) + q
                elif cnt == 0: B[m] = q
                else: raise Unsupported('nonlinear index')
            A = TM._mklin(A.pop((), 0), A); B = TM._mklin(c, B)
            e = isub(off, B)
            qn = self.poly_div(e, A)
            if qn is None: raise Unsupported('cannot invert symbolic stride')
            return qn
        if a == 0: raise Unsupported('quantified write at invariant address')
        rest = TM._mklin(c, others)
        e = isub(off, rest)
        if a < 0: e = ineg(e); a = -a
        r = ifun('imod', e, a)
        if not is_t(r):
            if r != 0: return None
            return ifun('idiv', e, a)
        if self.prove(st, icmp_eq(r, 0)): return ifun('idiv', e, a)
        raise Unsupported('unaligned quantified access')

    def poly_div(self, e, A):
        """exact polynomial division e / A for a single-monomial A"""
        ca, da = TM._lin(A)
        if ca != 0 or len(da) != 1: return None
        (ma, ka), = da.items()
        ce, de = TM._lin(e)
        if ce != 0: return None
        out = {}; oc = 0
        for m, q in de.items():
            mm = list(m)
            for x in ma:
                if x in mm: mm.remove(x)
                else: return None
            if q % ka: return None
            if mm: out[tuple(mm)] = q // ka
            else: oc = q // ka
        return TM._mklin(oc, out)

    def store(self, st, p, t, v):
        if p is UNDEF or not isinstance(p, P): raise Unsupported('store through %r' % (p,))
        t = self.ty.res(t) if t != 'ptr' else t
        if isinstance(t, tuple) and t[0] in ('st', 'arr', 'vec'):
            if t[0] in ('arr', 'vec'):
                es = self.ty.size(t[2])
                for i in range(t[1]): self.store(st, P(p.o, iadd(p.off, i * es)), t[2], v[i] if v is not UNDEF else UNDEF)
            else:
                offs = self.ty.layout(t)[0]
                for i, e in enumerate(t[1]): self.store(st, P(p.o, iadd(p.off, offs[i])), e, v[i])
            return
        n = self.ty.size(t)
        o = self.check_access(st, p, n, 'write')
        if o.ro: self.fail_path(st, 'write to constant %s' % o.name)
        if st.loopctx is not None: st.loopctx.write(st, o, p.off, n)
        self.store_obj(st, st.wobj(o.id), p.off, n, v, t)

    def store_obj(self, st, o, off, n, v, t):
        if o.log is not None or is_t(off):
            o = self.to_log(st, o)
            o.log.append(('w', off, n, v, t))
            return
        self.store_cells(o, off, n, v, t)

    def store_cells(self, o, off, n, v, t):
        cells = o.cells
        if isinstance(v, tuple) and v and v[0] == 'bytes':
            for j, b in enumerate(v[1]):
                if isinstance(b, tuple): b = b[0] if b[1] == 1 else ('piece',) + b
                elif isinstance(b, int): b = tosigned(b & 255, 8)
                self.store_cells(o, off + j, 1, b, ('i', 8))
            return
        c = cells.get(off)
        if c is not None and c[0] == n:
            cells[off] = (n, v, t); return
        # remove overlaps
        for k in range(off - 15, off + n):
            c = cells.get(k)
            if c is None: continue
            cn = c[0]
            if k + cn <= off: continue
            # overlap: keep the outside bytes
            if k >= off and k + cn <= off + n:
                del cells[k]; continue
            del cells[k]
            for j in range(cn):
                b = k + j
                if off <= b < off + n: continue
                cv = c[1]
                if isinstance(cv, bool): cv = int(cv)
                if isinstance(cv, P) and cv.o == 0 and not is_t(cv.off): cv = cv.off
                if isinstance(cv, int): cells[b] = (1, tosigned((cv >> (8 * j)) & 255, 8), ('i', 8))
                elif isinstance(cv, Fraction) and cv == 0: cells[b] = (1, 0, ('i', 8))
                elif isinstance(cv, Fraction):
                    raw = struct.pack('<d', float(cv)) if cn == 8 else struct.pack('<f', float(cv))
                    cells[b] = (1, tosigned(raw[j], 8), ('i', 8))
                elif cv is UNDEF: cells[b] = (1, UNDEF, ('i', 8))
                elif isinstance(cv, tuple) and cv[0] == 'piece': cells[b] = (1, ('piece', cv[1], cv[2], cv[3] + j, cv[4]), ('i', 8))
                else: cells[b] = (1, ('piece', cv, cn, j, c[2]), ('i', 8))
        cells[off] = (n, v, t)

    def memcpy(self, st, d, s, n):
        if not is_t(n) and n == 0: return
        if is_t(n): return self.memcpy_sym(st, d, s, n)
        so = self.check_access(st, s, n, 'read')
        do = self.check_access(st, d, n, 'write')
        if do.ro: self.fail_path(st, 'write to constant %s' % do.name)
        if st.loopctx is not None:
            st.loopctx.read(st, so, s.off, n); st.loopctx.write(st, do, d.off, n)
        if so.log is not None or do.log is not None or is_t(s.off) or is_t(d.off):
            if n % 8 == 0 and n <= 4096:
                vals = []
                for i in range(0, n, 8):
                    vals.append(self.load_obj(st, so, iadd(s.off, i), 8, ('f', 64) ))
                do = st.wobj(do.id)
                for i, v in enumerate(vals): self.store_obj(st, do, iadd(d.off, 8 * i), 8, v, ('f', 64))
                return
            raise Unsupported('memcpy of symbolic region')
        items = []
        end = s.off + n
        if len(so.cells) > 4 * n + 64:
            rng = range(s.off - 15, end)
            src = [(k, so.cells[k]) for k in rng if k in so.cells]
        else:
            src = sorted((k, c) for k, c in ((k, c) for k, c in so.cells.items() if s.off - 16 < k < end))if False else [(k, c) for k, c in so.cells.items() if s.off - 16 < k < end]
        covered = []
        for k, c in src:
            if k + c[0] <= s.off: continue
            if k >= s.off and k + c[0] <= end:
                items.append((k - s.off, c))
                covered.append((k - s.off, c[0]))
            else:
                for j in range(c[0]):
                    b = k + j
                    if s.off <= b < end:
                        v = self.get_byte(so, b)
                        if isinstance(v, tuple): v = ('piece',) + v
                        elif v is None: v = UNDEF
                        else: v = tosigned(v, 8)
                        items.append((b - s.off, (1, v, ('i', 8)))); covered.append((b - s.off, 1))
        do = st.wobj(do.id)
        # clear the destination range
        for k in [k for k in do.cells if d.off - 16 < k < d.off + n]:
            c = do.cells[k]
            if k + c[0] <= d.off: continue
            if k >= d.off and k + c[0] <= d.off + n: del do.cells[k]
            else:
                lo = max(k, d.off); hi = min(k + c[0], d.off + n)
                self.store_cells(do, lo, hi - lo, UNDEF, ('i', 8 * (hi - lo)))
                del do.cells[lo]
        if so.base == 'zero' and do.base != 'zero':
            # materialise zero bytes
            cov = bytearray(n)
            for k, cn in covered:
                for j in range(cn): cov[k + j] = 1
            i = 0
            while i < n:
                if cov[i]: i += 1; continue
                if (d.off + i) % 8 == 0 and i + 8 <= n and not any(cov[i:i + 8]):
                    do.cells[d.off + i] = (8, 0, ('i', 64)); i += 8
                elif (d.off + i) % 4 == 0 and i + 4 <= n and not any(cov[i:i + 4]):
                    do.cells[d.off + i] = (4, 0, ('i', 32)); i += 4
                else:
                    do.cells[d.off + i] = (1, 0, ('i', 8)); i += 1
        elif so.base != 'zero' and do.base == 'zero':
            cov = bytearray(n)
            for k, cn in covered:
                for j in range(cn): cov[k + j] = 1
            if isinstance(so.base, tuple):
                raise Unsupported('memcpy from array to zero-based object')
            for i in range(n):
                if not cov[i]: do.cells[d.off + i] = (1, UNDEF, ('i', 8))
        elif isinstance(so.base, tuple):
            es = so.base[2]
            cov = bytearray(n)
            for k, cn in covered:
                for j in range(cn): cov[k + j] = 1
            if s.off % es: raise Unsupported('misaligned array memcpy')
            i = 0
            while i < n:
                if not cov[i]:
                    do.cells[d.off + i] = (es, self.base_value(st, so, s.off + i, es, ('f', 64)), ('f', 64) if es == 8 else ('f', 32))
                i += es
        for k, c in items: do.cells[d.off + k] = c

    def memcpy_sym(self, st, d, s, n):
        """copy of a symbolic number of bytes: element-wise quantified write"""
        so = self.check_access_sym(st, s, n, 'read')
        do = self.check_access_sym(st, d, n, 'write')
        if so is None: return
        es = 8
        cnt = self.div_exact(st, n, es)
        self.fresh_id += 1
        k = ivar('$m%d' % self.fresh_id)
        st2 = st
        pcl = len(st.pc)
        st.pc.append(icmp_le(0, k)); st.pc.append(icmp_lt(k, cnt))
        try:
            v = self.load_obj(st, so, iadd(s.off, imul(es, k)), es, ('f', 64))
        finally:
            del st.pc[pcl:]
        if v is UNDEF: v = rvar('__undefcopy')
        do = self.to_log(st, do)
        do.log.append(('q', k, cnt, True, iadd(d.off, imul(es, k)), es, v, ('f', 64)))
        if st.loopctx is not None: raise Unsupported('symbolic memcpy inside summarised loop')

    def check_access_sym(self, st, p, n, what):
        if self.prove(st, icmp_eq(n, 0)): return None
        if p.o == 0: self.fail_path(st, 'null pointer %s' % what)
        o = st.mem[p.o]
        if o.freed: self.fail_path(st, '%s of freed memory' % what)
        self.oblige(st, band(icmp_le(0, p.off), icmp_le(iadd(p.off, n), o.size)), 'memory-safety: %s range in bounds of %s' % (what, o.name), 'mem')
        return o

    def memset(self, st, d, b, n):
        if not is_t(n) and n == 0: return
        if is_t(n):
            o = self.check_access_sym(st, d, n, 'write')
            if o is None: return
            if b != 0: raise Unsupported('symbolic memset nonzero')
            cnt = self.div_exact(st, n, 8)
            self.fresh_id += 1
            k = ivar('$m%d' % self.fresh_id)
            o = self.to_log(st, o)
            o.log.append(('q', k, cnt, True, iadd(d.off, imul(8, k)), 8, 0, ('i', 64)))
            return
        o = self.check_access(st, d, n, 'write')
        if st.loopctx is not None: st.loopctx.write(st, o, d.off, n)
        o = st.wobj(o.id)
        if not isinstance(b, int): raise Unsupported('memset symbolic')
        if o.log is not None or is_t(d.off):
            if n % 8 or b: raise Unsupported('memset log')
            for i in range(0, n, 8): self.store_obj(st, o, iadd(d.off, i), 8, 0, ('i', 64))
            return
        if not is_t(o.size) and d.off == 0 and n == o.size and b == 0 and n > 64:
            o.cells = {}; o.base = 'zero'; return
        i = 0
        while i < n:
            a = d.off + i
            if a % 8 == 0 and i + 8 <= n:
                self.store_cells(o, a, 8, int.from_bytes(bytes([b & 255]) * 8, 'little', signed=True), ('i', 64)); i += 8
            elif a % 4 == 0 and i + 4 <= n:
                self.store_cells(o, a, 4, int.from_bytes(bytes([b & 255]) * 4, 'little', signed=True), ('i', 32)); i += 4
            else:
                self.store_cells(o, a, 1, tosigned(b & 255, 8), ('i', 8)); i += 1

    # ---------------------------------------------------------------- gep & scalar ops
    def gep(self, st_, ops):
        p = ops[0][1]
        if p is UNDEF: return UNDEF
        if isinstance(p, list): raise Unsupported('vector gep')
        if isinstance(p, int): p = P(0, p)
        if not isinstance(p, P): raise Unsupported('gep on %r' % (p,))
        off = p.off
        t = st_
        first = True
        for (it, iv) in ops[1:]:
            if iv is UNDEF: raise Unsupported('gep undef index')
            if isinstance(iv, P): raise Unsupported('gep by pointer')
            if first:
                off = iadd(off, imul(self.ty.size(t), iv)); first = False
                continue
            t = self.ty.res(t)
            if t[0] == 'st':
                off = iadd(off, self.ty.layout(t)[0][iv]); t = t[1][iv]
            else:
                t = t[2]
                off = iadd(off, imul(self.ty.size(t), iv))
        return P(p.o, off)

    def int_(self, v):
        if isinstance(v, bool): return int(v)
        if is_t(v) and v.sort == 'B': return ite(v, 1, 0, 'I')
        return v

    def nonneg(self, st, x):
        if not is_t(x): return x >= 0
        return self.prove(st, icmp_le(0, x))

    def unsigned(self, st, x, n):
        if not is_t(x): return x & ((1 << n) - 1)
        if self.nonneg(st, x): return x
        return ite(icmp_le(0, x), x, iadd(x, 1 << n), 'I')

    def binop(self, st, op, t, a, b, flags):
        if isinstance(a, list) or isinstance(b, list):
            return [self.binop(st, op, t[2], x, y, flags) for x, y in zip(a, b)]
        if op[0] == 'f':
            if a is UNDEF: a = self.fresh_undef(ZERO)
            if b is UNDEF: b = self.fresh_undef(ZERO)
            if a is NAN or b is NAN: return NAN
            if op == 'fadd': return radd(a, b)
            if op == 'fsub': return rsub(a, b)
            if op == 'fmul': return rmul(a, b)
            if op == 'fdiv':
                if not is_t(b) and b == 0:
                    if not is_t(a) and a != 0: return mk('rvar', ('__inf' if a > 0 else '__ninf',), 'R')
                    return mk('/', (a, ZERO), 'R')
                if st.ghost.get('defined') and is_t(b):
                    self.oblige(st, bnot(req(b, ZERO)), 'defined: divisor is nonzero', 'def')
                return rdiv(a, b)
            if op == 'frem': return rfun('fmod', a, b)
        n = t[1]
        if n == 1:
            if a is UNDEF or b is UNDEF: raise Unsupported('undef bool')
            if isinstance(a, int) and not isinstance(a, bool): a = bool(a & 1)
            if isinstance(b, int) and not isinstance(b, bool): b = bool(b & 1)
            if op == 'and': return band(a, b)
            if op == 'or': return bor(a, b)
            if op == 'xor' or op == 'add' or op == 'sub': return bxor(a, b)
            if op == 'mul': return band(a, b)
            raise Unsupported('i1 ' + op)
        if isinstance(a, P) or isinstance(b, P):
            return self.ptr_arith(st, op, n, a, b)
        if a is UNDEF or b is UNDEF or isinstance(a, PB) or isinstance(b, PB):
            M = (1 << n) - 1
            if op in ('and', 'or', 'xor') and all(x is UNDEF or isinstance(x, (int, PB)) for x in (a, b)):
                (ka, va), (kb, vb) = [(0, 0) if x is UNDEF else (x.k, x.v) if isinstance(x, PB) else (M, x & M) for x in (a, b)]
                if op == 'and': k = (ka & kb) | (ka & ~va) | (kb & ~vb); v = va & vb
                elif op == 'or': k = (ka & kb) | (ka & va) | (kb & vb); v = va | vb
                else: k = ka & kb; v = va ^ vb
                k &= M
                return UNDEF if not k else tosigned(v, n) if k == M else PB(k, v)
            return UNDEF
        if is_t(a) and a.sort == 'R' or is_t(b) and b.sort == 'R': 
            return self.bits_op(st, op, a, b)
        a, b = self.int_(a), self.int_(b)
        if not is_t(a) and not is_t(b):
            M = (1 << n) - 1
            if op == 'add': r = a + b
            elif op == 'sub': r = a - b
            elif op == 'mul': r = a * b
            elif op == 'and': r = a & b
            elif op == 'or': r = a | b
            elif op == 'xor': r = a ^ b
            elif op == 'shl': r = a << (b & M)
            elif op == 'lshr': r = (a & M) >> (b & M)
            elif op == 'ashr': r = a >> (b & M)
            elif op in ('sdiv', 'srem', 'udiv', 'urem'):
                if b == 0: self.fail_path(st, 'integer division by zero')
                if op[0] == 'u': a &= M; b &= M
                q = abs(a) // abs(b)
                if (a < 0) != (b < 0): q = -q
                r = q if op[1:] == 'div' else a - q * b
            else: raise Unsupported(op)
            return tosigned(r, n)
        if op == 'add': return self.wrap(st, iadd(a, b), n, flags)
        if op == 'sub': return self.wrap(st, isub(a, b), n, flags)
        if op == 'mul': return self.wrap(st, imul(a, b), n, flags)
        if op == 'shl' and not is_t(b): return self.wrap(st, imul(a, 1 << b), n, flags)
        if op in ('lshr', 'ashr') and not is_t(b):
            if op == 'lshr': a = self.unsigned(st, a, n)
            return ifun('idiv', a, 1 << b)
        if op in ('sdiv', 'udiv', 'srem', 'urem'):
            if op[0] == 'u':
                a = self.unsigned(st, a, n); b = self.unsigned(st, b, n)
            if is_t(b):
                self.oblige(st, bnot(icmp_eq(b, 0)), 'integer divisor is nonzero', 'mem')
                if not self.prove(st, icmp_lt(0, b)): raise Unsupported('division by possibly negative')
            elif b < 0: 
                if op == 'sdiv': return ineg(self.binop(st, op, t, a, -b, flags))
                b = -b
            elif b == 0: self.fail_path(st, 'integer division by zero')
            if self.nonneg(st, a):
                return self.fdiv_int(st, 'idiv' if op[1:] == 'div' else 'imod', a, b)
            neg = ineg(ifun('idiv', ineg(a), b))
            q = ite(icmp_le(0, a), ifun('idiv', a, b), neg, 'I')
            if op == 'sdiv': return q
            return isub(a, imul(q, b))
        if op == 'and':
            if is_t(a) and not is_t(b): pass
            elif is_t(b) and not is_t(a): a, b = b, a
            else: raise Unsupported('and of symbolic')
            if b == -1: return a
            if b >= 0 and (b & (b + 1)) == 0: return ifun('imod', a, b + 1)
            if b == 1 << (b.bit_length() - 1) and b > 0:
                h = ifun('imod', ifun('idiv', a, b), 2)
                return imul(h, b)
            if b < 0 and ((-b) & (-b - 1)) == 0:     # alignment mask
                return imul(ifun('idiv', a, -b), -b)
            raise Unsupported('and mask %d' % b)
        if op == 'or':
            if 'disjoint' in flags: return iadd(a, b)
            if not is_t(b) and b == 0: return a
            if not is_t(a) and a == 0: return b
            # boolean words
            if self.is01(a) and self.is01(b):
                return ite(bor(self.to01(a), self.to01(b)), 1, 0, 'I')
            # overapproximated: known sign, at least each operand when both are nonnegative
            self.fresh_id += 1
            o = ivar('$or%d' % self.fresh_id)
            x = np.broadcast_to(np.asarray(self.pool.ev(a), dtype=float), (self.pool.n,)); y = np.broadcast_to(np.asarray(self.pool.ev(b), dtype=float), (self.pool.n,))
            self.pool.set(o, (np.nan_to_num(x).astype(np.int64) | np.nan_to_num(y).astype(np.int64)).astype(float))
            st.pc.append(bor(band(band(icmp_le(a, o), icmp_le(b, o)), band(icmp_le(0, a), icmp_le(0, b))), band(icmp_lt(o, 0), bor(icmp_lt(a, 0), icmp_lt(b, 0)))))
            if self.nonneg(st, a) and self.nonneg(st, b): st.pc.append(icmp_le(0, o)); st.pc.append(icmp_le(o, iadd(a, b)))
            return o
        if op == 'xor':
            if not is_t(b) and b == -1: return isub(-1, a)
            if not is_t(a) and a == -1: return isub(-1, b)
            if not is_t(b) and b == 1 and self.is01(a): return isub(1, a)
            if not is_t(b) and b == 0: return a
            if not is_t(b) and b > 0 and (b & (b - 1)) == 0:
                h = ifun('imod', ifun('idiv', a, b), 2)
                return iadd(a, ite(icmp_eq(h, 0), b, -b, 'I'))
        raise Unsupported('int %s %r %r' % (op, a, b))

    def is01(self, a):
        return a in (0, 1) if not is_t(a) else (a.op == 'ite' and not is_t(a.args[1]) and not is_t(a.args[2]) and {a.args[1], a.args[2]} == {0, 1})
    def to01(self, a):
        if not is_t(a): return bool(a)
        return a.args[0] if a.args[1] == 1 else bnot(a.args[0])

    def bits_op(self, st, op, a, b):
        # sign-bit manipulation of doubles held in integer registers
        if is_t(b) and b.sort == 'R': a, b = b, a
        if op == 'and' and b == 0x7fffffffffffffff: return rfun('fabs', a)
        if op == 'xor' and b == -0x8000000000000000: return rneg(a)
        raise Unsupported('bit operation on a double')

    def wrap(self, st, x, n, flags):
        if not is_t(x): return tosigned(x, n)
        if 'nsw' in flags and n <= 32: self.assumptions.add('signed 32-bit index arithmetic does not overflow')
        return x

    def ptr_arith(self, st, op, n, a, b):
        if op == 'sub' and isinstance(a, P) and isinstance(b, P):
            if a.o == b.o: return isub(a.off, b.off)
            return UNDEF if False else self._ptrdiff(st, a, b)
        if op == 'add':
            if isinstance(a, P) and not isinstance(b, P): return P(a.o, iadd(a.off, b))
            if isinstance(b, P) and not isinstance(a, P): return P(b.o, iadd(b.off, a))
            if isinstance(a, P) and isinstance(b, P) and a.o == -b.o: return iadd(a.off, b.off)
        if op == 'sub' and isinstance(b, P) and not isinstance(a, P): return P(-b.o, isub(a, b.off))
        if op == 'sub' and isinstance(a, P): return P(a.o, isub(a.off, b))
        if op == 'and':
            if isinstance(b, P): a, b = b, a
            if isinstance(b, int):
                if 0 <= b < 16:
                    if a.o == 0: return a.off & b
                    if not is_t(a.off): return a.off & b
                    return ifun('imod', a.off, b + 1) if (b & (b + 1)) == 0 else self._unsup('ptr and')
                if b < 0: return P(a.o, a.off & b if not is_t(a.off) else imul(ifun('idiv', a.off, -b), -b))
        if op in ('lshr', 'ashr', 'udiv', 'urem', 'sdiv') and isinstance(a, P) and not is_t(a.off):
            return self.addr_of(a) >> b if op in ('lshr', 'ashr') else (self.addr_of(a) % b if op == 'urem' else self.addr_of(a) // b)
        raise Unsupported('pointer arithmetic %s %r %r' % (op, a, b))

    def addr_of(self, p):
        return p.o * 0x10000000 + p.off

    def _ptrdiff(self, st, a, b):
        if a.o == 0 and b.o != 0 or b.o == 0 and a.o != 0 or True:
            if is_t(a.off) or is_t(b.off): raise Unsupported('ptrdiff')
            return self.addr_of(a) - self.addr_of(b)

    def icmp(self, st, pred, t, a, b):
        if isinstance(t, tuple) and t[0] == 'vec': return [self.icmp(st, pred, t[2], x, y) for x, y in zip(a, b)]
        if isinstance(a, PB): a = UNDEF
        if isinstance(b, PB): b = UNDEF
        if a is UNDEF or b is UNDEF:
            if st.quiet: raise Unsupported('compare undef')
            self.fresh_id += 1
            return bvar('__undefcmp%d' % self.fresh_id)
        if isinstance(a, P) or isinstance(b, P):
            if isinstance(a, int): a = P(0, a)
            if isinstance(b, int): b = P(0, b)
            if not isinstance(a, P) or not isinstance(b, P): raise Unsupported('pointer vs int compare')
            if a.o == b.o:
                x, y = a.off, b.off
                if pred == 'eq': return icmp_eq(x, y)
                if pred == 'ne': return bnot(icmp_eq(x, y))
                k = pred[1:]
                return {'lt': lambda: icmp_lt(x, y), 'le': lambda: icmp_le(x, y), 'gt': lambda: icmp_lt(y, x), 'ge': lambda: icmp_le(y, x)}[k]()
            if pred == 'eq': return False
            if pred == 'ne': return True
            x, y = self.addr_of(P(a.o, 0)) , self.addr_of(P(b.o, 0))
            k = pred[1:]
            return {'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[k]
        if t == ('i', 1) or isinstance(a, bool) or isinstance(b, bool) or (is_t(a) and a.sort == 'B') or (is_t(b) and b.sort == 'B'):
            if t == ('i', 1):
                if pred == 'eq': return bnot(bxor(a, b))
                if pred == 'ne': return bxor(a, b)
            a, b = self.int_(a), self.int_(b)
        if is_t(a) and a.sort == 'R' or is_t(b) and b.sort == 'R' or isinstance(a, Fraction) or isinstance(b, Fraction):
            # bit pattern comparison of doubles (sign tests, zero tests)
            if not is_t(b) and b == 0 and is_t(a):
                if pred == 'slt': return rlt(a, ZERO)
                if pred == 'eq': return req(a, ZERO)
                if pred == 'ne': return bnot(req(a, ZERO))
            if not is_t(b) and b == -1 and pred == 'sgt': return rle(ZERO, a)
            raise Unsupported('integer comparison of double bits')
        if pred == 'eq': return icmp_eq(a, b)
        if pred == 'ne': return bnot(icmp_eq(a, b))
        if pred[0] == 'u':
            n = t[1]
            a, b = self.unsigned(st, a, n), self.unsigned(st, b, n)
        k = pred[1:]
        if k == 'lt': return icmp_lt(a, b)
        if k == 'le': return icmp_le(a, b)
        if k == 'gt': return icmp_lt(b, a)
        return icmp_le(b, a)

    def fcmp(self, st, pred, a, b):
        if isinstance(a, list): return [self.fcmp(st, pred, x, y) for x, y in zip(a, b)]
        if a is UNDEF: a = self.fresh_undef(ZERO)
        if b is UNDEF: b = self.fresh_undef(ZERO)
        INF, NINF = mk('rvar', ('__inf',), 'R'), mk('rvar', ('__ninf',), 'R')
        if a is NAN or b is NAN: return pred[0] == 'u' or pred == 'true'
        if pred == 'uno': return False
        if pred == 'ord': return True
        if pred == 'true': return True
        if pred == 'false': return False
        k = pred[1:]
        for x, y, s in ((a, b, 1), (b, a, -1)):
            if x is INF or x is NINF:
                if y is x: r = 0
                elif y is INF or y is NINF: r = 1 if x is INF else -1
                else: r = 1 if x is INF else -1     # finite y
                r *= s
                return {'eq': r == 0, 'ne': r != 0, 'lt': r < 0, 'le': r <= 0, 'gt': r > 0, 'ge': r >= 0}[k]
        if k == 'eq': return req(a, b)
        if k == 'ne': return bnot(req(a, b))
        if k == 'lt': return rlt(a, b)
        if k == 'le': return rle(a, b)
        if k == 'gt': return rlt(b, a)
        return rle(b, a)

    def cast(self, st, op, t, v, t2):
        if isinstance(v, list) and isinstance(t, tuple) and t[0] == 'vec':
            if op == 'bitcast': raise Unsupported('vector bitcast')
            return [self.cast(st, op, t[2], x, t2[2]) for x in v]
        if v is UNDEF or isinstance(v, PB): return UNDEF
        if op in ('zext', 'sext', 'trunc'):
            n, m = t[1], t2[1]
            if op == 'zext':
                if isinstance(v, bool): return int(v)
                if is_t(v) and v.sort == 'B': return ite(v, 1, 0, 'I')
                if isinstance(v, int): return v & ((1 << n) - 1)
                return self.unsigned(st, v, n)
            if op == 'sext':
                if isinstance(v, bool): return -int(v)
                if is_t(v) and v.sort == 'B': return ite(v, -1, 0, 'I')
                return v
            if m == 1:
                if isinstance(v, bool): return v
                if isinstance(v, int): return bool(v & 1)
                if is_t(v) and v.sort == 'B': return v
                if self.is01(v): return self.to01(v)
                return bnot(icmp_eq(ifun('imod', v, 2), 0))
            if isinstance(v, P):
                raise Unsupported('pointer truncation')
            if isinstance(v, int): return tosigned(v, m)
            if is_t(v) and v.sort == 'R': raise Unsupported('trunc of double bits')
            self.assumptions.add('integer truncations keep the value')
            return v
        if op in ('sitofp', 'uitofp'):
            if isinstance(v, bool): return Fraction(int(v)) if op == 'uitofp' else Fraction(-int(v))
            if is_t(v) and v.sort == 'B': return ite(v, ONE, ZERO, 'R')
            if op == 'uitofp': v = self.unsigned(st, v, t[1])
            return i2r(v)
        if op in ('fptosi', 'fptoui'):
            if not is_t(v): return math.trunc(v)
            if op == 'fptoui' or True:
                if v.op == 'rvar' and v.args[0] in ('__inf', '__ninf', '__nan'): raise Unsupported('int of inf')
            return self.fp2int(st, v)
        if op in ('fpext', 'fptrunc'):
            if op == 'fptrunc' and is_t(v): self.assumptions.add('rounding to binary32 is ignored')
            return v
        if op == 'bitcast':
            return self.typed(st, v, 8, t, t2)
        if op == 'ptrtoint':
            if v == NULL: return 0
            return v
        if op == 'inttoptr':
            if isinstance(v, int): return NULL if v == 0 else P(0, v)
            return v
        raise Unsupported('cast ' + op)

    # ---------------------------------------------------------------- logic
    def facts(self, st):
        return st.pc

    def decide(self, st, c):
        """True/False if the path condition decides c, else None"""
        if not is_t(c): return bool(c)
        if c in st.pc: return True
        nc = bnot(c)
        if is_t(nc) and nc in st.pc: return False
        t, f = self.clear(st, c, nc)
        if t and f: return None
        r = None
        if t or not f:
            if self.unsat(st, nc): r = True
            elif not t and self.unsat(st, c): r = False
        elif self.unsat(st, c): r = False
        if r is not None and kind_real(c) and not st.quiet:
            d = c if r else nc
            if is_t(d): st.pc.append(d)      # implied, kept as a lemma
        return r

    def maybe(self, st, c):
        if not is_t(c): return bool(c)
        m = self.cmask(st, c)
        if (st.mask & m).any(): return True
        return not self.unsat(st, c)

    def cmask(self, st, c):
        r = self.pool.ev(c)
        return np.broadcast_to(np.asarray(r, dtype=bool), (self.pool.n,))

    def unsat(self, st, c, timeout=None):
        key = (tuple(x.id for x in st.pc), c)
        r = self.signcache.get(key)
        if r is None:
            if timeout is None: timeout = self.opts.get('branch_timeout', 1.0)
            fs = smt.relevant(st.pc, c) + [c] if is_t(c) else list(st.pc)
            r = False
            if is_t(c) and len(fs) > 3:
                f0 = smt.direct(st.pc, c)
                if f0 and len(f0) + 1 < len(fs): r = smt.check(f0 + [c], 0.3)[0] == 'unsat'
            if not r: r = smt.check(fs, timeout)[0] == 'unsat'
            if not r and is_t(c):
                r = self.refute_deep(st, c, timeout)
            self.signcache[key] = r
        return r

    def refute_deep(self, st, c, timeout, depth=0):
        """refutation of c by splitting its conditionals and normalising what is left"""
        if not self.depth_left: return False
        it = None
        for s in atoms([c]):
            if s.op == 'ite' and s.sort in ('R', 'I'): it = s.args[0]; break
        if it is not None and depth < 6:
            for val in (True, False):
                f = it if val else bnot(it)
                m = self.cond_map(it, val)
                c2 = subst(c, m)
                if not is_t(c2):
                    if c2 is False: continue
                    c2 = TRUE_
                st2 = self.sub_state(st)
                try: self.assume(st2, f)
                except PathEnd: continue
                if not st2.mask.any() and smt.check(smt.relevant(st2.pc, f), timeout)[0] == 'unsat': continue
                if c2 is TRUE_: 
                    if smt.check(smt.relevant(st2.pc, f), timeout)[0] != 'unsat': return False
                    continue
                if (st2.mask & self.cmask(st2, c2)).any() : return False
                if smt.check(smt.relevant(st2.pc, c2) + [c2], timeout)[0] == 'unsat': continue
                if not self.refute_deep(st2, c2, timeout, depth + 1): return False
            return True
        self.depth_left -= 1
        try: c2 = self.ring_simplify(st, c)
        finally: self.depth_left += 1
        if c2 is False: return True
        if is_t(c2) and c2 is not c:
            if smt.check(smt.relevant(st.pc, c2) + [c2], timeout)[0] == 'unsat': return True
        else: c2 = c
        return smt.generalised(st.pc, c, timeout) or (c2 is not c and smt.generalised(st.pc, c2, timeout))

    def sub_state(self, st):
        st2 = State()
        st2.pc = list(st.pc); st2.mask = st.mask; st2.quiet = True
        return st2

    def ring_simplify(self, st, c):
        """an equivalent (where defined) of the real comparison c through its normal form, or None"""
        neg = False
        if c.op == 'not': neg = True; c = c.args[0]
        if c.op not in ('<', '<='): return None
        a, b = c.args
        sides = [x for x in (a, b) if is_t(x)]
        at = atoms(sides)
        if not any(s.op in ('sin', 'cos', 'sqrt', 'acos', 'atan2') for s in at) or any(s.op == 'ite' for s in at): return None
        if len(at) > 600: return None
        key = ('rs', tuple(x.id for x in st.pc), c)
        if key in self.signcache: return self.signcache[key]
        self.signcache[key] = None
        try:
            em = equalities(st.pc)
            if em: a, b = subst(a, em), subst(b, em)
            sides = [x for x in (a, b) if is_t(x)]
            R = Ring(self.pool, st.mask, unit3=self.unit3, prove_sign=lambda t, s: self.prove_sign(st, t, s), deadline=time.time() + 8)
            R.prescan(sides)
            z = R.sub(R.nf(a), R.nf(b))
            t = R.to_term(z)
        except (Limit, ZeroDivisionError): return None
        if t is None: return None
        r = rlt(t, ZERO) if c.op == '<' else rle(t, ZERO)
        if neg: r = bnot(r)
        self.signcache[key] = r
        return r

    def prove(self, st, g):
        if not is_t(g): return bool(g)
        if g in st.pc: return True
        m = self.cmask(st, g)
        if (st.mask & ~m).any(): 
            # a sample refutes it (beware of rounding: only for integer atoms is this exact)
            return False
        return self.unsat(st, bnot(g))

    def assume(self, st, c):
        if not is_t(c):
            if not c: raise PathEnd('assumption is false')
            return
        if c.op == 'and':
            self.assume(st, c.args[0]); self.assume(st, c.args[1]); return
        if c in st.pc: return
        c2 = self.ring_simplify(st, c) if self.depth_left and kind_real(c) else None
        st.pc.append(c)
        st.mask = st.mask & self.cmask(st, c)
        if is_t(c2) and c2 is not c and c2 not in st.pc and len(atoms([c2])) < len(atoms([c])): st.pc.append(c2)
        if c2 is False: raise PathEnd('assumption is false')

    def fork(self, st, c):
        """branch on c: returns list of (state, bool) to continue; st itself is reused"""
        if not is_t(c): return bool(c)
        if c in st.pc: return True
        nc = bnot(c)
        if is_t(nc) and nc in st.pc: return False
        t, f = self.clear(st, c, nc)
        if not t: t = not self.unsat(st, c)
        if not f and t: f = not self.unsat(st, nc)
        elif not f and not t:
            f = not self.unsat(st, nc)
            if not f: raise PathEnd('infeasible')
        if t and f: return None
        if kind_real(c):
            d = c if t else nc
            if is_t(d): st.pc.append(d)      # implied, kept as a lemma
        return t

    def clear(self, st, c, nc):
        """are there samples of the path where c is clearly true / clearly false (rounding aside)"""
        m = self.cmask(st, c)
        t, f = st.mask & m, st.mask & ~m
        if kind_real(c):
            with np.errstate(all='ignore'):
                if is_t(nc): t = t & self.robust(nc)
                f = f & self.robust(c)
        return bool(t.any()), bool(f.any())

    def fail_path(self, st, msg):
        """the program reaches an error (abort, bad access) on this path"""
        if not st.quiet:
            self.oblige(st, False, msg, 'abort')
        raise PathEnd(msg)

    # ---------------------------------------------------------------- obligations
    def oblige(self, st, goal, name, kind='contract', pair=None):
        if st.quiet: return True
        fr = st.frames[-1] if st.frames else None
        where = fr.fn.name[1:] if fr else ''
        if not is_t(goal) and goal and pair is None:
            if kind in ('mem', 'abort'): return True
            ob = Obligation(name, kind); ob.status = 'discharged'; ob.backend = 'evaluation'
            ob.detail = where
            self.obls.append(ob)
            return True
        key = ('ob', tuple(x.id for x in st.pc), goal if is_t(goal) else bool(goal), pair)
        if kind in ('mem', 'def'):
            if self.signcache.get(key): return True
        ob = Obligation(name, kind); ob.detail = where
        t0 = time.time()
        self.discharge(st, goal, pair, ob)
        ob.time = time.time() - t0
        self.obls.append(ob)
        if self.opts.get('verbose'): print('   [%s] %-60s %s %s %.2fs' % (kind, name, ob.status, ob.backend, ob.time), flush=True)
        if ob.status == 'discharged': self.signcache[key] = True
        elif ob.status == 'failed' and kind == 'contract' and self.opts.get('stop_on_fail', True):
            self.failed_stop = True
        return ob.status == 'discharged'

    def discharge(self, st, goal, pair, ob):
        # 1. numeric refutation on the sample pool
        mask = st.mask
        if pair is not None:
            a, b = pair
            with np.errstate(all='ignore'):
                va, vb = np.broadcast_to(np.asarray(self.pool.ev(a), dtype=float), (self.pool.n,)), np.broadcast_to(np.asarray(self.pool.ev(b), dtype=float), (self.pool.n,))
                fin = np.isfinite(va) & np.isfinite(vb)
                bad = mask & fin & (np.abs(va - vb) > 1e-7 * (1 + np.abs(va) + np.abs(vb)))
            if bad.any():
                ob.status = 'failed'; ob.backend = 'evaluation at a point of the path'
                ob.witness = self.sample(int(np.flatnonzero(bad)[0]))
                ob.detail += ' lhs=%g rhs=%g' % (va[np.flatnonzero(bad)[0]], vb[np.flatnonzero(bad)[0]])
                return
            if not is_t(goal) and goal:
                ob.status = 'discharged'; ob.backend = 'evaluation'; return
            r = self.prove_eq(st, a, b)
            if r:
                ob.status = 'discharged'; ob.backend = r; return
        else:
            if is_t(goal):
                with np.errstate(all='ignore'):
                    bad = mask & ~self.cmask(st, goal)
                    if kind_real(goal): bad = bad & self.robust(goal)
                if bad.any():
                    ob.status = 'failed'; ob.backend = 'evaluation at a point of the path'
                    ob.witness = self.sample(int(np.flatnonzero(bad)[0])); return
            elif mask.any():
                ob.status = 'failed'; ob.backend = 'evaluation at a point of the path'
                ob.witness = self.sample(int(np.flatnonzero(mask)[0])); return
        # 2. SMT
        if self.opts.get('nosmt') : ob.status = 'undecided'; ob.backend = 'none'; return
        ng = bnot(goal)
        fs = (smt.relevant(st.pc, ng) + [ng]) if is_t(ng) else list(st.pc)
        if ng is False: ob.status = 'discharged'; return
        tmo = self.opts.get('timeout', 10.0)
        if is_t(ng):
            if pair is None and smt.check(fs, 2.0)[0] == 'unsat': ob.status = 'discharged'; ob.backend = 'z3'; return
            if self.refute_deep(st, ng, 2.0): ob.status = 'discharged'; ob.backend = 'ring+z3'; return
        v, m, tr = smt.check(fs, tmo)
        if v == 'unsat': ob.status = 'discharged'; ob.backend = 'z3'; return
        if v == 'sat':
            ob.status = 'failed' ; ob.backend = 'z3'
            ob.witness = self.model_witness(m, tr)
            # function atoms are only axiomatised: a model may be spurious
            if any(s.op in ('sqrt', 'sin', 'cos', 'acos', 'atan2', 'exp', 'pow', 'log', 'tan', 'asin', 'atan', 'erf', 'sum', '/') for f in fs if is_t(f) for s in atoms([f])):
                ob.status = 'undecided'
            return
        v = smt.cvc5(fs, tmo)
        if v == 'unsat': ob.status = 'discharged'; ob.backend = 'cvc5'; return
        ob.status = 'undecided'; ob.backend = 'z3+cvc5'

    def robust(self, goal):
        """mask of samples where a real comparison is violated by a clear margin"""
        g = goal
        if g.op in ('<', '<='):
            va, vb = self.pool.ev(g.args[0]), self.pool.ev(g.args[1])
            with np.errstate(all='ignore'):
                return np.broadcast_to(np.asarray((va - vb) > 1e-7 * (1 + np.abs(va) + np.abs(vb))), (self.pool.n,))
        if g.op == '=':
            va, vb = self.pool.ev(g.args[0]), self.pool.ev(g.args[1])
            with np.errstate(all='ignore'):
                return np.broadcast_to(np.asarray(np.abs(va - vb) > 1e-7 * (1 + np.abs(va) + np.abs(vb))), (self.pool.n,))
        if g.op == 'and':
            r = np.zeros(self.pool.n, dtype=bool)
            for x in g.args: r = r | (~np.broadcast_to(np.asarray(self.pool.ev(x), dtype=bool), (self.pool.n,)) & self.robust(x))
            return r
        if g.op == 'or':
            r = np.ones(self.pool.n, dtype=bool)
            for x in g.args: r = r & self.robust(x) if is_t(x) else r
            return r
        return np.ones(self.pool.n, dtype=bool)

    def sample(self, i):
        w = {}
        for t, v in self.pool.val.items():
            a = np.broadcast_to(np.asarray(v, dtype=float), (self.pool.n,))
            w[t.args[0]] = float(a[i])
        return w

    def model_witness(self, m, tr):
        w = {}
        for t, z in tr.m.items():
            if t.op in ('rvar', 'ivar'):
                v = m.eval(z, model_completion=True)
                try:
                    if hasattr(v, 'as_fraction'): w[t.args[0]] = float(v.as_fraction())
                    elif hasattr(v, 'as_long'): w[t.args[0]] = v.as_long()
                    elif hasattr(v, 'approx'): w[t.args[0]] = float(v.approx(12).as_fraction())
                except Exception: pass
        return w

    def mkring(self, st, mask=None):
        return Ring(self.pool, st.mask if mask is None else mask, unit3=self.unit3,
                    prove_sign=lambda t, s: self.prove_sign(st, t, s), deadline=time.time() + self.opts.get('ring_timeout', 40))

    def prove_sign(self, st, t, s):
        """t > 0 (s=1; >= allowed when zero is excluded by definedness) or t < 0"""
        if not is_t(t): return t >= 0 if s > 0 else t <= 0
        g = rle(ZERO, t) if s > 0 else rle(t, ZERO)
        key = ('sg', tuple(x.id for x in st.pc), g)
        r = self.signcache.get(key)
        if r is None:
            r = self.unsat(st, bnot(g), 3.0)
            self.signcache[key] = r
        return r

    def prove_eq(self, st, a, b, depth=0):
        """equality of two real terms under the path condition; returns the back end or None"""
        if a is b: return 'simplifier'
        sides = [x for x in (a, b) if is_t(x)]
        c = None
        for s in atoms(sides):
            if s.op == 'ite' and s.sort in ('R', 'I'):
                c = s.args[0]; break
        if c is not None:
            if depth > 14: return None
            d = self.decide(st, c)
            back = None
            for val in ((True, False) if d is None else (d,)):
                st2 = State()
                st2.pc = list(st.pc); st2.mask = st.mask; st2.quiet = True
                try: self.assume(st2, c if val else bnot(c))
                except PathEnd: continue
                if d is None and not st2.mask.any() and self.unsat(st2, True if False else c if val else bnot(c)): continue
                m = self.cond_map(c, val)
                a2, b2 = subst(a, m), subst(b, m)
                # ites over the same condition
                a2, b2 = self.cut(a2, c, val), self.cut(b2, c, val)
                r = self.prove_eq(st2, a2, b2, depth + 1)
                if r is None: return None
                back = r
            return back or 'simplifier'
        try:
            em = equalities(st.pc)
            if em:
                a, b = subst(a, em), subst(b, em)
                if a is b: return 'simplifier'
                sides = [x for x in (a, b) if is_t(x)]
            R = self.mkring(st)
            R.prescan(sides)
            z = R.sub(R.nf(a), R.nf(b))
            if R.iszero(z):
                self.assumptions.update(R.assumed)
                return 'ring'
        except Limit as e:
            if self.opts.get('verbose'): print('   ring limit', e)
        except ZeroDivisionError:
            return None
        return None

    def cond_map(self, c, val):
        m = {c: val}
        n = bnot(c)
        if is_t(n): m[n] = not val
        return m

    def cut(self, t, c, val):
        return t

    # ---------------------------------------------------------------- running
    def start(self, fname, args=()):
        st = self.base.clone()
        st.mask = np.ones(self.pool.n, dtype=bool) if st.mask is None else st.mask
        f = self.m.func(fname)
        fr = Frame(f)
        for (t, nm, bv), a in zip(f.params, args): fr.regs[nm] = a
        st.frames.append(fr)
        return st

    def run_global_ctors(self):
        st = self.base
        st.mask = np.ones(self.pool.n, dtype=bool)
        if '@llvm.global_ctors' not in self.m.globals: return
        ext, t, init, const = self.m.global_info('@llvm.global_ctors')
        if init[0] != 'agg': return
        for et, v in init[2]:
            fn = v[2][1][1][1]
            s2 = st.clone()
            f = self.m.func(fn)
            s2.frames.append(Frame(f))
            s2.frames[-1].ret = ('top',)
            end = self.run(s2)
            if len(end) != 1: raise Unsupported('static initialiser %s forks' % fn)
            st = end[0]
            st.frames = []
            st.pc = []
        self.base = st

    def run(self, st0, stop=None):
        """run to completion of all paths from st0; returns the final states"""
        done = []
        work = [st0]
        while work:
            st = work.pop()
            try:
                r = self.run_path(st, work, stop)
                if r: done.append(st)
            except PathEnd as e:
                pass
            if self.failed_stop and self.opts.get('stop_on_fail', True) and not st.quiet: break
        return done

    def run_path(self, st, work, stop):
        while True:
            fr = st.frames[-1]
            blk = fr.fn.blocks[fr.blk]
            while fr.ip < len(blk):
                ins = blk[fr.ip]
                self.ninst += 1
                if self.ninst & 0x3ff == 0:
                    if time.time() > self.deadline: raise TimeoutError('time limit')
                    if self.ninst > self.maxinst: raise TimeoutError('instruction limit')
                r = self.step(st, fr, ins, work, stop)
                if r is None:
                    fr.ip += 1
                elif r == 'jump':
                    break
                elif r == 'call':
                    break
                elif r == 'done':
                    return True
                elif r == 'stop':
                    return True
            fr = st.frames[-1]

    def loops_of(self, fn):
        """natural loops: header -> set of blocks"""
        if fn.loops is not None: return fn.loops
        succ = {}
        for b in fn.order:
            s = []
            t = fn.blocks[b][-1]
            if t.op == 'jmp': s = [t.a]
            elif t.op == 'br': s = [t.a[1], t.a[2]]
            elif t.op == 'switch': s = [t.a[2]] + [c[1] for c in t.a[3]]
            elif t.op == 'call' and t.a[3]: s = [t.a[3][0], t.a[3][1]]
            succ[b] = s
            for k in fn.blocks[b][:-1]:
                if k.op == 'call' and k.a[3]: pass
        preds = {b: [] for b in fn.order}
        for b, s in succ.items():
            for x in s: preds[x].append(b)
        # dominators (simple iterative)
        idx = {b: i for i, b in enumerate(fn.order)}
        order = []
        seen = set()
        stack = [(fn.entry, iter(succ[fn.entry]))]
        seen.add(fn.entry)
        while stack:
            b, it = stack[-1]
            for x in it:
                if x not in seen:
                    seen.add(x); stack.append((x, iter(succ[x]))); break
            else:
                order.append(b); stack.pop()
        order.reverse()
        num = {b: i for i, b in enumerate(order)}
        idom = {fn.entry: fn.entry}
        ch = True
        while ch:
            ch = False
            for b in order[1:]:
                new = None
                for p in preds[b]:
                    if p in idom:
                        if new is None: new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while num[x] > num[y]: x = idom[x]
                                while num[y] > num[x]: y = idom[y]
                            new = x
                if new is not None and idom.get(b) != new: idom[b] = new; ch = True
        def dom(a, b):
            while True:
                if a == b: return True
                if b == fn.entry: return False
                b = idom[b]
        loops = {}
        for b in order:
            for h in succ[b]:
                if h in num and dom(h, b):
                    body = loops.setdefault(h, {h})
                    stk = [b]
                    while stk:
                        x = stk.pop()
                        if x in body: continue
                        body.add(x)
                        stk.extend(p for p in preds[x] if p in num)
        fn.loops = loops
        fn.preds = preds
        return loops

    def goto(self, st, fr, lab, stop):
        frm = fr.blk
        if stop is not None:
            r = stop(st, fr, frm, lab)
            if r: return r
        # loop bookkeeping: snapshot at entry to a loop header
        loops = fr.fn.loops
        if loops is None: loops = self.loops_of(fr.fn)
        if loops:
            if fr.loops:
                for h in [h for h in fr.loops if lab not in loops[h]]: del fr.loops[h]
            if lab in loops:
                if frm not in loops[lab]:
                    fr.loops[lab] = [None, 0, False]
                    snap = None
                    if not st.quiet or True:
                        snap = ('snap', frm, st.clone())
                    fr.loops[lab] = [snap, 0, False]
                else:
                    e = fr.loops.get(lab)
                    if e is not None: fr.loops[lab] = [e[0], e[1] + 1, e[2]]
        self.enter(st, fr, frm, lab)
        return 'jump'

    def enter(self, st, fr, frm, lab):
        fr.prev = frm; fr.blk = lab
        blk = fr.fn.blocks[lab]
        i = 0; vals = []
        while i < len(blk) and blk[i].op == 'phi':
            t, inc = blk[i].a
            vals.append((blk[i].res, self.val(st, fr, t, inc[frm])))
            i += 1
        for r, v in vals: fr.regs[r] = v
        fr.ip = i

    def branch(self, st, fr, c, tl, fl, work, stop):
        if c is UNDEF: 
            self.fresh_id += 1
            c = bvar('__undefbr%d' % self.fresh_id)
        if not is_t(c): return self.goto(st, fr, tl if c else fl, stop)
        d = self.fork(st, c)
        if d is not None:
            # remember the decided condition so that later queries are cheap
            self.assume(st, c if d else bnot(c))
            return self.goto(st, fr, tl if d else fl, stop)
        # undecided: is this the exit test of a loop?
        loops = self.loops_of(fr.fn)
        inl = [h for h in fr.loops if h in loops and fr.blk in loops[h]]
        if inl:
            inner = min(inl, key=lambda h: len(loops[h]))
            L = loops[inner]
            if (tl in L) != (fl in L):
                e = fr.loops[inner]
                if e[0] is not None and e[1] == 0 and not e[2]:
                    import loops as LP
                    new = LP.summarise(self, e[0], inner, st)
                    if new is not None:
                        self.loop_summaries += 1
                        for s in new: work.append(s)
                        raise PathEnd('loop replaced by its summary')
                    fr.loops[inner] = [None, e[1], True]
                # bounded unrolling of a loop with a symbolic bound
                if e[1] >= self.unroll and self.symbolic_bound(st, fr, c):
                    stay = tl if tl in L else fl
                    self.bounded_notes.add('loop in %s unrolled %d times' % (fr.fn.name[1:], self.unroll + 1))
                    self.assume(st, bnot(c) if stay == tl else c)
                    return self.goto(st, fr, fl if stay == tl else tl, stop)
        s2 = st.clone()
        f2 = s2.frames[-1]
        self.assume(s2, bnot(c))
        try:
            r2 = self.goto(s2, f2, fl, stop)
            if r2 == 'jump': work.append(s2)
            elif r2 == 'stop': self.stopped.append(s2)
        except PathEnd: pass
        self.assume(st, c)
        return self.goto(st, fr, tl, stop)

    def symbolic_bound(self, st, fr, c):
        return True

    def step(self, st, fr, ins, work, stop):
        op = ins.op; a = ins.a
        regs = fr.regs
        if op == 'bin':
            o, t, x, y, fl = a
            regs[ins.res] = self.binop(st, o, t, self.val(st, fr, t, x), self.val(st, fr, t, y), fl)
            return None
        if op == 'load':
            t, q = a
            regs[ins.res] = self.load(st, self.val(st, fr, 'ptr', q), t); return None
        if op == 'store':
            t, v, q = a
            self.store(st, self.val(st, fr, 'ptr', q), t, self.val(st, fr, t, v)); return None
        if op == 'gep':
            srct, ops = a
            regs[ins.res] = self.gep(srct, [(t, self.val(st, fr, t, v)) for t, v in ops]); return None
        if op == 'icmp':
            pred, t, x, y = a
            regs[ins.res] = self.icmp(st, pred, t, self.val(st, fr, t, x), self.val(st, fr, t, y)); return None
        if op == 'fcmp':
            pred, t, x, y = a
            regs[ins.res] = self.fcmp(st, pred, self.val(st, fr, t, x), self.val(st, fr, t, y)); return None
        if op == 'br':
            return self.branch(st, fr, self.val(st, fr, ('i', 1), a[0]), a[1], a[2], work, stop)
        if op == 'jmp':
            return self.goto(st, fr, a, stop)
        if op == 'call':
            return self.call(st, fr, ins, work, stop)
        if op == 'cast':
            o, t, v, t2 = a
            regs[ins.res] = self.cast(st, o, t, self.val(st, fr, t, v), t2); return None
        if op == 'fneg':
            v = self.val(st, fr, a[0], a[1])
            if v is UNDEF: v = self.fresh_undef(ZERO)
            regs[ins.res] = [rneg(x) for x in v] if isinstance(v, list) else v if v is NAN else rneg(v); return None
        if op == 'select':
            ct, c, t, x, y = a
            c = self.val(st, fr, ct, c); x = self.val(st, fr, t, x); y = self.val(st, fr, t, y)
            if isinstance(c, list):
                regs[ins.res] = [self.ite_val(k, p, q, None) for k, p, q in zip(c, x, y)]; return None
            if c is UNDEF: raise Unsupported('select on undef')
            if is_t(c):
                d = self.decide(st, c) if (isinstance(x, P) or isinstance(y, P) or self.opts.get('decide_select', True)) else None
                if d is not None: c = d
                elif isinstance(x, P) and isinstance(y, P) and x.o != y.o:
                    # fork
                    s2 = st.clone(); self.assume(s2, bnot(c)); s2.frames[-1].regs[ins.res] = y; s2.frames[-1].ip += 1
                    work.append(s2)
                    self.assume(st, c); regs[ins.res] = x; return None
            regs[ins.res] = self.ite_val(c, x, y, t); return None
        if op == 'ret':
            v = None if a is None else self.val(st, fr, a[0], a[1])
            return self.ret(st, fr, v, stop)
        if op == 'alloca':
            t, cnt = a
            n = self.val(st, fr, ('i', 64), cnt)
            o = self.new_obj(st, imul(self.ty.size(t), n), 'stack', fr.fn.name[1:40] + ins.res)
            fr.allocas.append(o.id)
            regs[ins.res] = P(o.id, 0); return None
        if op == 'switch':
            t, v, dflt, cases = a
            x = self.val(st, fr, t, v)
            if not is_t(x):
                if x is UNDEF: raise Unsupported('switch on undef')
                for c, lab in cases:
                    if tosigned(c, t[1]) == x: return self.goto(st, fr, lab, stop)
                return self.goto(st, fr, dflt, stop)
            taken = []
            for c, lab in cases: taken.append((icmp_eq(x, tosigned(c, t[1])), lab))
            nd = True
            for c, lab in taken: nd = band(nd, bnot(c))
            taken.append((nd, dflt))
            live = [(c, lab) for c, lab in taken if self.maybe(st, c)]
            if not live: raise PathEnd('infeasible')
            for c, lab in live[1:]:
                s2 = st.clone()
                self.assume(s2, c)
                try:
                    r2 = self.goto(s2, s2.frames[-1], lab, stop)
                    if r2 == 'jump': work.append(s2)
                    elif r2 == 'stop': self.stopped.append(s2)
                except PathEnd: pass
            self.assume(st, live[0][0])
            return self.goto(st, fr, live[0][1], stop)
        if op == 'extractvalue':
            t, v, idx = a
            x = self.val(st, fr, t, v)
            for i in idx: x = x[i]
            regs[ins.res] = x; return None
        if op == 'insertvalue':
            t, v, v2, idx = a
            x = self.val(st, fr, t, v)
            if x is UNDEF: x = self.zero_agg(t, UNDEF)
            import copy
            x = copy.copy(x); y = x
            for i in idx[:-1]: y[i] = copy.copy(y[i]); y = y[i]
            y[idx[-1]] = self.val(st, fr, self.elt(t, idx), v2)
            regs[ins.res] = x; return None
        if op == 'extractelement':
            t, v, i = a
            x = self.val(st, fr, t, v)
            regs[ins.res] = UNDEF if x is UNDEF else x[self.val(st, fr, ('i', 64), i)]; return None
        if op == 'insertelement':
            t, v, e, i = a
            x = self.val(st, fr, t, v)
            x = [UNDEF] * self.ty.res(t)[1] if x is UNDEF else list(x)
            x[self.val(st, fr, ('i', 64), i)] = self.val(st, fr, self.ty.res(t)[2], e)
            regs[ins.res] = x; return None
        if op == 'shufflevector':
            t, x, y, t3, m = a
            x = self.val(st, fr, t, x); y = self.val(st, fr, t, y)
            n = self.ty.res(t)[1]
            if x is UNDEF: x = [UNDEF] * n
            if y is UNDEF: y = [UNDEF] * n
            mm = self.const(st, t3, m)
            if mm is UNDEF: mm = [UNDEF] * t3[1]
            z = x + y
            regs[ins.res] = [UNDEF if i is UNDEF else z[i] for i in mm]; return None
        if op == 'unreachable':
            self.fail_path(st, 'unreachable code reached in ' + fr.fn.name[1:])
        if op == 'freeze':
            v = self.val(st, fr, a[0], a[1])
            regs[ins.res] = v; return None
        if op == 'atomicrmw':
            kind, q, t, v = a
            p = self.val(st, fr, 'ptr', q); x = self.load(st, p, t); y = self.val(st, fr, t, v)
            self.store(st, p, t, self.binop(st, kind, t, x, y, ()) if kind in ('add', 'sub', 'and', 'or', 'xor') else y if kind == 'xchg' else self._unsup('rmw'))
            regs[ins.res] = x; return None
        if op == 'resume':
            x = self.val(st, fr, a[0], a[1]); e = st.ghost.get('exc', {}).get(x[0].o)
            if e is None: raise Unsupported('exception path')
            self.unwind(st, *e); return 'jump'
        if op == 'landingpad':
            raise Unsupported('exception path')
        raise Unsupported('instruction %s: %s' % (op, a))

    def elt(self, t, idx):
        t = self.ty.res(t)
        for i in idx:
            t = self.ty.res(t)
            t = t[1][i] if t[0] == 'st' else t[2]
        return t

    def ret(self, st, fr, v, stop):
        for oid in fr.allocas: st.mem.pop(oid, None)
        st.frames.pop()
        if not st.frames:
            st.ghost['ret'] = v
            return 'done'
        if fr.ret and fr.ret[0] == 'top':
            st.ghost['ret'] = v
            return 'done'
        caller = st.frames[-1]
        res, norm = fr.ret
        if res is not None: caller.regs[res] = v
        if norm is not None:
            return self.goto(st, caller, norm, stop)
        caller.ip += 1
        return 'jump'

    # ---------------------------------------------------------------- exceptions
    def pad(self, fr):
        """clauses of the landing pad of the call a frame is in: [(typeinfo or 'null' or 'cleanup')]"""
        ins = fr.fn.blocks[fr.blk][fr.ip]
        if ins.op != 'call' or not ins.a[3]: return None, ()
        lab = ins.a[3][1]
        for k in fr.fn.blocks[lab]:
            if k.op == 'landingpad': return lab, re.findall(r'\bcatch ptr (null|@"[^"]*"|@[-\w.$]+)|\b(cleanup|filter)\b', k.a)
            if k.op != 'phi': break
        return None, ()
    def own_handler(self, fr):
        """is a handler of any type one of the code, neither one of the library nor the end of a noexcept function"""
        if re.match(r'@_Z(NK?)?(St|9__gnu_cxx|5Eigen)', fr.fn.name): return False
        return not any(k.op == 'call' and k.a[1][0] == 'g' and ('terminate' in k.a[1][1]) for k in fr.fn.blocks[self.pad(fr)[0]])
    def throw(self, st, obj, ti, msg):
        """an exception is thrown: raises Thrown if a handler of its type is on the stack, otherwise the program ends"""
        if not st.quiet and st.loopctx is None:
            if ti in BASES and isinstance(obj, P): # the exception was built by the library: its virtual functions
                w = self.new_obj(st, 1, 'func', 'what'); w.fn = '@_ZNKSt9exception4whatEv'; t = self.new_obj(st, 24, 'heap', 'virtual table')
                self.store(st, P(t.id, 16), 'ptr', P(w.id, 0)); self.store(st, obj, 'ptr', P(t.id, 0))
            for fr in reversed(st.frames):
                for c, k in self.pad(fr)[1]:
                    if c and (c == ti or c in BASES.get(ti, ()) or c == 'null' and self.own_handler(fr)): raise Thrown(obj, ti, msg)
                    if k == 'filter': raise Unsupported('exception specification')
                if fr.ret and fr.ret[0] == 'top': break
        if st.ghost.get('allow_abort'): raise PathEnd(msg)
        self.fail_path(st, msg)
    def typeid(self, name): return self.__dict__.setdefault('tids', {}).setdefault(name, len(self.__dict__.get('tids', {})) + 1)
    def unwind(self, st, obj, ti, msg):
        self.called.add('exceptions')
        while True:
            fr = st.frames[-1]; lab, clauses = self.pad(fr); sel = None
            for c, k in clauses:
                if c and (c == 'null' or c == ti or c in BASES.get(ti, ())): sel = self.typeid(c); break
                if k == 'cleanup': sel = 0
            if sel is not None:
                exc = dict(st.ghost.get('exc', {})); exc[obj.o] = (obj, ti, msg); st.ghost['exc'] = exc
                self.goto(st, fr, lab, None); lp = fr.fn.blocks[fr.blk][fr.ip]
                if lp.res is not None: fr.regs[lp.res] = [obj, sel]
                fr.ip += 1; return
            if fr.ret and fr.ret[0] == 'top': raise Unsupported('exception out of a contract')
            for oid in fr.allocas: st.mem.pop(oid, None)
            st.frames.pop()

    def call(self, st, fr, ins, work, stop):
        rt, callee, args, inv = ins.a
        if callee[0] == 'g':
            name = self.m.aliases.get(callee[1], callee[1])
        else:
            if callee[0] == 'r': p = fr.regs[callee[1]]
            else: p = self.const(st, 'ptr', callee)
            if not isinstance(p, P) : raise Unsupported('indirect call to %r' % (p,))
            if p.o == 0: self.fail_path(st, 'call through null pointer')
            o = st.mem.get(p.o)
            if o is None and p.o in self.objnames:
                self.gobj(st, self.objnames[p.o]); o = st.mem[p.o]
            if o is None or o.kind != 'func': raise Unsupported('indirect call to non-function %s' % (o and o.name))
            name = o.fn
        h = self.intr.get(name)
        if h is None and name.startswith('@llvm.'):
            h = self.intr.get('@llvm.' + name.split('.')[1])
            if h is None: h = self.intr.get('.'.join(name.split('.')[:3]))
            if h is None: raise Unsupported('intrinsic ' + name)
        if h is not None:
            av = [self.val(st, fr, t, v) if t != 'metadata' else None for t, v, b in args]
            st.ghost['_ins'] = ins
            try: r = h(st, av, ins)
            except Thrown as e:
                if stop is not None: raise Unsupported('exception in a summarised loop')
                self.unwind(st, e.obj, e.ti, e.msg); return 'jump'
            if r == '__jump__': return 'jump'
            if ins.res is not None: fr.regs[ins.res] = r
            if inv: return self.goto(st, fr, inv[0], stop)
            return None
        f = self.m.func(name)
        if f is None:
            h = self.intr_generic(name)
            if h is None: raise Unsupported('external function %s' % name[1:])
            av = [self.val(st, fr, t, v) for t, v, b in args]
            r = h(st, av, ins)
            if ins.res is not None: fr.regs[ins.res] = r
            if inv: return self.goto(st, fr, inv[0], stop)
            return None
        if len(st.frames) > 200: raise Unsupported('recursion depth')
        self.called.add(name)
        nf = Frame(f)
        for (t, nm, bv), (t2, v, b2) in zip(f.params, args):
            x = self.val(st, fr, t2, v)
            if bv is not None or b2 is not None:
                bt = bv or b2
                o = self.new_obj(st, self.ty.size(bt), 'stack', 'byval')
                nf.allocas.append(o.id)
                self.memcpy(st, P(o.id, 0), x, self.ty.size(bt))
                x = P(o.id, 0)
            nf.regs[nm] = x
        nf.ret = (ins.res, inv[0] if inv else None)
        st.frames.append(nf)
        return 'call'

    def intr_generic(self, name):
        import intrinsics
        return intrinsics.generic(self, name)

    def cstr(self, st, p, maxn=100000):
        out = bytearray()
        o = st.mem[p.o] if p.o in st.mem else st.mem[self.gobj(st, self.objnames[p.o])]
        off = p.off
        if is_t(off): raise Unsupported('symbolic string pointer')
        while True:
            c = self.load(st, P(p.o, off), ('i', 8))
            if is_t(c): raise Unsupported('symbolic character')
            if c is UNDEF: raise Unsupported('undef character')
            if c == 0: break
            out.append(c & 255); off += 1
            if len(out) > maxn: raise Unsupported('long string')
        return bytes(out)

def kind_real(g):
    """does the comparison involve reals"""
    if not is_t(g): return False
    if g.op in ('<', '<='): return True
    if g.op == '=': return any(isinstance(x, Fraction) or is_t(x) and x.sort == 'R' for x in g.args)
    return g.op in ('not', 'and', 'or') and any(kind_real(x) for x in g.args)
