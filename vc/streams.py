"""Contract assumed for C++ iostreams: a ghost stream model.

A stream is a sequence of characters with a read position and a state.  The
text of a symbolic number is one opaque digit-like character that remembers the
number and the precision it was printed with: reading it back gives the number
itself when it was printed with at least 17 significant digits, and an unknown
function (digitsP) of it otherwise.  Files live in a ghost file system."""
import re
from fractions import Fraction
import numpy as np
from term import *
from exec_ import *

STD = ('@_ZSt4cout', '@_ZSt4cerr', '@_ZSt4clog')
BAD, EOF, FAIL = 1, 2, 4
WS = (32, 9, 10, 11, 12, 13)
SS = '_ZNSt7__cxx1118basic_stringstreamIcSt11char_traitsIcESaIcEE'
IS = '_ZNSt7__cxx1119basic_istringstreamIcSt11char_traitsIcESaIcEE'
OS = '_ZNSt7__cxx1119basic_ostringstreamIcSt11char_traitsIcESaIcEE'
IF = '_ZNSt14basic_ifstreamIcSt11char_traitsIcEE'
OF = '_ZNSt14basic_ofstreamIcSt11char_traitsIcEE'
FF = '_ZNSt13basic_fstreamIcSt11char_traitsIcEE'
IOS = '_ZNSt9basic_iosIcSt11char_traitsIcEE'
IOSK = '_ZNKSt9basic_iosIcSt11char_traitsIcEE'
STR = 'RKNSt7__cxx1112basic_stringIcS1_SaIcEEE'
# kind -> (offset of the virtual base ios, secondary vptr offsets)
LAY = {'ss': (128, (0, 16)), 'is': (120, (0,)), 'os': (112, (0,)), 'if': (256, (0,)), 'of': (248, (0,)), 'ff': (264, (0, 16)), 'std': (8, (0,))}

class S:
    __slots__ = ('buf', 'pos', 'state', 'gcount', 'exc', 'file', 'out', 'ios', 'sci')
    def __init__(self): self.buf = (); self.pos = 0; self.state = 0; self.gcount = 0; self.exc = 0; self.file = None; self.out = False; self.ios = 8; self.sci = False
    def copy(self):
        s = S.__new__(S)
        for k in S.__slots__: setattr(s, k, getattr(self, k))
        return s

def isstd(E, st, p): return isinstance(p, P) and E.objnames.get(p.o) in STD

def init_std(E, st, o):
    """cout and cerr: memory layout only; what is printed there is not observed"""
    v = E.new_obj(st, 64, 'global', 'vtable of a stream', 'zero')
    v.cells[8] = (8, 8, ('i', 64)); v.cells[0] = (8, 8, ('i', 64))
    o.base = 'zero'; o.kind = 'global'
    o.cells[0] = (8, P(v.id, 32), 'ptr'); v.cells[32 - 24] = (8, 8, ('i', 64))
    o.cells[16] = (8, 6, ('i', 64))

def rounded(v, p):
    """the number read back from the text of v printed with p significant digits"""
    if p >= 17: return v
    if not is_t(v): return Fraction('%.*g' % (p, float(v)))
    return mk('uf', ('digits%d' % p, v), 'R')

class Blk:
    """bytes of a frozen object (the numbers of an array, written at once)"""
    __slots__ = ('o', 'lo', 'n')
    def __init__(self, o, lo, n): self.o = o; self.lo = lo; self.n = n
class Rope:
    """the content of a stream that holds large blocks: parts are tuples of characters or blocks"""
    __slots__ = ('parts', 'n', 'fetch')
    def __init__(self, parts, fetch):
        self.parts = tuple(p for p in parts if (p.n if isinstance(p, Blk) else len(p))); self.n = sum(p.n if isinstance(p, Blk) else len(p) for p in self.parts); self.fetch = fetch
    def __len__(self): return self.n
    def __add__(self, t): return Rope(self.parts + (t.parts if isinstance(t, Rope) else (tuple(t),)), self.fetch)
    def __radd__(self, t): return Rope((tuple(t),) + self.parts, self.fetch)
    def __getitem__(self, i):
        if isinstance(i, slice):
            b, e, _ = i.indices(self.n); out = []; at = 0
            for p in self.parts:
                m = p.n if isinstance(p, Blk) else len(p); lo = max(b, at) - at; hi = min(e, at + m) - at
                if lo < hi: out.append(Blk(p.o, p.lo + lo, hi - lo) if isinstance(p, Blk) else p[lo:hi])
                at += m
            if all(not isinstance(p, Blk) for p in out): return tuple(c for p in out for c in p)
            return Rope(out, self.fetch)
        for p in self.parts:
            m = p.n if isinstance(p, Blk) else len(p)
            if i < m: return self.fetch(p.o, p.lo + i) if isinstance(p, Blk) else p[i]
            i -= m
        raise IndexError(i)
    def __iter__(self): raise Unsupported('characters of a large block')

def register(E, T, reg):
    E.tokens = getattr(E, 'tokens', {})
    def recs(st): return st.ghost.setdefault('streams', {})
    def get(st, p):
        if p is UNDEF or not isinstance(p, P): raise Unsupported('stream pointer')
        r = recs(st).get(p.o)
        if r is None: raise Unsupported('unknown stream')
        if st.loopctx is not None: raise Unsupported('stream in a summarised loop')
        return r
    def mod(st, p):
        r = get(st, p).copy(); recs(st)[p.o] = r; return r
    def create(st, p, kind):
        r = S(); ios, vps = LAY[kind]; r.ios = ios
        if is_t(p.off): raise Unsupported('stream at a symbolic address')
        if any(True for k in recs(st) if k == p.o): raise Unsupported('two streams in one object')
        r.ios = p.off + ios
        for off in vps:
            v = E.new_obj(st, 64, 'global', 'vtable of a stream', 'zero')
            v.cells[8] = (8, ios - off, ('i', 64))
            E.store(st, P(p.o, p.off + off), 'ptr', P(v.id, 32))
        v = E.new_obj(st, 64, 'global', 'vtable of a stream', 'zero')
        E.store(st, P(p.o, p.off + ios), 'ptr', P(v.id, 32))
        E.store(st, P(p.o, p.off + ios + 8), ('i', 64), 6)
        E.store(st, P(p.o, p.off + ios + 16), ('i', 64), 0)
        E.store(st, P(p.o, p.off + ios + 24), ('i', 32), 0x1002)
        recs(st)[p.o] = r
        return r
    def die(st, msg):
        if st.ghost.get('allow_abort'): raise PathEnd(msg)
        E.fail_path(st, msg)
    def setstate(st, r, bits):
        r.state |= bits
        if r.state & r.exc: E.throw(st, P(E.new_obj(st, 64, 'heap', 'exception').id, 0), '@_ZTINSt8ios_base7failureB5cxx11E', 'stream exception')
    # ---- strings in memory
    def sload(st, p):
        d = E.load(st, p, 'ptr'); n = E.load(st, P(p.o, iadd(p.off, 8)), ('i', 64))
        if is_t(n): raise Unsupported('string of symbolic length')
        return chars(st, d, n)
    def block(st, d, n):
        """n characters from d on: a copy of the numbers, as one part of a stream"""
        o = st.mem.get(d.o)
        if is_t(n) or n % 8 or o is None or (n <= 4096 and o.log is None and not is_t(d.off)): return chars(st, d, n)
        f = E.new_obj(st, n, 'heap', 'file content'); E.memcpy_sym(st, P(f.id, 0), d, n)
        def fetch(o, k): raise Unsupported('characters of a large block')
        return Rope((Blk(f.id, 0, n),), fetch)
    def put(st, d, bs):
        if not isinstance(bs, Rope): return putchars(st, d, bs)
        at = 0
        for p in bs.parts:
            q = P(d.o, iadd(d.off, at))
            if isinstance(p, Blk):
                if p.lo % 8: raise Unsupported('part of a number of a large block')
                if p.n // 8: E.memcpy_sym(st, q, P(p.o, p.lo), p.n - p.n % 8)
                if p.n % 8: raise Unsupported('part of a number of a large block')
                at += p.n
            else: putchars(st, q, p); at += len(p)
    def chars(st, d, n):
        if is_t(n): raise Unsupported('symbolic number of characters')
        o = E.check_access(st, d, max(n, 1), 'read')
        if is_t(d.off): raise Unsupported('characters at a symbolic address')
        if o.log is not None: raise Unsupported('characters in a logged object')
        out = []
        for i in range(n):
            b = E.get_byte(o, d.off + i)
            if b is None: b = 0 if o.base == 'zero' else UNDEF
            if isinstance(b, tuple) and b[1] == 1: b = b[0]
            out.append(b)
        return tuple(out)
    def putchars(st, d, bs):
        """store raw bytes; the pieces of one value become that value again"""
        if not bs: return
        E.check_access(st, d, len(bs), 'write')
        o = st.wobj(d.o); i = 0
        if o.log is not None or is_t(d.off): raise Unsupported('characters to a logged object')
        while i < len(bs):
            b = bs[i]
            if isinstance(b, tuple):
                v, w, k, ty = b
                if k == 0 and i + w <= len(bs) and all(isinstance(bs[i + j], tuple) and bs[i + j][0] is v and bs[i + j][2] == j for j in range(w)):
                    E.store_cells(o, d.off + i, w, v, ty); i += w; continue
                E.store_cells(o, d.off + i, 1, ('piece', v, w, k, ty), ('i', 8)); i += 1; continue
            if isinstance(b, int) and i + 8 <= len(bs) and all(isinstance(x, int) for x in bs[i:i + 8]) and (d.off + i) % 8 == 0:
                E.store_cells(o, d.off + i, 8, int.from_bytes(bytes(x & 255 for x in bs[i:i + 8]), 'little', signed=True), ('i', 64)); i += 8; continue
            E.store_cells(o, d.off + i, 1, tosigned(b, 8) if isinstance(b, int) else b, ('i', 8)); i += 1
    def snew(st, p, cs):
        """construct a std::string at p"""
        n = len(cs)
        if n > 15:
            h = E.new_obj(st, n + 1, 'heap', 'string'); d = P(h.id, 0)
            E.store(st, P(p.o, p.off + 16), ('i', 64), n)
        else: d = P(p.o, p.off + 16)
        E.store(st, p, 'ptr', d); E.store(st, P(p.o, p.off + 8), ('i', 64), n)
        bytewise(st, d, cs + (0,))
    def bytewise(st, d, cs):
        if any(isinstance(c, tuple) for c in cs): return putchars(st, d, cs)
        for i, c in enumerate(cs): E.store(st, P(d.o, d.off + i), ('i', 8), tosigned(c, 8) if isinstance(c, int) else c)
    def sassign(st, p, cs):
        d = E.load(st, p, 'ptr'); local = d.o == p.o and d.off == p.off + 16
        cap = 15 if local else E.load(st, P(p.o, p.off + 16), ('i', 64))
        if len(cs) > cap:
            if not local:
                o = st.wobj(d.o); o.freed = True; o.cells = {}
            return snew(st, p, cs)
        E.store(st, P(p.o, p.off + 8), ('i', 64), len(cs)); bytewise(st, d, cs + (0,))
    # ---- output
    def tok(st, kind, v, p):
        E.fresh_id += 1
        t = ivar('$tok%d' % E.fresh_id)
        E.tokens[t] = (kind, v, p)
        E.pool.set(t, np.full(E.pool.n, 48.0))
        st.pc.append(icmp_le(48, t)); st.pc.append(icmp_le(t, 57))
        return t
    def number(st, r, p, v):
        if v is UNDEF: v = E.fresh_undef(ZERO)
        prec = E.load(st, P(p.o, r.ios + 8), ('i', 64))
        if is_t(prec): raise Unsupported('symbolic precision')
        fl = E.load(st, P(p.o, r.ios + 24), ('i', 32))
        if fl & 0x4 : raise Unsupported('fixed format')
        sci = r.sci or (fl & 0x100)
        digits = prec + 1 if sci else max(prec, 1)
        E.assumptions.add('the text of a number printed with at least 17 significant digits reads back as that number')
        if not is_t(v):
            t = ('%.*e' % (prec, float(v))) if sci else ('%.*g' % (digits, float(v)))
            if digits < 17 or Fraction(t) == v: return tuple(t.encode())
        return (tok(st, 'd', v, digits),)
    def integer(st, v):
        if v is UNDEF: raise Unsupported('printing an uninitialised integer')
        if isinstance(v, bool): v = int(v)
        if is_t(v) and v.sort == 'B': v = ite(v, 1, 0, 'I')
        return tuple(str(v).encode()) if not is_t(v) else (tok(st, 'i', v, 99),)
    def emit(st, p, f):
        if isstd(E, st, p): return p
        r = mod(st, p)
        if r.state: setstate(st, r, BAD if False else 0); return p
        if not r.out: raise Unsupported('output to an input stream')
        bs = f(st, r)
        w = E.load(st, P(p.o, r.ios + 16), ('i', 64))
        if w: raise Unsupported('field width')
        r.buf = r.buf + (bs if isinstance(bs, Rope) else tuple(bs))
        if r.file is not None: files(st)[r.file] = r.buf
        return p
    def files(st): return st.ghost.setdefault('files', {})
    def cs(st, p): return tuple(E.cstr2(st, p))
    E.cstr2 = lambda st, p: cstr2(st, p)
    def cstr2(st, p):
        out = []; o = E.check_access(st, p, 1, 'read'); off = p.off
        if is_t(off): raise Unsupported('symbolic string pointer')
        while True:
            c = E.load(st, P(p.o, off), ('i', 8))
            if c is UNDEF: raise Unsupported('undef character')
            if not is_t(c) and c == 0: return out
            if is_t(c) and c not in E.tokens and E.decide(st, icmp_eq(c, 0)) is not False: raise Unsupported('symbolic character')
            out.append(c if is_t(c) else c & 255); off += 1
    def o1(f): return lambda st, a, ins: emit(st, a[0], lambda st, r: f(st, r, a))
    num = o1(lambda st, r, a: number(st, r, a[0], a[1]))
    def itg(n, unsigned):
        def g(st, r, a):
            v = a[1]
            if v is UNDEF: raise Unsupported('printing an uninitialised integer')
            return integer(st, E.unsigned(st, v, n) if unsigned and not isinstance(v, bool) and not (is_t(v) and v.sort == 'B') else v)
        return o1(g)
    for n in ('_ZNSo9_M_insertIdEERSoT_', '_ZNSolsEd', '_ZNSolsEf'): T['@' + n] = num
    for n in ('_ZNSolsEi', '_ZNSolsEl', '_ZNSolsEs', '_ZNSo9_M_insertIlEERSoT_', '_ZNSo9_M_insertIbEERSoT_', '_ZNSolsEb', '_ZNSolsEx'): T['@' + n] = itg(64, False)
    T['@_ZNSolsEj'] = itg(32, True); T['@_ZNSolsEm'] = T['@_ZNSolsEy'] = T['@_ZNSo9_M_insertImEERSoT_'] = itg(64, True); T['@_ZNSolsEt'] = itg(16, True)
    T['@_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc'] = o1(lambda st, r, a: cs(st, a[1]))
    ch = lambda c: (c if is_t(c) else c & 255,)
    for n in ('_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_c', '_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_h', '_ZNSo3putEc'): T['@' + n] = o1(lambda st, r, a: ch(a[1]))
    for n in ('_ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l', '_ZNSo5writeEPKcl'): T['@' + n] = o1(lambda st, r, a: block(st, a[1], a[2]))
    T['@_ZStlsIcSt11char_traitsIcESaIcEERSt13basic_ostreamIT_T0_ES7_RKNSt7__cxx1112basic_stringIS4_S5_T1_EE'] = o1(lambda st, r, a: sload(st, a[1]))
    # a device that is full takes characters until they have to leave the buffer
    FULL = tuple(b'/dev/full')
    def absent(name): return name[:6] == tuple(b'nodir/')
    def over(st, name, n):
        """does a file of n characters have more than its device takes (vc_room, other than /dev/full)"""
        if name == FULL: return n > 0
        r = st.ghost.get('room', -1); return 0 <= r < n
    @reg('vc_room')
    def vc_room(st, a, ins): st.ghost['room'] = a[0]
    @reg('vc_lost')
    def vc_lost(st, a, ins):
        name = tuple(bytes(E.cstr(st, a[0]))); return int(over(st, name, len(files(st).get(name, ()))))
    def flush(st, a, ins):
        if not isstd(E, st, a[0]):
            r = mod(st, a[0])
            if r.file is not None and r.out and over(st, r.file, len(r.buf)) and not r.state: setstate(st, r, BAD)
        return a[0]
    nl_ = o1(lambda st, r, a: (10,))
    def nl(st, a, ins): nl_(st, a, ins); return flush(st, a, ins)
    T['@_ZSt4endlIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_'] = nl
    for n in ('_ZSt5flushIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_', '_ZNSo5flushEv'): T['@' + n] = flush
    T['@_ZNSolsEPKv'] = o1(lambda st, r, a: E._unsup('printing a pointer'))
    def manip(st, a, ins):
        f = E.objnames.get(a[1].o, '')
        h = T.get(f)
        if h is not None: return h(st, [a[0]], ins)
        if isstd(E, st, a[0]): return a[0]
        if 'scientific' in f: mod(st, a[0]).sci = True; return a[0]
        if 'defaultfloat' in f: mod(st, a[0]).sci = False; return a[0]
        raise Unsupported('stream manipulator ' + f)
    for n in ('_ZNSolsEPFRSoS_E', '_ZNSolsEPFRSt8ios_baseS0_E', '_ZNSolsEPFRSt9basic_iosIcSt11char_traitsIcEES3_E', '_ZNSirsEPFRSiS_E', '_ZNSirsEPFRSt8ios_baseS0_E'): T['@' + n] = manip
    def setprec(st, a, ins):
        if isstd(E, st, a[0]): return a[0]
        r = get(st, a[0]); E.store(st, P(a[0].o, r.ios + 8), ('i', 64), a[1]); return a[0]
    for d in ('o', 'i'):
        T['@_ZSt%sIcSt11char_traitsIcEERSt13basic_%sstreamIT_T0_ES6_St13_Setprecision' % ('ls' if d == 'o' else 'rs', d)] = setprec
    T['@_ZStlsIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_St5_Setw'] = lambda st, a, ins: a[0] if isstd(E, st, a[0]) else E._unsup('setw')
    @reg('_ZNSt8ios_base9precisionEl')
    def prec(st, a, ins):
        r = E.load(st, P(a[0].o, iadd(a[0].off, 8)), ('i', 64)); E.store(st, P(a[0].o, iadd(a[0].off, 8)), ('i', 64), a[1]); return r
    @reg('_ZNKSt8ios_base9precisionEv')
    def precg(st, a, ins): return E.load(st, P(a[0].o, iadd(a[0].off, 8)), ('i', 64))
    @reg('_ZNSt8ios_base4InitC1Ev', '_ZNSt8ios_base4InitD1Ev', '_ZNSt6localeC1Ev', '_ZNSt6localeD1Ev')
    def init(st, a, ins): return None
    # ---- input
    def oneof(st, c, ks):
        cond = False; i = 0
        while i < len(ks):
            j = i
            while j + 1 < len(ks) and ks[j + 1] == ks[j] + 1: j += 1
            cond = bor(cond, band(icmp_le(ks[i], c), icmp_le(c, ks[j]))); i = j + 1
        return cond if isinstance(cond, bool) else E.decide(st, cond)
    E.oneof = oneof
    def iscls(st, c, pred):
        if isinstance(c, int): return pred(c)
        if is_t(c):
            if c in E.tokens: return pred(48)
            d = oneof(st, c, [k for k in range(-128, 128) if pred(k & 255)])
            if d is not None: return d
            raise Unsupported('symbolic character in a stream')
        if c is UNDEF: raise Unsupported('uninitialised character in a stream')
        raise Unsupported('binary data read as text')
    def ws(st, c): return iscls(st, c, lambda x: x in WS)
    def sentry(st, r, skip=True):
        r.gcount = 0 if not skip else r.gcount
        if r.state: setstate(st, r, FAIL); return False
        if skip:
            while r.pos < len(r.buf) and ws(st, r.buf[r.pos]): r.pos += 1
            if r.pos >= len(r.buf): setstate(st, r, EOF | FAIL); return False
        return True
    def rd_double(st, r):
        c = r.buf[r.pos]
        if is_t(c) and c in E.tokens:
            k, v, p = E.tokens[c]; r.pos += 1
            if r.pos < len(r.buf):
                n = r.buf[r.pos]
                if iscls(st, n, lambda x: chr(x) in '0123456789+-.eE'): raise Unsupported('text of two numbers run together')
            else: r.state |= EOF
            return (i2r(v) if k == 'i' else rounded(v, p)), True
        t = ''; mant = False
        while r.pos < len(r.buf):
            n = r.buf[r.pos]
            if not iscls(st, n, lambda x: True): pass
            if is_t(n): raise Unsupported('text of two numbers run together')
            x = chr(n)
            if x in '+-' and (t == '' or t[-1] in 'eE'): pass
            elif x.isdigit() and n < 128: mant = True
            elif x == '.' and '.' not in t and 'e' not in t.lower(): pass
            elif x in 'eE' and mant and 'e' not in t.lower(): pass
            else: break
            t += x; r.pos += 1
        if r.pos >= len(r.buf): r.state |= EOF
        try: return Fraction(t), True
        except (ValueError, ZeroDivisionError): return ZERO, False
    def rd_int(st, r):
        c = r.buf[r.pos]
        if is_t(c) and c in E.tokens:
            k, v, p = E.tokens[c]
            if k != 'i': raise Unsupported('reading a real as an integer')
            r.pos += 1
            if r.pos >= len(r.buf): r.state |= EOF
            return v, True
        t = ''
        while r.pos < len(r.buf):
            n = r.buf[r.pos]; iscls(st, n, lambda x: True)
            if is_t(n): raise Unsupported('text of two numbers run together')
            x = chr(n)
            if (x in '+-' and t == '') or (x.isdigit() and n < 128): t += x; r.pos += 1
            else: break
        if r.pos >= len(r.buf): r.state |= EOF
        try: return int(t), True
        except ValueError: return 0, False
    def extract(rdr, ty, lo=None, hi=None):
        def h(st, a, ins):
            r = mod(st, a[0])
            if not sentry(st, r): return a[0]
            v, ok = rdr(st, r)
            if lo is not None and not is_t(v):
                if v < lo or v > hi: v = lo if v < lo else hi; ok = False
                v = tosigned(v, ty[1])
            E.store(st, a[1], ty, v)
            setstate(st, r, 0 if ok else FAIL)
            return a[0]
        return h
    for n, ty in (('d', ('f', 64)), ('f', ('f', 32))): T['@_ZNSirsER' + n] = extract(rd_double, ty)
    for n, b, s in (('i', 32, 1), ('l', 64, 1), ('j', 32, 0), ('m', 64, 0), ('s', 16, 1), ('t', 16, 0)):
        T['@_ZNSirsER' + n] = extract(rd_int, ('i', b), -(1 << (b - 1)) if s else 0, (1 << (b - 1)) - 1 if s else (1 << b) - 1)
    T['@_ZNSirsERb'] = extract(rd_int, ('i', 8), 0, 1)
    def rd_word(st, a, ins):
        r = mod(st, a[0])
        if not sentry(st, r): return a[0]
        b = r.pos
        while r.pos < len(r.buf) and not ws(st, r.buf[r.pos]): r.pos += 1
        sassign(st, a[1], r.buf[b:r.pos])
        setstate(st, r, EOF if r.pos >= len(r.buf) else 0)
        return a[0]
    T['@_ZStrsIcSt11char_traitsIcESaIcEERSt13basic_istreamIT_T0_ES7_RNSt7__cxx1112basic_stringIS4_S5_T1_EE'] = rd_word
    def rd_char(st, a, ins):
        r = mod(st, a[0])
        if not sentry(st, r): return a[0]
        bytewise(st, a[1], (r.buf[r.pos],)); r.pos += 1
        return a[0]
    T['@_ZStrsIcSt11char_traitsIcEERSt13basic_istreamIT_T0_ES6_RS3_'] = rd_char
    def line(st, r, delim):
        b = r.pos
        while r.pos < len(r.buf) and not iscls(st, r.buf[r.pos], lambda x: x == (delim & 255)): r.pos += 1
        return r.buf[b:r.pos], r.pos < len(r.buf)
    def getline_s(st, a, ins):
        r = mod(st, a[0])
        if not sentry(st, r, False):
            return a[0]
        t, d = line(st, r, a[2] if len(a) > 2 else 10)
        if d: r.pos += 1
        sassign(st, a[1], t)
        setstate(st, r, (0 if d else EOF) | (FAIL if not d and not t else 0))
        return a[0]
    for s in ('', 'S4_'):
        T['@_ZSt7getlineIcSt11char_traitsIcESaIcEERSt13basic_istreamIT_T0_ES7_RNSt7__cxx1112basic_stringIS4_S5_T1_EE' + s] = getline_s
    def buffered(keep):
        def h(st, a, ins):
            r = mod(st, a[0]); n = a[2]; delim = a[3] if len(a) > 3 else 10
            if is_t(n): raise Unsupported('symbolic buffer size')
            if not sentry(st, r, False):
                if n > 0: E.store(st, a[1], ('i', 8), 0)
                return a[0]
            b = r.pos; bits = 0
            while True:
                if r.pos >= len(r.buf): bits |= EOF; break
                if iscls(st, r.buf[r.pos], lambda x: x == (delim & 255)): break
                if r.pos - b >= n - 1:
                    if not keep: bits |= FAIL
                    break
                r.pos += 1
            t = r.buf[b:r.pos]; r.gcount = len(t)
            if not keep and not bits: r.pos += 1; r.gcount += 1
            if not r.gcount: bits |= FAIL
            bytewise(st, a[1], t + (0,))
            setstate(st, r, bits)
            return a[0]
        return h
    T['@_ZNSi3getEPclc'] = T['@_ZNSi3getEPcl'] = buffered(True)
    T['@_ZNSi7getlineEPcl'] = T['@_ZNSi7getlineEPclc'] = buffered(False)
    def widen(c): return c if is_t(c) else c & 255
    def peek(st, a, ins):
        r = mod(st, a[0])
        r.gcount = 0
        if r.state: setstate(st, r, FAIL); return -1
        if r.pos >= len(r.buf): setstate(st, r, EOF); return -1
        return widen(r.buf[r.pos])
    T['@_ZNSi4peekEv'] = peek
    def getc(st, a, ins):
        r = mod(st, a[0])
        if not sentry(st, r, False): return -1
        if r.pos >= len(r.buf): setstate(st, r, EOF | FAIL); return -1
        c = r.buf[r.pos]; r.pos += 1; r.gcount = 1
        return widen(c)
    T['@_ZNSi3getEv'] = getc
    def getcr(st, a, ins):
        c = getc(st, a, ins)
        if is_t(c) or c != -1: bytewise(st, a[1], (c,))
        return a[0]
    T['@_ZNSi3getERc'] = getcr
    def ignore(st, a, ins):
        r = mod(st, a[0]); n = a[1] if len(a) > 1 else 1; delim = a[2] if len(a) > 2 else -1
        if not sentry(st, r, False): return a[0]
        k = 0
        while k < n:
            if r.pos >= len(r.buf): r.gcount = k; setstate(st, r, EOF); return a[0]
            c = r.buf[r.pos]; r.pos += 1; k += 1
            if delim >= 0 and iscls(st, c, lambda x: x == delim): break
        r.gcount = k
        return a[0]
    T['@_ZNSi6ignoreEl'] = T['@_ZNSi6ignoreEli'] = T['@_ZNSi6ignoreEv'] = ignore
    def unget(st, a, ins):
        r = mod(st, a[0]); r.state &= ~EOF; r.gcount = 0
        if r.state or not r.pos: setstate(st, r, FAIL | BAD); return a[0]
        r.pos -= 1; return a[0]
    T['@_ZNSi5ungetEv'] = unget
    def tellg(st, a, ins):
        r = mod(st, a[0])
        if r.state & (FAIL | BAD): return [-1, 0]
        if r.state: setstate(st, r, FAIL); return [-1, 0]
        return [r.pos, 0]
    T['@_ZNSi5tellgEv'] = tellg
    def seekg(st, a, ins):
        r = mod(st, a[0]); r.state &= ~EOF
        p = a[1]
        if r.state: setstate(st, r, FAIL); return a[0]
        if is_t(p): raise Unsupported('symbolic seek')
        if p < 0 or p > len(r.buf) and r.file is None: setstate(st, r, FAIL); return a[0]
        r.pos = p; return a[0]
    T['@_ZNSi5seekgESt4fposI11__mbstate_tE'] = seekg
    def seekoff(st, a, ins):
        r = mod(st, a[0]); r.state &= ~EOF
        if r.state: setstate(st, r, FAIL); return a[0]
        p = a[1] + {0: 0, 1: r.pos, 2: len(r.buf)}[a[2]]
        if p < 0 or p > len(r.buf) and r.file is None: setstate(st, r, FAIL); return a[0]
        r.pos = p; return a[0]
    T['@_ZNSi5seekgElSt12_Ios_Seekdir'] = seekoff
    def read(st, a, ins):
        r = mod(st, a[0]); n = a[2]
        if is_t(n): raise Unsupported('read of a symbolic number of characters')
        r.gcount = 0
        if not sentry(st, r, False): return a[0]
        m = max(0, min(n, len(r.buf) - r.pos))
        put(st, a[1], r.buf[r.pos:r.pos + m]); r.pos += m; r.gcount = m
        if m < n: setstate(st, r, EOF | FAIL)
        return a[0]
    T['@_ZNSi4readEPcl'] = read
    T['@_ZNKSi6gcountEv'] = lambda st, a, ins: get(st, a[0]).gcount
    def skipws(st, a, ins):
        r = mod(st, a[0])
        if r.state & (FAIL | BAD): return a[0]
        while r.pos < len(r.buf) and ws(st, r.buf[r.pos]): r.pos += 1
        if r.pos >= len(r.buf): setstate(st, r, EOF)
        return a[0]
    T['@_ZSt2wsIcSt11char_traitsIcEERSt13basic_istreamIT_T0_ES6_'] = skipws
    # ---- state
    def st_(f):
        def h(st, a, ins):
            if isstd(E, st, a[0]): return f(0)
            return f(get(st, a[0]).state)
        return h
    T['@' + IOSK + '4goodEv'] = st_(lambda s: s == 0); T['@' + IOSK + '3eofEv'] = st_(lambda s: bool(s & EOF))
    T['@' + IOSK + '4failEv'] = T['@' + IOSK + 'ntEv'] = st_(lambda s: bool(s & 5)); T['@' + IOSK + 'cvbEv'] = st_(lambda s: not s & 5)
    T['@' + IOSK + '3badEv'] = st_(lambda s: bool(s & BAD)); T['@' + IOSK + '7rdstateEv'] = st_(lambda s: s)
    def clear(st, a, ins):
        r = mod(st, a[0]); r.state = 0; setstate(st, r, a[1])
    T['@' + IOS + '5clearESt12_Ios_Iostate'] = clear
    def sets(st, a, ins): setstate(st, mod(st, a[0]), a[1])
    T['@' + IOS + '8setstateESt12_Ios_Iostate'] = sets
    def exc(st, a, ins):
        r = mod(st, a[0]); r.exc = a[1]; setstate(st, r, 0)
    T['@' + IOS + '10exceptionsESt12_Ios_Iostate'] = exc
    T['@' + IOSK + '10exceptionsEv'] = lambda st, a, ins: get(st, a[0]).exc
    T['@' + IOSK + '5widenEc'] = lambda st, a, ins: a[1]
    # ---- string streams
    def ctor(kind, withstr):
        def h(st, a, ins):
            s = sload(st, a[1]) if withstr else ()
            r = create(st, a[0], kind); r.buf = s; r.out = kind in ('ss', 'os')
            if withstr and r.out and kind == 'ss':
                r.out = 'over' if s else True
        return h
    for base, k in ((SS, 'ss'), (IS, 'is'), (OS, 'os')):
        T['@' + base + 'C1Ev'] = ctor(k, False); T['@' + base + 'C1ESt13_Ios_Openmode'] = ctor(k, False)
        T['@' + base + 'C1ERKNS_12basic_stringIcS2_S3_EESt13_Ios_Openmode'] = ctor(k, True)
        def setstr(st, a, ins):
            r = mod(st, a[0]); r.buf = sload(st, a[1]); r.pos = 0
            if r.out and r.buf: r.out = 'over'
        T['@' + base + '3strERKNS_12basic_stringIcS2_S3_EE'] = setstr
        def getstr(st, a, ins): snew(st, a[0], get(st, a[1]).buf)
        for q in ('', 'R', 'O'): T['@' + base.replace('_ZNSt', '_ZNK' + q + 'St' if q == 'R' else '_ZNKSt') + '3strEv'] = getstr
        T['@' + base.replace('_ZNSt', '_ZNKRSt') + '3strEv'] = getstr
    def dtor(st, a, ins): recs(st).pop(a[0].o, None)
    for base in (SS, IS, OS, IF, OF, FF):
        T['@' + base + 'D1Ev'] = dtor; T['@' + base + 'D2Ev'] = dtor
    # ---- files
    def fopen(st, r, name, mode, kind):
        if any(not isinstance(c, int) for c in name): raise Unsupported('symbolic file name')
        if kind == 'of': mode |= 16
        if kind == 'if': mode |= 8
        if r.file is not None: return False
        if mode & 16:
            if mode & 1: raise Unsupported('append mode')
            if absent(name): return False
            if not mode & 8: files(st)[name] = ()
            elif name not in files(st): return False
            r.out = True
        elif name not in files(st): return False
        r.file = name; r.buf = files(st)[name]; r.pos = 0
        return True
    def fctor(kind, how):
        def h(st, a, ins):
            name = None if how is None else tuple(bytes(E.cstr(st, a[1]))) if how == 'c' else sload(st, a[1])
            r = create(st, a[0], kind); r.out = kind == 'of'
            if name is not None and not fopen(st, r, name, a[2] if len(a) > 2 else 0, kind): setstate(st, r, FAIL)
        return h
    def fop(kind, how):
        def h(st, a, ins):
            name = tuple(bytes(E.cstr(st, a[1]))) if how == 'c' else sload(st, a[1])
            r = mod(st, a[0])
            if not fopen(st, r, name, a[2] if len(a) > 2 else 0, kind): setstate(st, r, FAIL)
            else: r.state = 0
        return h
    def fclose(st, a, ins):
        r = mod(st, a[0]); f = r.file; r.file = None
        if f is None or r.out and over(st, f, len(r.buf)): setstate(st, r, FAIL)
    # C streams: the object that stands for one carries its name
    def cfile(st, p): return st.ghost.setdefault('cfiles', {}).get(p.o) if isinstance(p, P) else None
    @reg('fopen', 'fopen64')
    def cfopen(st, a, ins):
        name = tuple(bytes(E.cstr(st, a[0]))); mode = bytes(E.cstr(st, a[1]))
        if mode[:1] == b'w':
            if absent(name): return NULL
            files(st)[name] = ()
        elif mode[:1] != b'r' or b'+' in mode: raise Unsupported('mode of a C stream')
        elif name not in files(st): return NULL
        o = E.new_obj(st, 8, 'heap', 'FILE'); st.ghost['cfiles'] = dict(st.ghost.get('cfiles', {})); st.ghost['cfiles'][o.id] = [name, 0, mode[:1] == b'w']
        return P(o.id, 0)
    def cuse(st, p):
        f = cfile(st, p)
        if f is None: E.fail_path(st, 'use of a C stream that is not open')
        return f
    @reg('fwrite')
    def cfwrite(st, a, ins):
        if isinstance(a[3], P) and E.objnames.get(a[3].o, '').lstrip('@') in ('stderr', 'stdout'): return a[2]
        f = cuse(st, a[3]); n = imul(a[1], a[2])
        if not f[2]: return 0
        files(st)[f[0]] = files(st)[f[0]] + block(st, a[0], n)
        if over(st, f[0], len(files(st)[f[0]])) and len(f) == 3: # noticed here, or when the buffer is written at last
            s2 = st.clone(); f2 = s2.frames[-1]; f2.regs[ins.res] = isub(a[2], 1); s2.ghost['cfiles'][a[3].o] = [*f, True]
            if ins.a[3]: E.goto(s2, f2, ins.a[3][0], None)
            else: f2.ip += 1
            E.pending.append(s2)
        return a[2]
    @reg('fread')
    def cfread(st, a, ins):
        f = cuse(st, a[3]); n = imul(a[1], a[2])
        if is_t(n): raise Unsupported('read of a symbolic number of characters')
        c = files(st)[f[0]]; m = max(0, min(n, len(c) - f[1])); put(st, a[0], c[f[1]:f[1] + m])
        st.ghost['cfiles'][a[3].o] = [f[0], f[1] + m, f[2]]; return m // a[1] if a[1] else 0
    @reg('fclose')
    def cfclose(st, a, ins):
        f = cuse(st, a[0]); st.ghost['cfiles'] = dict(st.ghost['cfiles']); del st.ghost['cfiles'][a[0].o]
        return -1 if f[2] and len(f) == 3 and over(st, f[0], len(files(st)[f[0]])) else 0
    @reg('remove')
    def remove(st, a, ins):
        name = tuple(bytes(E.cstr(st, a[0])))
        return 0 if files(st).pop(name, None) is not None else 0xffffffff
    def fisopen(st, a, ins): return get(st, a[0]).file is not None
    for base, k in ((IF, 'if'), (OF, 'of'), (FF, 'ff')):
        T['@' + base + 'C1Ev'] = fctor(k, None)
        T['@' + base + 'C1EPKcSt13_Ios_Openmode'] = fctor(k, 'c'); T['@' + base + 'C1E' + STR + 'St13_Ios_Openmode'] = fctor(k, 's')
        T['@' + base + '4openEPKcSt13_Ios_Openmode'] = fop(k, 'c'); T['@' + base + '4openE' + STR + 'St13_Ios_Openmode'] = fop(k, 's')
        T['@' + base + '4openE' + STR[:-1] + 'St13_Ios_Openmode'] = fop(k, 's'); T['@' + base + 'C1E' + STR[:-1] + 'St13_Ios_Openmode'] = fctor(k, 's')
        T['@' + base + '5closeEv'] = fclose; T['@' + base + '7is_openEv'] = fisopen; T['@' + base.replace('_ZNSt', '_ZNKSt') + '7is_openEv'] = fisopen

def generic(E, name):
    return None
