"""Parser for the textual LLVM IR (clang 18, opaque pointers) that clang makes
from /repo's sources.  Functions are parsed on first use."""
import re, struct

TOK = re.compile(r'''
   %"[^"]*" | @"[^"]*" | %[-\w.$]+ | @[-\w.$]+ | c"[^"]*" | \$"[^"]*" | \$[-\w.$]+ | "[^"]*" |
   0x[KHMLR]?[0-9A-Fa-f]+ | -?\d+\.\d*(?:e[+-]?\d+)? | -?\d+ | \.\.\. | ![\w.]* | \#\d+ | [A-Za-z_][\w.]* |
   <\{ | \}> | [\[\]{}()<>,=*:|]
''', re.X)

def tokenize(s):
    return TOK.findall(s)

# types: ('i',n) ('f',64) ('f',32) 'ptr' 'void' ('arr',n,t) ('st',[t..],packed) ('vec',n,t) ('fn',)
class Types:
    def __init__(self):
        self.named_src = {}
        self.named = {}
        self.sz = {}
        self.lay = {}

    def get(self, name):
        t = self.named.get(name)
        if t is None:
            src = self.named_src.get(name, 'opaque')
            if src.strip() == 'opaque':
                t = ('st', (), False)
            else:
                t, _ = parse_type(tokenize(src), 0, self)
            self.named[name] = t
        return t

    def layout(self, t):
        r = self.lay.get(t)
        if r is None:
            off = 0; offs = []
            mal = 1
            for e in t[1]:
                a = 1 if t[2] else self.align(e)
                mal = max(mal, a)
                off = (off + a - 1) // a * a
                offs.append(off)
                off += self.size(e)
            off = (off + mal - 1) // mal * mal
            r = (offs, off, mal)
            self.lay[t] = r
        return r

    def size(self, t):
        if t == 'ptr': return 8
        k = t[0]
        if k == 'i': 
            n = (t[1] + 7) // 8
            p = 1
            while p < n: p *= 2
            return p
        if k == 'f': return {64: 8, 32: 4, 80: 16, 16: 2}[t[1]]
        if k == 'arr': return t[1] * self.size(t[2])
        if k == 'vec': return t[1] * self.size(t[2])
        if k == 'named': return self.size(self.get(t[1]))
        if k == 'st': return self.layout(t)[1]
        raise ValueError(t)

    def align(self, t):
        if t == 'ptr': return 8
        k = t[0]
        if k == 'i': return min(self.size(t), 16)
        if k == 'f': return min(self.size(t), 16)
        if k == 'arr': return self.align(t[2])
        if k == 'vec': return self.size(t)
        if k == 'named': return self.align(self.get(t[1]))
        if k == 'st': return self.layout(t)[2]
        raise ValueError(t)

    def res(self, t):
        while isinstance(t, tuple) and t[0] == 'named': t = self.get(t[1])
        return t

def parse_type(tk, p, ty):
    t = tk[p]
    if t == 'ptr':
        r = 'ptr'; p += 1
        if p < len(tk) and tk[p] == 'addrspace': p += 4
    elif t == 'void': r = 'void'; p += 1
    elif t == 'double': r = ('f', 64); p += 1
    elif t == 'float': r = ('f', 32); p += 1
    elif t == 'half': r = ('f', 16); p += 1
    elif t == 'x86_fp80': r = ('f', 80); p += 1
    elif t[0] == 'i' and t[1:].isdigit(): r = ('i', int(t[1:])); p += 1
    elif t[0] == '%': r = ('named', t); p += 1
    elif t == '[':
        n = int(tk[p + 1]); assert tk[p + 2] == 'x'
        e, p = parse_type(tk, p + 3, ty)
        assert tk[p] == ']'; p += 1
        r = ('arr', n, e)
    elif t == '<':
        n = int(tk[p + 1]); assert tk[p + 2] == 'x'
        e, p = parse_type(tk, p + 3, ty)
        assert tk[p] == '>'; p += 1
        r = ('vec', n, e)
    elif t in ('{', '<{'):
        p += 1; es = []
        end = '}' if t == '{' else '}>'
        while tk[p] != end:
            e, p = parse_type(tk, p, ty)
            es.append(e)
            if tk[p] == ',': p += 1
        p += 1
        r = ('st', tuple(es), t == '<{')
    elif t in ('label', 'metadata', 'token'):
        r = t; p += 1
    else:
        raise ValueError('type? %r in %r' % (t, tk[max(0, p - 5):p + 10]))
    # function types: ret (args...)
    while p < len(tk) and tk[p] == '(' and isinstance(r, (str, tuple)) and _is_fnty(tk, p):
        d = 0
        while True:
            if tk[p] == '(': d += 1
            elif tk[p] == ')':
                d -= 1
                if d == 0: p += 1; break
            p += 1
        r = ('fn', r)
    return r, p

def _is_fnty(tk, p):
    # "(...)" right after a type, where a type or ... or ) follows
    q = tk[p + 1]
    return q in (')', '...', 'ptr', 'double', 'float', 'void') or (q[0] == 'i' and q[1:].isdigit()) or q in ('[', '{', '<', '<{') or q[0] == '%'

ATTRW = set('''noundef nonnull noalias nocapture readonly readnone writeonly writable returned signext zeroext inreg
immarg nest swiftself allocptr allocalign dead_on_unwind inalloca nofree noreturn nounwind tail musttail notail fastcc ccc coldcc
local_unnamed_addr unnamed_addr nsw nuw exact disjoint nneg inbounds fast nnan ninf nsz arcp contract afn reassoc volatile atomic
acquire release monotonic seq_cst acq_rel hidden dso_local noinline captures'''.split())
ATTRP = set('align dereferenceable dereferenceable_or_null sret byval byref elementtype preallocated allocsize range'.split())

def hexfloat(s):
    v = int(s[2:], 16)
    return struct.unpack('<d', struct.pack('<Q', v))[0]

# operands: ('r',name) ('c',int) ('f',float) ('g',name) 'null' 'undef' 'zero'
#           ('agg',ty,[(ty,op)..]) ('str',bytes) ('gep',srcty,inb,[(ty,op)..]) ('cast',op,ty,val,ty2) ('bin',op,ty,a,b) ('icmp'..)
def parse_value(tk, p, ty, T):
    t = tk[p]
    c = t[0]
    if c == '%': return ('r', t), p + 1
    if c == '@': return ('g', t), p + 1
    if c == '-' or c.isdigit():
        if t.startswith('0x'):
            if isinstance(T, tuple) and T[0] == 'f':
                if t[2] in 'KHLMR': return ('f', 0.0), p + 1
                return ('f', hexfloat(t)), p + 1
            return ('c', int(t, 16)), p + 1
        if isinstance(T, tuple) and T[0] == 'f': return ('f', float(t)), p + 1
        return ('c', int(t)), p + 1
    if t == 'true': return ('c', 1), p + 1
    if t == 'false': return ('c', 0), p + 1
    if t == 'null': return ('null',), p + 1
    if t in ('undef', 'poison'): return ('undef',), p + 1
    if t == 'zeroinitializer': return ('zero',), p + 1
    if t == 'none': return ('zero',), p + 1
    if c == 'c' and len(t) > 1 and t[1] == '"':
        s = t[2:-1]
        out = bytearray(); i = 0
        while i < len(s):
            if s[i] == '\\' and s[i + 1] == '\\':
                out.append(92); i += 2
            elif s[i] == '\\':
                out.append(int(s[i + 1:i + 3], 16)); i += 3
            else:
                out.append(ord(s[i])); i += 1
        return ('str', bytes(out)), p + 1
    if t in ('[', '{', '<', '<{'):
        end = {'[': ']', '{': '}', '<': '>', '<{': '}>'}[t]
        p += 1; es = []
        while tk[p] != end:
            et, p = parse_type(tk, p, ty)
            v, p = parse_value(tk, p, ty, et)
            es.append((et, v))
            if tk[p] == ',': p += 1
        return ('agg', T, es), p + 1
    if t == 'getelementptr':
        p += 1
        while tk[p] in ('inbounds', 'nuw', 'nusw'): p += 1
        if tk[p] == 'inrange': 
            p += 1
        assert tk[p] == '(', tk[p:p + 5]
        p += 1
        st, p = parse_type(tk, p, ty)
        assert tk[p] == ','; p += 1
        ops = []
        while True:
            if tk[p] == 'inrange': p += 1
            et, p = parse_type(tk, p, ty)
            v, p = parse_value(tk, p, ty, et)
            ops.append((et, v))
            if tk[p] == ',': p += 1; continue
            break
        assert tk[p] == ')'
        return ('gep', st, ops), p + 1
    if t in ('bitcast', 'inttoptr', 'ptrtoint', 'trunc', 'zext', 'sext', 'addrspacecast'):
        p += 2
        t1, p = parse_type(tk, p, ty)
        v, p = parse_value(tk, p, ty, t1)
        assert tk[p] == 'to'
        t2, p = parse_type(tk, p + 1, ty)
        assert tk[p] == ')'
        return ('cast', t, t1, v, t2), p + 1
    if t in ('sub', 'add', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'icmp'):
        p += 1
        pred = None
        if t == 'icmp': pred = tk[p]; p += 1
        while tk[p] in ('nsw', 'nuw', 'exact'): p += 1
        p += 1
        t1, p = parse_type(tk, p, ty)
        a, p = parse_value(tk, p, ty, t1)
        p += 1
        t2, p = parse_type(tk, p, ty)
        b, p = parse_value(tk, p, ty, t2)
        return ('bin', t, pred, t1, a, b), p + 1
    if t == 'blockaddress' or t == 'dso_local_equivalent' or t == 'no_cfi':
        raise ValueError('const ' + t)
    raise ValueError('value? %r near %r' % (t, tk[max(0, p - 6):p + 6]))

class Inst:
    __slots__ = ('op', 'res', 'a', 'fn')
    def __init__(self, op, res, a): self.op = op; self.res = res; self.a = a
    def __repr__(self): return '%s = %s %s' % (self.res, self.op, self.a)

class Func:
    __slots__ = ('name', 'params', 'src', 'blocks', 'entry', 'retty', 'order', 'loops', 'preds', 'meta', 'personality')

class Module:
    def __init__(self, text):
        self.types = Types()
        self.globals = {}     # name -> (external?, type, init tokens or None, is_const)
        self.funcs = {}
        self.decls = {}
        self.aliases = {}
        self.ctors = []
        self._load(text)

    def _load(self, text):
        lines = text.split('\n')
        i = 0; n = len(lines)
        while i < n:
            l = lines[i]
            if l.startswith('define '):
                m = re.search(r'@("[^"]*"|[-\w.$]+)\(', l)
                name = '@' + m.group(1)
                j = i + 1
                while lines[j] != '}': j += 1
                f = Func()
                f.name = name; f.src = (l, lines[i + 1:j]); f.blocks = None; f.loops = None; f.meta = {}
                self.funcs[name] = f
                i = j + 1
                continue
            if l.startswith('%') and ' = type ' in l:
                k = l.index(' = type ')
                self.types.named_src[l[:k]] = l[k + 8:]
            elif l.startswith('@'):
                self._global(l)
            elif l.startswith('declare '):
                m = re.search(r'@("[^"]*"|[-\w.$]+)\(', l)
                self.decls['@' + m.group(1)] = l
            i += 1

    def _global(self, l):
        # strip trailing , align N, comdat, section ...
        m = re.match(r'(@"[^"]*"|@[-\w.$]+) = (.*)$', l)
        name, rest = m.group(1), m.group(2)
        if re.search(r'\balias\b', rest.split('"')[0]):
            mm = re.findall(r'@(?:"[^"]*"|[-\w.$]+)', rest)
            self.aliases[name] = mm[-1]
            return
        mm = re.match(r'((?:private|internal|external|linkonce_odr|weak_odr|linkonce|weak|common|available_externally|appending|extern_weak|hidden|dso_local|local_unnamed_addr|unnamed_addr|thread_local(?:\([a-z]+\))?|externally_initialized|protected)\s+)*(global|constant)\s+(.*)$', rest)
        if not mm: raise ValueError('global? ' + l)
        ext = bool(re.match(r'.*\b(external|extern_weak)\b', rest[:rest.index(mm.group(2))]))
        self.globals[name] = (ext, mm.group(3), mm.group(2) == 'constant')

    def global_info(self, name):
        g = self.globals[name]
        if len(g) == 3:
            ext, src, const = g
            tk = tokenize(src)
            t, p = parse_type(tk, 0, self.types)
            init = None
            if not ext:
                init, p = parse_value(tk, p, self.types, t)
            g = (ext, t, init, const)
            self.globals[name] = g
        return g

    def func(self, name):
        name = self.aliases.get(name, name)
        f = self.funcs.get(name)
        if f is None: return None
        if f.blocks is None: self._parse_func(f)
        return f

    def _parse_func(self, f):
        head, body = f.src
        k = head.index(f.name + '(') + len(f.name)
        # return type
        pre = tokenize(head[7:k - len(f.name)])
        p = 0
        while p < len(pre):
            if pre[p] in ATTRP:
                p += 1
                if p < len(pre) and pre[p] == '(':
                    while pre[p] != ')': p += 1
                    p += 1
                else: p += 1
                continue
            try:
                f.retty, q = parse_type(pre, p, self.types)
                break
            except ValueError:
                p += 1
        tk = tokenize(head[k:])
        p = 1; f.params = []
        while tk[p] != ')':
            if tk[p] == '...': p += 1; continue
            t, p = parse_type(tk, p, self.types)
            byval = None
            while tk[p] not in (',', ')') and tk[p][0] != '%':
                w = tk[p]; p += 1
                if w in ATTRP:
                    if tk[p] == '(':
                        d = 0; s = p
                        while True:
                            if tk[p] == '(': d += 1
                            elif tk[p] == ')':
                                d -= 1
                                if d == 0: break
                            p += 1
                        if w == 'byval': byval = parse_type(tk, s + 1, self.types)[0]
                        p += 1
                    else: p += 1
            if tk[p][0] == '%':
                nm = tk[p]; p += 1
            else: nm = '%' + str(len(f.params))
            f.params.append((t, nm, byval))
            if tk[p] == ',': p += 1
        # blocks
        f.blocks = {}; f.order = []
        nparam = len(f.params)
        cur = None
        lab = None
        # join continuation lines
        joined = []
        i = 0
        while i < len(body):
            l = body[i]
            if not l.strip() or l.lstrip().startswith(';'): i += 1; continue
            if l[0] != ' ':
                joined.append(l); i += 1; continue
            s = l
            if re.match(r'\s+switch ', l) and not l.rstrip().endswith(']') and '[' in l and not re.search(r'\]\s*(,|$)', l):
                i += 1
                while not body[i].strip().startswith(']'):
                    s += ' ' + body[i].strip(); i += 1
                s += ' ]'; i += 1
                joined.append(s); continue
            i += 1
            while i < len(body) and body[i].startswith('          '):
                s += ' ' + body[i].strip(); i += 1
            joined.append(s)
        first = True
        for l in joined:
            if l[0] != ' ':
                m = re.match(r'("[^"]*"|[-\w.$]+):', l)
                lab = '%' + m.group(1)
                cur = []
                f.blocks[lab] = cur; f.order.append(lab)
                first = False
                continue
            if first:
                # implicit entry label: number of params (unnamed) -- name irrelevant unless used by phis
                lab = None
                cnt = sum(1 for t, nm, b in f.params if nm[1:].isdigit())
                lab = '%' + str(cnt)
                cur = []; f.blocks[lab] = cur; f.order.append(lab); first = False
            ins = self._parse_inst(l)
            if ins is not None: cur.append(ins)
        f.entry = f.order[0]
        f.src = None

    def _operand(self, tk, p):
        """typed operand: type attrs* value"""
        t, p = parse_type(tk, p, self.types)
        if t == 'metadata':
            # skip
            d = 0
            while p < len(tk) and not (d == 0 and tk[p] in (',', ')')):
                if tk[p] in '([{': d += 1
                if tk[p] in ')]}': d -= 1
                p += 1
            return (t, ('undef',), None), p
        byval = None
        while tk[p] in ATTRW or tk[p] in ATTRP:
            w = tk[p]; p += 1
            if w in ATTRP:
                if tk[p] == '(':
                    d = 0; s = p
                    while True:
                        if tk[p] == '(': d += 1
                        elif tk[p] == ')':
                            d -= 1
                            if d == 0: break
                        p += 1
                    if w == 'byval': byval = parse_type(tk, s + 1, self.types)[0]
                    p += 1
                else: p += 1
        v, p = parse_value(tk, p, self.types, t)
        return (t, v, byval), p

    def _parse_inst(self, l):
        l = re.sub(r',\s*![a-zA-Z_.]+ ![0-9]+', '', l)
        l = re.sub(r',\s*![a-zA-Z_.]+ !\{[^}]*\}', '', l)
        tk = tokenize(l)
        p = 0; res = None
        if len(tk) > 1 and tk[1] == '=':
            res = tk[0]; p = 2
        while tk[p] in ('tail', 'musttail', 'notail'): p += 1
        op = tk[p]; p += 1
        ty = self.types
        skip = lambda p: p + 1 if tk[p] in ATTRW else p
        if op in ('add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
                  'fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            flags = set()
            while tk[p] in ATTRW: flags.add(tk[p]); p += 1
            t, p = parse_type(tk, p, ty)
            a, p = parse_value(tk, p, ty, t)
            assert tk[p] == ','
            b, p = parse_value(tk, p + 1, ty, t)
            return Inst('bin', res, (op, t, a, b, flags))
        if op == 'fneg':
            while tk[p] in ATTRW: p += 1
            t, p = parse_type(tk, p, ty)
            a, p = parse_value(tk, p, ty, t)
            return Inst('fneg', res, (t, a))
        if op in ('icmp', 'fcmp'):
            while tk[p] in ATTRW: p += 1
            pred = tk[p]; p += 1
            t, p = parse_type(tk, p, ty)
            a, p = parse_value(tk, p, ty, t)
            b, p = parse_value(tk, p + 1, ty, t)
            return Inst(op, res, (pred, t, a, b))
        if op == 'load':
            while tk[p] in ATTRW: p += 1
            t, p = parse_type(tk, p, ty)
            (pt, v, _), p = self._operand(tk, p + 1)
            return Inst('load', res, (t, v))
        if op == 'store':
            while tk[p] in ATTRW: p += 1
            (t, v, _), p = self._operand(tk, p)
            (pt, q, _), p = self._operand(tk, p + 1)
            return Inst('store', None, (t, v, q))
        if op == 'getelementptr':
            while tk[p] in ATTRW: p += 1
            st, p = parse_type(tk, p, ty)
            ops = []
            while p < len(tk) and tk[p] == ',':
                (t, v, _), p = self._operand(tk, p + 1)
                ops.append((t, v))
            return Inst('gep', res, (st, ops))
        if op == 'alloca':
            while tk[p] in ATTRW: p += 1
            t, p = parse_type(tk, p, ty)
            cnt = ('c', 1)
            if p < len(tk) and tk[p] == ',' and tk[p + 1] != 'align':
                (_, cnt, _), p = self._operand(tk, p + 1)
            return Inst('alloca', res, (t, cnt))
        if op == 'br':
            if tk[p] == 'label': return Inst('jmp', None, tk[p + 1])
            t, p = parse_type(tk, p, ty)
            c, p = parse_value(tk, p, ty, t)
            return Inst('br', None, (c, tk[p + 2], tk[p + 5]))
        if op == 'switch':
            t, p = parse_type(tk, p, ty)
            v, p = parse_value(tk, p, ty, t)
            dflt = tk[p + 2]; p += 3
            assert tk[p] == '['
            p += 1; cases = []
            while tk[p] != ']':
                ct, p = parse_type(tk, p, ty)
                c, p = parse_value(tk, p, ty, ct)
                cases.append((c[1], tk[p + 2])); p += 3
            return Inst('switch', None, (t, v, dflt, cases))
        if op == 'ret':
            if tk[p] == 'void': return Inst('ret', None, None)
            (t, v, _), p = self._operand(tk, p)
            return Inst('ret', None, (t, v))
        if op == 'unreachable': return Inst('unreachable', None, None)
        if op == 'phi':
            while tk[p] in ATTRW: p += 1
            t, p = parse_type(tk, p, ty)
            inc = {}
            while True:
                assert tk[p] == '['
                v, p = parse_value(tk, p + 1, ty, t)
                inc[tk[p + 1]] = v
                p += 3
                if p < len(tk) and tk[p] == ',': p += 1; continue
                break
            return Inst('phi', res, (t, inc))
        if op == 'select':
            while tk[p] in ATTRW: p += 1
            (ct, c, _), p = self._operand(tk, p)
            (t, a, _), p = self._operand(tk, p + 1)
            (t, b, _), p = self._operand(tk, p + 1)
            return Inst('select', res, (ct, c, t, a, b))
        if op in ('call', 'invoke'):
            while tk[p] in ATTRW or tk[p] in ATTRP:
                w = tk[p]; p += 1
                if w in ATTRP:
                    if tk[p] == '(':
                        while tk[p] != ')': p += 1
                        p += 1
                    else: p += 1
            rt, p = parse_type(tk, p, ty)
            if isinstance(rt, tuple) and rt[0] == 'fn': rt = rt[1]
            callee, p = parse_value(tk, p, ty, 'ptr')
            assert tk[p] == '(', tk
            p += 1
            args = []
            while tk[p] != ')':
                a, p = self._operand(tk, p)
                args.append(a)
                if tk[p] == ',': p += 1
            p += 1
            if op == 'call':
                return Inst('call', res, (rt, callee, args, None))
            while tk[p] != 'to': p += 1
            norm = tk[p + 2]
            while tk[p] != 'unwind': p += 1
            return Inst('call', res, (rt, callee, args, (norm, tk[p + 2])))
        if op in ('sext', 'zext', 'trunc', 'fptosi', 'fptoui', 'sitofp', 'uitofp', 'fpext', 'fptrunc', 'bitcast', 'ptrtoint', 'inttoptr'):
            while tk[p] in ATTRW: p += 1
            (t, v, _), p = self._operand(tk, p)
            t2, p = parse_type(tk, p + 1, ty)
            return Inst('cast', res, (op, t, v, t2))
        if op == 'extractvalue':
            (t, v, _), p = self._operand(tk, p)
            idx = []
            while p < len(tk) and tk[p] == ',': idx.append(int(tk[p + 1])); p += 2
            return Inst('extractvalue', res, (t, v, idx))
        if op == 'insertvalue':
            (t, v, _), p = self._operand(tk, p)
            (t2, v2, _), p = self._operand(tk, p + 1)
            idx = []
            while p < len(tk) and tk[p] == ',': idx.append(int(tk[p + 1])); p += 2
            return Inst('insertvalue', res, (t, v, v2, idx))
        if op == 'extractelement':
            (t, v, _), p = self._operand(tk, p)
            (t2, i, _), p = self._operand(tk, p + 1)
            return Inst('extractelement', res, (t, v, i))
        if op == 'insertelement':
            (t, v, _), p = self._operand(tk, p)
            (t2, e, _), p = self._operand(tk, p + 1)
            (t3, i, _), p = self._operand(tk, p + 1)
            return Inst('insertelement', res, (t, v, e, i))
        if op == 'shufflevector':
            (t, a, _), p = self._operand(tk, p)
            (t, b, _), p = self._operand(tk, p + 1)
            (t3, m, _), p = self._operand(tk, p + 1)
            return Inst('shufflevector', res, (t, a, b, t3, m))
        if op == 'landingpad': return Inst('landingpad', res, l)
        if op == 'resume': return Inst('resume', None, self._operand(tk, p)[0][:2])
        if op == 'freeze':
            (t, v, _), p = self._operand(tk, p)
            return Inst('freeze', res, (t, v))
        if op == 'atomicrmw':
            while tk[p] in ATTRW: p += 1
            kind = tk[p]; p += 1
            (t0, q, _), p = self._operand(tk, p)
            (t, v, _), p = self._operand(tk, p + 1)
            return Inst('atomicrmw', res, (kind, q, t, v))
        if op == 'fence': return None
        return Inst('unsupported', res, l)
