"""Dates: the language accepted by the date parser, by abstract interpretation with affine forms over the characters."""
import collections
from engine import frontend, ir, lib, ditypes
from engine.frontend import AnalysisBroken

FN = 'blogc_convert_datetime'
DIG = frozenset(range(48, 58))
# position -> (form, class); fields: (member, first, last, lowest, highest, added)
FORM = 'dddd-dd-dd dd:dd:dd'
LENGTHS = (10, 13, 16, 19)
FIELDS = [('tm_year', 0, 3, 1900, 9999, -1900), ('tm_mon', 5, 6, 1, 12, -1), ('tm_mday', 8, 9, 1, 31, 0),
          ('tm_hour', 11, 12, 0, 23, 0), ('tm_min', 14, 15, 0, 59, 0), ('tm_sec', 17, 18, 0, 60, 0)]
TIME = (0, 4, 8, 12, 16, 20)
MAX = 26
ANY = frozenset(range(-128, 128))
MONTH = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]


class Undecided(Exception):
    pass


class Over(Exception):
    """a text longer than what is examined"""


def allowed(k):
    if k >= len(FORM):
        return frozenset()
    return DIG if FORM[k] == 'd' else frozenset([ord(FORM[k])])


def form_of(a, b):
    """the number written in the characters a..b: (constant, ((position, weight), ...))"""
    w = 1
    co = []
    c = 0
    for k in range(b, a - 1, -1):
        co.append((k, w))
        c -= 48 * w
        w *= 10
    return c, tuple(sorted(co))


class St:
    __slots__ = ('env', 'mem', 'cls', 'rng', 'zero')

    def __init__(s):
        s.env, s.mem, s.cls, s.rng, s.zero = {}, {}, {}, {}, frozenset()

    def copy(s):
        n = St()
        n.env, n.mem, n.cls, n.rng, n.zero = dict(s.env), dict(s.mem), dict(s.cls), dict(s.rng), s.zero
        return n


class Text:
    """values: ('k', int) | ('a', const, coefs) | ('t', offset) text pointer | ('p', base, offset) | ('b', value, pred, value)
    | ('e',) an error | None"""

    def __init__(s, fn, given=None):
        s.fn, s.mod = fn, fn.module
        s.given = given or {}
        s.text = fn.params[0][0]
        s.err = None
        for p, t in fn.params[1:]:
            ty = str(ditypes.typename(s.mod, deep(s.mod, ditypes.type_of(fn, ('l', p)))))
            if 'bc_error' in ty:
                s.err = p
        s.results = []
        s.made = []
        s.refused = []
        s.visited = 0

    def cl(s, st, k):
        if k in st.cls:
            return st.cls[k]
        if k in s.given:
            return frozenset([s.given[k]])
        return ANY

    # ---- values
    def val(s, st, op):
        k = op[0]
        if k == 'i':
            return ('k', op[1])
        if k in ('null', 'zero'):
            return ('k', 0)
        if k == 'g':
            return ('p', '@' + op[1], 0)
        if k == 'l':
            if op[1] == s.text:
                return ('t', 0)
            if op[1] == s.err:
                return ('p', 'ERR', 0)
            return st.env.get(op[1])
        return None

    def norm(s, st, c, co):
        d = {}
        for p, w in co:
            x = s.cl(st, p)
            if len(x) == 1:
                c += w * next(iter(x))
            else:
                d[p] = d.get(p, 0) + w
        co = tuple(sorted((p, w) for p, w in d.items() if w))
        return ('k', c) if not co else ('a', c, co)

    def affine(s, v):
        if v is None:
            return None
        if v[0] == 'k':
            return v[1], ()
        if v[0] == 'a':
            return v[1], v[2]
        return None

    def span(s, st, v):
        if v[0] == 'u':
            return v[1], v[2]
        if v[0] in ('b', 'n', 'cls'):
            return 0, 1
        c, co = s.affine(v)
        lo = hi = c
        for p, w in co:
            x = s.cl(st, p)
            a, b = w * min(x), w * max(x)
            lo += min(a, b)
            hi += max(a, b)
        if co in st.rng:
            l, h = st.rng[co]
            lo, hi = max(lo, l + c), min(hi, h + c)
        return lo, hi

    def cmp(s, st, pred, a, b, bits):
        """True, False or None"""
        if a is None or b is None:
            return None
        if a[0] == 'e' or b[0] == 'e':
            if {a, b} == {('e',), ('k', 0)}:
                return {'eq': False, 'ne': True}.get(pred)
            return None
        if a[0] in 'tp' or b[0] in 'tp':
            if a[0] in 'tp' and b == ('k', 0) or b[0] in 'tp' and a == ('k', 0):
                return {'eq': False, 'ne': True}.get(pred)
            if a[0] == b[0] == 't':
                a, b = ('k', a[1]), ('k', b[1])
            else:
                return None
        fa, fb = s.affine(a), s.affine(b)
        if (fa is None or fb is None) and a[0] in 'kau' and b[0] in 'kau' and pred not in ('eq', 'ne') and pred[0] != 'u':
            (al, ah), (bl, bh) = s.span(st, a), s.span(st, b)
            if pred == 'slt':
                return True if ah < bl else False if al >= bh else None
            if pred == 'sle':
                return True if ah <= bl else False if al > bh else None
            if pred == 'sgt':
                return True if al > bh else False if ah <= bl else None
            return True if al >= bh else False if ah < bl else None
        if fa is None or fb is None:
            return None
        if pred[0] == 'u' and pred not in ('eq', 'ne'):
            r = []
            for v in (a, b):
                lo, hi = s.span(st, v)
                if lo < 0 <= hi:
                    return None
                m = 1 << bits
                r.append((lo % m, hi % m))
            (al, ah), (bl, bh) = r
        else:
            d = s.norm(st, fa[0] - fb[0], fa[1] + tuple((p, -w) for p, w in fb[1]))
            lo, hi = s.span(st, d)
            al, ah, bl, bh = lo, hi, 0, 0
        p = pred if pred in ('eq', 'ne') else pred[1:]
        if p == 'eq':
            return True if al == ah == bl == bh else False if ah < bl or al > bh else None
        if p == 'ne':
            return False if al == ah == bl == bh else True if ah < bl or al > bh else None
        if p == 'lt':
            return True if ah < bl else False if al >= bh else None
        if p == 'le':
            return True if ah <= bl else False if al > bh else None
        if p == 'gt':
            return True if al > bh else False if ah <= bl else None
        if p == 'ge':
            return True if al >= bh else False if ah < bl else None

    NEG = {'eq': 'ne', 'ne': 'eq', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt', 'ult': 'uge', 'uge': 'ult',
           'ugt': 'ule', 'ule': 'ugt'}

    def refine(s, st, v, truth):
        """assume a boolean value; feasibility"""
        if '#err' in st.env:
            st = st.copy()
        if v is None:
            return True
        if v[0] == 'k':
            return bool(v[1]) == truth
        if v[0] == 'n':
            return s.refine(st, v[1], not truth)
        if v[0] == 'cls':
            n = s.cl(st, v[1]) & v[2] if truth else s.cl(st, v[1]) - v[2]
            st.cls[v[1]] = n
            return bool(n)
        if v[0] == 'b':
            pred = v[2] if truth else s.NEG[v[2]]
            return s.assume(st, pred, v[1], v[3], v[4])
        if v[0] == 'a':
            return s.assume(st, 'ne' if truth else 'eq', v, ('k', 0), 64)
        if v[0] in ('e', 't', 'p'):
            return truth
        return True

    def assume(s, st, pred, a, b, bits):
        if '#err' in st.env:
            st = st.copy()
        if a is not None and a[0] == 'zc' and b is not None and b[0] == 'k':
            keep = frozenset(c for c in s.cl(st, a[1]) if s.holds(pred, c % 256 + a[2], b[1], bits))
            st.cls[a[1]] = keep
            return bool(keep)
        r = s.cmp(st, pred, a, b, bits)
        if r is not None:
            return r
        fa, fb = s.affine(a), s.affine(b)
        if fa is None or fb is None:
            if a is not None and a[0] in ('b', 'n', 'cls') and b == ('k', 0) and pred in ('eq', 'ne'):
                return s.refine(st, a, pred == 'ne')
            if a is not None and b is not None and a[0] == 'u' and b[0] == 'a':
                return s.assume(st, {'slt': 'sgt', 'sle': 'sge', 'sgt': 'slt', 'sge': 'sle'}.get(pred, '?'), b, a, bits)
            if a is not None and b is not None and a[0] == 'a' and b[0] == 'u':
                lo, hi = s.span(st, b)
                x, y = {'slt': (None, hi - 1), 'sle': (None, hi), 'sgt': (lo + 1, None), 'sge': (lo, None)}.get(pred, (None, None))
                return s.clip(st, a[2], None if x is None else x - a[1], None if y is None else y - a[1])
            return True
        d = s.norm(st, fa[0] - fb[0], fa[1] + tuple((p, -w) for p, w in fb[1]))
        if d[0] == 'k':
            return True
        if len(d[2]) == 1 and len(fb[1]) == 0 and len(fa[1]) == 1:
            # one character: filter its class exactly
            p, w = fa[1][0]
            keep = frozenset(c for c in s.cl(st, p) if s.holds(pred, fa[0] + w * c, fb[0], bits))
            st.cls[p] = keep
            return bool(keep)
        if pred[0] == 'u':
            if not fb[1] and pred in ('ult', 'ule') and fb[0] >= 0:
                lo, hi = 0, fb[0] - (pred == 'ult')
                return s.clip(st, fa[1], lo - fa[0], hi - fa[0])
            return True
        c, co = d[1], d[2]
        lo, hi = {'eq': (0, 0), 'slt': (None, -1), 'sle': (None, 0), 'sgt': (1, None), 'sge': (0, None)}.get(pred, (None, None))
        if pred == 'ne':
            l, h = s.span(st, d)
            lo, hi = (l + 1 if l == 0 else l), (h - 1 if h == 0 else h)
        ok = s.clip(st, co, None if lo is None else lo - c, None if hi is None else hi - c)
        return ok

    @staticmethod
    def holds(pred, x, y, bits):
        if pred[0] == 'u':
            x, y = x % (1 << bits), y % (1 << bits)
        q = pred if pred in ('eq', 'ne') else pred[1:]
        return {'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[q]

    def clip(s, st, co, lo, hi):
        l, h = s.span(st, ('a', 0, co))
        l = l if lo is None else max(l, lo)
        h = h if hi is None else min(h, hi)
        st.rng[co] = (l, h)
        return l <= h

    # ---- instructions
    def eval(s, st, i):
        op = i.op
        v = [s.val(st, a) for a in i.args]
        if op == 'load':
            p = v[0]
            if p is None:
                return None
            if p[0] == 't' and i.type == 'i8':
                if p[1] < 0:
                    raise Undecided('a read before the text')
                if p[1] > MAX:
                    raise Over()
                return s.norm(st, 0, ((p[1], 1),))
            if p[0] == 'p':
                if (p[1], p[2]) in st.mem:
                    return st.mem[(p[1], p[2])]
                if p[1] in st.zero:
                    return ('k', 0)
                if p[1].startswith('@'):
                    return s.table(p[1][1:], p[2], i.type)
            if p[0] == 'ct' and i.type == 'ptr':
                return ('ctt',)
            if p[0] == 'ctik':
                return ('ctk', p[1])
            if p[0] == 'cti':
                return ('ctv', p[1])
            return None
        if op == 'getelementptr':
            b = v[0]
            if b is None:
                return None
            if b == ('ctt',):
                if v[1] and v[1][0] == 'zc' and v[1][2] == 0:
                    return ('cti', v[1][1])
                if i.extra == 'i16' and v[1] and v[1][0] == 'k':
                    return ('ctik', v[1][1])
                x = s.affine(v[1])
                if x and x[0] == 0 and len(x[1]) == 1 and x[1][0][1] == 1:
                    return ('cti', x[1][0][0])
                return None
            off = s.offset(i.extra, v[1:])
            if off is None or b[0] not in 'tp':
                return None
            return b[:-1] + (b[-1] + off,)
        if op in ('sext', 'zext', 'trunc'):
            if v[0] is None and op == 'zext' and i.extra == 'i1':
                return ('u', 0, 1)
            if v[0] is not None and v[0][0] == 'u':
                return v[0] if op != 'trunc' and v[0][1] >= 0 else None
            if v[0] is None or v[0][0] in ('b', 'n', 'cls', 'zc', 'ctv', 'ctk') and op != 'trunc' or v[0][0] in ('b', 'n', 'cls'):
                return v[0]
            if v[0][0] == 'k':
                n = v[0][1]
                if op == 'zext':
                    n %= 1 << int(i.extra[1:])
                elif op == 'trunc':
                    k = int(i.type[1:])
                    n %= 1 << k
                    if n >> (k - 1) and k > 1:
                        n -= 1 << k
                elif i.extra == 'i1':
                    n = -n
                return ('k', n)
            if v[0][0] == 'a':
                lo, hi = s.span(st, v[0])
                if op == 'zext' and lo < 0:
                    if v[0][1] == 0 and len(v[0][2]) == 1 and v[0][2][0][1] == 1:
                        return ('zc', v[0][2][0][0], 0)
                    return None
                if op == 'trunc':
                    k = 1 << (int(i.type[1:]) - 1)
                    if lo < -k or hi >= k:
                        return None
                return v[0]
            return None
        if op in ('add', 'sub'):
            if v[0] and v[0][0] in 'tp' and v[1] and v[1][0] == 'k':
                return v[0][:-1] + (v[0][-1] + (v[1][1] if op == 'add' else -v[1][1]),)
            if v[0] and v[1] and v[0][0] == v[1][0] == 't' and op == 'sub':
                return ('k', v[0][1] - v[1][1])
            if v[0] and v[0][0] == 'zc' and v[1] and v[1][0] == 'k':
                return ('zc', v[0][1], v[0][2] + (v[1][1] if op == 'add' else -v[1][1]))
            a, b = s.affine(v[0]), s.affine(v[1])
            ks = [x[0] if x else None for x in v]
            if (a is None or b is None) and all(k in ('k', 'a', 'u', 'b', 'n', 'cls') for k in ks):
                (al, ah), (bl, bh) = s.span(st, v[0]), s.span(st, v[1])
                return ('u', al + bl, ah + bh) if op == 'add' else ('u', al - bh, ah - bl)
            if a is None or b is None:
                return None
            g = 1 if op == 'add' else -1
            return s.norm(st, a[0] + g * b[0], a[1] + tuple((p, g * w) for p, w in b[1]))
        if op in ('mul', 'shl'):
            a, b = s.affine(v[0]), s.affine(v[1])
            if a is None or b is None:
                return None
            if op == 'shl':
                if b[1]:
                    return None
                b = (1 << b[0], ())
            if a[1] and b[1]:
                return None
            if b[1]:
                a, b = b, a
            return s.norm(st, a[0] * b[0], tuple((p, w * b[0]) for p, w in a[1]))
        if op in ('sdiv', 'srem', 'udiv', 'urem', 'and', 'or', 'xor', 'ashr', 'lshr'):
            if op == 'and' and v[0] and v[0][0] == 'ctv' and v[1] and v[1][0] == 'k':
                if v[1][1] == 2048:
                    return ('cls', v[0][1], DIG)
                return None
            if op == 'and' and v[0] and v[0][0] == 'ctk' and v[1] == ('k', 2048):
                return ('k', 2048 if v[0][1] in DIG else 0)
            if op == 'xor' and i.type == 'i1' and v[1] == ('k', 1):
                return ('n', v[0]) if v[0] is not None and v[0][0] != 'k' else None if v[0] is None else ('k', 1 - (v[0][1] & 1))
            if op == 'xor' and i.type == 'i1' and v[1] == ('k', -1):
                return ('n', v[0]) if v[0] is not None and v[0][0] != 'k' else None if v[0] is None else ('k', 1 - (v[0][1] & 1))
            if not (v[0] and v[1] and v[0][0] == v[1][0] == 'k'):
                return None
            a, b = v[0][1], v[1][1]
            if op in ('sdiv', 'udiv', 'srem', 'urem'):
                if b == 0:
                    return None
                q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
                return ('k', q if op[1:] == 'div' else a - q * b)
            return ('k', {'and': a & b, 'or': a | b, 'xor': a ^ b, 'ashr': a >> b if b >= 0 else 0,
                          'lshr': (a % (1 << 64)) >> b if b >= 0 else 0}[op])
        if op == 'icmp':
            if v[1] == ('k', 0) and v[0] is not None and v[0][0] in ('cls', 'n', 'b') and i.extra in ('eq', 'ne'):
                return v[0] if i.extra == 'ne' else ('n', v[0])
            bits = int(i.uid[1:]) if isinstance(i.uid, str) and i.uid.startswith('i') and i.uid[1:].isdigit() else 64
            r = s.cmp(st, i.extra, v[0], v[1], bits)
            if r is not None:
                return ('k', int(r))
            if v[0] is None or v[1] is None:
                return None
            if v[0][0] == 'k':
                flip = {'eq': 'eq', 'ne': 'ne', 'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle', 'ult': 'ugt',
                        'ugt': 'ult', 'ule': 'uge', 'uge': 'ule'}
                return ('b', v[1], flip[i.extra], v[0], bits)
            return ('b', v[0], i.extra, v[1], bits)
        if op == 'select':
            c = v[0]
            if c is not None and c[0] == 'k':
                return v[1] if c[1] else v[2]
            return v[1] if v[1] == v[2] else None
        if op == 'alloca':
            return ('p', i.res, 0)
        if op in ('freeze', 'bitcast'):
            return v[0]
        return None

    def table(s, name, off, ty):
        g = s.mod.globals.get(name)
        if g is None or not g.const or g.init is None or not isinstance(ty, str) or not ty.startswith('i'):
            return None
        n = int(ty[1:]) // 8
        if g.init[0] == 'str':
            return ('k', g.init[1][off]) if n == 1 and 0 <= off < len(g.init[1]) else None
        if g.init[0] == 'agg':
            if off % n or not 0 <= off // n < len(g.init[1]):
                return None
            x = g.init[1][off // n]
            return ('k', x[1]) if x[0] == 'i' else ('k', 0) if x[0] == 'zero' else None
        return None

    def offset(s, ty, idx):
        if any(x is None or x[0] != 'k' for x in idx):
            return None
        return ditypes.gepoff(s.mod, ty, [('i', x[1]) for x in idx])

    def call(s, st, i):
        c = i.callee
        v = [s.val(st, a) for a in i.args]
        if c and c.startswith('llvm.memset'):
            if v[0] and v[0][0] == 'p' and v[1] == ('k', 0):
                st.zero = st.zero | {v[0][1]}
                for q in [q for q in st.mem if q[0] == v[0][1]]:
                    del st.mem[q]
            return None
        if c and (c.startswith('llvm.memcpy') or c == 'memcpy') and v[0] and v[0][0] == 'p' and v[1] and v[1][0] == 'p' and v[2] \
                and v[2][0] == 'k' and v[1][1] != 'ERR' and not v[1][1].startswith('@'):
            d, a, n = v[0], v[1], v[2][1]
            got = {}
            for q, x in st.mem.items():
                if q[0] == a[1] and a[2] <= q[1] < a[2] + n:
                    got[(d[1], q[1] - a[2] + d[2])] = x
            if a[1] in st.zero:
                for f in TIME:
                    if a[2] <= f < a[2] + n:
                        got.setdefault((d[1], f - a[2] + d[2]), ('k', 0))
            for q in [q for q in st.mem if q[0] == d[1] and d[2] <= q[1] < d[2] + n]:
                del st.mem[q]
            if d[1] not in st.zero or n >= 36:
                st.zero = st.zero - {d[1]}
            st.mem.update(got)
            return None
        if c and (c.startswith('llvm.dbg') or c.startswith('llvm.lifetime')):
            return None
        if c and c.startswith('bc_error_new') or c == 'bc_error_parser':
            if st.env.get('#formatted') is None:
                s.refused.append((st.copy(), i))
            st.cls, st.rng = {}, {}
            st.env = {k: v for k, v in st.env.items() if v and v[0] in 'tp'}
            st.mem = {k: v for k, v in st.mem.items() if k[0] == 'ERR'}
            st.env['#err'] = ('k', 1)
            return ('e',)
        if c == '__ctype_b_loc':
            return ('ct',)
        if c == 'isdigit':
            if v[0] and v[0][0] == 'k':
                return ('k', int(v[0][1] in DIG))
            if v[0] and v[0][0] == 'zc' and v[0][2] == 0:
                return ('cls', v[0][1], DIG)
            a = s.affine(v[0])
            if a and a[0] == 0 and len(a[1]) == 1 and a[1][0][1] == 1:
                return ('cls', a[1][0][0], DIG)
            return None
        if c in ('sscanf', 'strptime', 'strtol', 'strtoul', 'atoi', 'regexec', 'memchr', 'strchr'):
            raise Undecided('the date is read with %s' % c)
        if c in ('mktime', 'timegm'):
            if v[0] and v[0][0] == 'p':
                s.accept(st, v[0], i)
            else:
                raise Undecided('the argument of %s' % c)
            st.env['#formatted'] = ('k', 1)
            for q in [q for q in st.mem if q[0] == v[0][1]]:
                if c == 'mktime' or q[1] - v[0][2] not in TIME:
                    del st.mem[q]
            st.zero = st.zero - {v[0][1]}
            if c == 'mktime':
                for f in TIME:
                    st.mem[(v[0][1], v[0][2] + f)] = ('moved', f)
            return None
        if c == 'strftime':
            if len(v) > 3:
                if v[3] and v[3][0] == 'p':
                    s.accept(st, v[3], i)
                elif st.env.get('#formatted') is None:
                    raise Undecided('the argument of strftime')
            st.env['#formatted'] = ('k', 2)
            return None
        # other calls may write what they are given
        for a in v:
            if a is not None and a[0] == 'p' and a[1] != 'ERR':
                for q in [q for q in st.mem if q[0] == a[1]]:
                    del st.mem[q]
                st.zero = st.zero - {a[1]}
        return None

    def run(s):
        fn = s.fn
        st = St()
        st.mem[('ERR', 0)] = ('k', 0)
        work = [(fn.entry, None, st)]
        seen = set()
        while work:
            b, prev, st = work.pop()
            if prev is not None:
                new = {}
                for p in b.phis():
                    for v, pb in p.extra:
                        if pb == prev.name:
                            new[p.res] = s.val(st, v)
                st.env.update(new)
            s.prune(st, b)
            k = (b, frozenset((n, v) for n, v in st.env.items() if v is not None), frozenset((q, v) for q, v in st.mem.items()),
                 frozenset(st.cls.items()), frozenset(st.rng.items()), st.zero)
            if k in seen:
                continue
            seen.add(k)
            st = st.copy()
            s.visited += 1
            if s.visited > 60000:
                raise Undecided('too many states')
            try:
                s.step(st, b)
            except Over:
                continue
            t = b.term
            if t.op == 'ret':
                s.results.append((st, s.val(st, t.args[0]) if t.args else None, t))
            elif t.op == 'br' and not t.args:
                work.append((fn.blocks[t.extra[0]], b, st))
            elif t.op == 'br':
                c = s.val(st, t.args[0])
                for k, lab in enumerate(t.extra):
                    y = st.copy()
                    if s.refine(y, c, k == 0):
                        work.append((fn.blocks[lab], b, y))
            elif t.op == 'switch':
                c = s.val(st, t.args[0])
                y = st.copy()
                ok = True
                for cv, lab in t.extra['cases']:
                    z = st.copy()
                    if c is None or s.assume(z, 'eq', c, ('k', cv), 64):
                        work.append((fn.blocks[lab], b, z))
                    ok = ok and (c is None or s.assume(y, 'ne', c, ('k', cv), 64))
                if ok:
                    work.append((fn.blocks[t.extra['default']], b, y))
        return s

    def step(s, st, b):
            for i in b.instrs:
                if i.op == 'phi' or i is b.term:
                    continue
                if i.op == 'store':
                    v, p = s.val(st, i.args[0]), s.val(st, i.args[1])
                    if p is not None and p[0] == 'p':
                        st.mem[(p[1], p[2])] = v
                    elif p is None:
                        raise Undecided('a store through an unknown pointer')
                    continue
                r = s.call(st, i) if i.op == 'call' else s.eval(st, i)
                if '#err' in st.env and r is not None and r[0] not in 'kpte':
                    r = None
                if i.res is not None:
                    st.env[i.res] = r

    def prune(s, st, b):
        if not hasattr(s, 'live'):
            from engine.paths import Engine, Rule
            s.live = Engine(s.fn, Rule()).live
        l = s.live[b]
        for n in [n for n in st.env if n not in l and n[0] != '#']:
            del st.env[n]

    # ---- judging
    def length(s, st):
        for k in range(MAX + 1):
            c = s.cl(st, k)
            if c == {0}:
                return k
            if 0 in c:
                return None
        return None

    def accept(s, st, p, ins):
        s.made.append((st.copy(), p, ins))


def deep(mod, ref):
    for _ in range(5):
        p = ditypes.pointee(mod, ref)
        if p is None:
            return ref
        ref = p
    return ref


def members(mod):
    r = {}
    for ref, t in mod.mdtext.items():
        if 'DW_TAG_member' in t and '"tm_' in t:
            d = mod.md_get(ref)
            if d:
                r[d['name'].strip('"')] = int(d.get('offset', '0') or 0) // 8
    return r


def show(st, s, n):
    r = ''
    for k in range(n):
        c = s.cl(st, k)
        x = sorted(c & allowed(k)) or sorted(c)
        r += chr(x[0]) if x and 32 <= x[0] < 127 else '?'
    return r


def judge(rep, prog, fn, mod, given, dayrange, exact):
    """dayrange: (lowest highest) valid days under the given digits"""
    off = members(mod)
    t = Text(fn, given).run()
    rep.count('states visited', t.visited)

    def bad(key, ins, msg):
        rep.violation('%s:%s' % (prog, key), ins.loc(), msg)
    for st, p, ins in t.made:
        n = t.length(st)
        rep.count('accepted forms judged', 1)
        if '#err' in st.env:
            bad('after-error', ins, 'a date is formatted although an error was found in it')
            continue
        if n is None or n not in LENGTHS:
            bad('length:%s' % ('long' if n is None or n > 19 else n), ins,
                'a date is accepted although it is not complete or goes on after its last field (%s)' % (
                    show(st, t, n if n is not None else 19) or 'empty'))
            continue
        for k in range(n):
            c = t.cl(st, k)
            if not c <= allowed(k):
                bad('char:%d' % k, ins, 'a date is accepted with the character %r at position %d' % (
                    chr(min(x for x in c - allowed(k) if True) % 256), k + 1))
        for m, a, b, lo, hi, add in FIELDS:
            if m not in off:
                continue
            v = st_mem(t, st, p, off[m])
            if v is not None and v[0] == 'moved':
                bad('moved:%s' % m, ins, 'the field %s is as mktime left it, which is not the declared time when that does not exist '
                    'in the timezone of the system' % m)
                continue
            if v is None and ins.callee == 'strftime':
                raise Undecided('the value of %s' % m)
            if b >= n:
                if v != ('k', 0):
                    bad('unset:%s' % m, ins, 'the field %s is not zero although the date does not have it' % m)
                continue
            if m == 'tm_mday':
                lo, hi = dayrange or (-10 ** 9, 10 ** 9)
            want = form_of(a, b)
            w = t.norm(st, want[0] + add, want[1])
            rep.count('fields judged', 1)
            if v != w:
                # equal up to the facts?
                d = None
                fa, fb = t.affine(v), t.affine(w)
                if fa and fb:
                    d = t.norm(st, fa[0] - fb[0], fa[1] + tuple((q, -x) for q, x in fb[1]))
                if d is None:
                    raise Undecided('the value of %s' % m)
                if d != ('k', 0):
                    bad('value:%s' % m, ins, 'the field %s does not have the value that is written at position %d' % (m, a + 1))
                    continue
            l, h = t.span(st, w)
            if l < lo + add or h > hi + add:
                bad('range:%s' % m, ins, 'a date is accepted with a %s of %d (%s)' % (
                    m, (h - add) if h > hi + add else (l - add), show(st, t, n)))
    for st, v, ins in t.results:
        if st.env.get('#formatted') is not None:
            continue
        e = st.mem.get(('ERR', 0))
        if v is not None and v == ('k', 0) and e == ('k', 0) and any(k in st.cls for k in range(MAX)):
            bad('silent', ins, 'no result and no error')
    for st, ins in t.refused if exact else ():
        # is a valid date refused?
        if not any(k in st.cls for k in range(MAX)):
            continue
        n = t.length(st)
        if n is not None and n not in LENGTHS:
            continue
        rep.count('refusals judged', 1)
        ok = True
        last = -1
        for k in range(MAX):
            if k not in st.cls and k not in given or n is not None and k >= n:
                break
            last = k
            if k >= len(FORM) or not t.cl(st, k) & allowed(k):
                ok = False
                break
        if not ok:
            continue
        y = st.copy()
        for k in range(last + 1):
            y.cls[k] = t.cl(st, k) & allowed(k)
        for m, a, b, lo, hi, add in FIELDS:
            if a > last:
                break
            if m == 'tm_mday':
                lo, hi = dayrange
            e = min(b, last)
            want = form_of(a, e)
            w = t.norm(y, want[0], want[1])
            l, h = t.span(y, w)
            x = 10 ** (b - e)
            if h * x + x - 1 < lo or l * x > hi:
                ok = False
                break
        if ok:
            bad('refused:%d' % last, ins, 'a valid date is refused at position %d (%s)' % (last + 1, show(st, t, last + 1)))


def st_mem(t, st, p, off):
    q = (p[1], p[2] + off)
    if q in st.mem:
        return st.mem[q]
    if p[1] in st.zero:
        return ('k', 0)
    return None


def digits(pos, text):
    return {pos + k: ord(c) for k, c in enumerate(text)}


def analyse(rep, prog, mod):
    fn = mod.fns.get(FN)
    if fn is None:
        raise AnalysisBroken('no function ' + FN)
    try:
        judge(rep, prog, fn, mod, {}, None, False)
        for m in range(12):
            rep.count('months examined')
            if m == 1:
                judge(rep, prog, fn, mod, digits(5, '02'), (1, 29), False)
                for y in (1900, 2000, 2015, 2016, 2096, 2100, 2399, 2400, 9996):
                    leap = y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)
                    judge(rep, prog, fn, mod, {**digits(5, '02'), **digits(0, str(y))}, (1, 29 if leap else 28), True)
                continue
            judge(rep, prog, fn, mod, digits(5, '%02d' % (m + 1)), (1, MONTH[m]), True)
        rep.count('date parsers decided')
    except Undecided as e:
        rep.count('date parser not decided: %s' % e)


def run(rep, tier):
    rep.rule("blogc_convert_datetime is interpreted abstractly for all texts: each character has a set of possible values, "
             "everything computed from characters is a linear form over them, and each path of the parser refines these. Where the "
             "date is handed to mktime or strftime the text must have one of the lengths 10, 13, 16, 19 (the four documented "
             "forms), a digit or the separator at every position, each field of struct tm must be the linear form of its digits "
             "(zero when the date does not have it) and lie in its calendar range, the day in its month, and no error may have been "
             "found before. After mktime, which moves a time that the timezone skips, the declared fields must be back in place before they are formatted. Where an error is made, the text read so far must not be extensible to a valid date. A NULL without an "
             "error is reported. The month is enumerated; February with nine years that cover every case of the leap year rule.")
    rep.assumption('the day is examined for the years 1900, 2000, 2015, 2016, 2096, 2100, 2399, 2400 and 9996 in February and for all '
                   'years in the other months; a second of 60 is a leap second')
    for p, mod in lib.progs(['blogc']):
        analyse(rep, p, mod)

    def ex(**kw):
        q = lib.Quiet()
        analyse(q, 'x', frontend.snippet(BASE % dict(GOOD, **kw)))
        return q.v

    def has(x, v):
        return any(x in k for k in v)
    rep.selftest('clean', [k for k in ex() if not ('refused:12' in k or 'refused:15' in k or 'refused:18' in k)] == [])
    rep.selftest('length', has('length', ex(len='n < 10')) and has('length', ex(len='n != 10 && n != 12')))
    rep.selftest('refused form', has('refused:12', ex()))
    rep.selftest('character', has('char:4', ex(form='dddd.dd-dd')) and has('char', ex(digit='ch < 47')))
    rep.selftest('value', has('value:tm_mday', ex(day='N2(5)')))
    rep.selftest('range', has('range:tm_mon', ex(mon='12')))
    rep.selftest('refused', has('refused:6', ex(mon='10')) or has('refused:9', ex(mon='10')))
    rep.selftest('leap', has('range:tm_mday', ex(leap='0')) or has('refused:9', ex(leap='0')))
    rep.selftest('moved', has('moved:tm_hour', ex(mk='mktime(&t);')) and not has('moved', ex(mk='''struct tm u = t; mktime(&t); t.tm_year = u.tm_year;
        t.tm_mon = u.tm_mon; t.tm_mday = u.tm_mday; t.tm_hour = u.tm_hour; t.tm_min = u.tm_min; t.tm_sec = u.tm_sec;''')))
    rep.selftest('silent', has('silent', ex(report='')))


GOOD = dict(len='n != 10', form='dddd-dd-dd', digit='ch < 48', day='N2(8)', mon='11', leap='y % 4 == 0 && (y % 100 != 0 || y % 400 == 0)',
            report='*err = bc_error_new(1, "bad");',
            mk='struct tm u = t; mktime(&u); t.tm_wday = u.tm_wday;')
BASE = r"""
#include <string.h>
#include <time.h>
typedef struct bc_error bc_error_t;
bc_error_t *bc_error_new(int t, const char *m);
char *bc_strdup(const char *s);
static const int len[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
char *blogc_convert_datetime(const char *orig, const char *format, bc_error_t **err)
{
    static const char form[] = "%(form)s";
    struct tm t;
    char buf[100];
    size_t n = 0;
    memset(&t, 0, sizeof(t));
    while (orig[n] != 0 && n < 20) n++;
    if (%(len)s) { *err = bc_error_new(1, "len"); return NULL; }
    for (size_t i = 0; i < 10; i++) {
        char ch = orig[i];
        if (form[i] == 'd' ? (%(digit)s || ch > 57) : ch != form[i]) { %(report)s return NULL; }
    }
#define N2(k) ((orig[k] - '0') * 10 + orig[(k) + 1] - '0')
    int y = N2(0) * 100 + N2(2);
    t.tm_year = y - 1900;
    t.tm_mon = N2(5) - 1;
    t.tm_mday = %(day)s;
    if (t.tm_year < 0 || t.tm_mon < 0 || t.tm_mon > %(mon)s || t.tm_mday < 1) { *err = bc_error_new(1, "date"); return NULL; }
    int last = len[t.tm_mon] + (t.tm_mon == 1 && (%(leap)s));
    if (t.tm_mday > last) { *err = bc_error_new(1, "date"); return NULL; }
    %(mk)s
    strftime(buf, sizeof(buf), format, &t);
    return bc_strdup(buf);
}
"""
