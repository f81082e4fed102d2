"""Abstract interpretation of integer and text-pointer variables with difference bounds.

A state is a closed set of constraints x - y <= c over SSA atoms, the constant values of mode variables (state of a
hand-written automaton, flags), which pointers into texts are null, and the possible characters at text positions.
States of a block with equal modes and null flags are joined; counters are widened at loop heads.

A text is the object a character pointer was derived from; T:<root> is the position of its terminator, which is the
last readable position.  Pointers into it are represented by their offset."""
import re
from . import ditypes, lib
from .frontend import AnalysisBroken

INF = float('inf')
ALLC = (1 << 256) - 1
THR = (-2, -1, 0, 1, 2, 3)

# functions that return a pointer into their argument: at or after it, before the terminator
FIND = {'strchr': 0, 'strrchr': 0, 'strstr': 0, 'strpbrk': 0, 'memchr': 0, 'bc_str_find': 0, 'strcasestr': 0, 'strchrnul': 0,
        'bc_str_lstrip': 0, 'bc_str_rstrip': 0, 'bc_str_strip': 0}
NONNULL = {'bc_str_lstrip', 'bc_str_rstrip', 'bc_str_strip', 'strchrnul'}


class TooMany(Exception):
    pass


class Dbm:
    __slots__ = ('d',)

    def __init__(s):
        s.d = {}

    def copy(s):
        n = Dbm()
        n.d = {k: dict(v) for k, v in s.d.items()}
        return n

    def ub(s, x, y):
        """least c with x - y <= c"""
        if x == y:
            return 0
        r = s.d.get(x)
        return INF if r is None else r.get(y, INF)

    def add(s, x, y, c):
        """x - y <= c; False when that contradicts"""
        if x == y:
            return c >= 0
        d = s.d
        r = d.setdefault(x, {})
        if r.get(y, INF) <= c:
            return True
        if s.ub(y, x) + c < 0:
            return False
        into = [(x, 0)] + [(a, ra[x]) for a, ra in d.items() if a != x and x in ra]
        outof = [(y, 0)] + [(b, q) for b, q in d.get(y, {}).items() if b != y]
        for a, p in into:
            ra = d.setdefault(a, {})
            for b, q in outof:
                if a != b:
                    t = p + c + q
                    if ra.get(b, INF) > t:
                        ra[b] = t
                        if t + s.ub(b, a) < 0:
                            return False
        return True

    def forget(s, v):
        s.d.pop(v, None)
        for r in s.d.values():
            r.pop(v, None)

    def keep(s, names):
        for v in [v for v in s.d if v != '%0' and v not in names]:
            s.forget(v)
        for r in s.d.values():
            for v in [v for v in r if v != '%0' and v not in names]:
                del r[v]

    def rename(s, m):
        n = {}
        for x, r in s.d.items():
            n[m.get(x, x)] = {m.get(y, y): c for y, c in r.items()}
        s.d = n

    def join(s, o):
        """least upper bound in place; True when something was lost"""
        ch = False
        for x, r in s.d.items():
            q = o.d.get(x)
            for y in list(r):
                c = INF if q is None else q.get(y, INF)
                if c > r[y]:
                    ch = True
                    if c == INF:
                        del r[y]
                    else:
                        r[y] = c
        return ch

    def widen(s, o):
        """join, constraints that grow go to the next threshold"""
        ch = False
        for x, r in s.d.items():
            q = o.d.get(x)
            for y in list(r):
                c = INF if q is None else q.get(y, INF)
                if c > r[y]:
                    ch = True
                    t = next((k for k in THR if k >= c), INF)
                    if t == INF:
                        del r[y]
                    else:
                        r[y] = t
        return ch

    def show(s):
        r = []
        for x in sorted(s.d):
            for y in sorted(s.d[x]):
                c = s.d[x][y]
                if y == '%0':
                    r.append('%s<=%s' % (x, c))
                elif x == '%0':
                    r.append('%s>=%s' % (y, -c))
                else:
                    r.append('%s<=%s%+d' % (x, y, c))
        return ' '.join(r)


class St:
    __slots__ = ('z', 'env', 'cells', 'tags', 'up')

    def __init__(s):
        s.z, s.env, s.cells, s.tags, s.up = Dbm(), {}, {}, frozenset(), {}

    def copy(s):
        n = St()
        n.z, n.env, n.cells, n.tags, n.up = s.z.copy(), dict(s.env), dict(s.cells), s.tags, dict(s.up)
        return n


class Zone:
    """env: mode name -> int, 'n:<pointer>' -> 1 null, 0 not null"""

    def __init__(s, fn, limit=250000, maxpart=3000, modes=None):
        """modes: state variables to keep apart (default: all)"""
        s.fn, s.mod = fn, fn.module
        s.limit, s.maxpart = limit, maxpart
        s.visited = 0
        s.pinned = set()          # names that are never dropped (ghosts)
        s.params = [p for p, _ in fn.params]
        s.modes = set(lib.mode_phis(fn))
        s._bools()
        if modes is not None:
            s.modes &= modes
            s.bools = {b for b in s.bools if b in modes or fn.defs[b].type == 'i1' and not any(
                fn.bdom(fn.defs[b].block, fn.blocks[p]) for _, p in fn.defs[b].extra)}
        s._zeros()
        s.sums = {}
        s._roots()
        s._live()
        s.lens = {}               # text parameter -> length parameter
        ps = fn.params
        for k, (p, t) in enumerate(ps):
            if t == 'ptr' and k + 1 < len(ps) and ps[k + 1][1] == 'i64' and s.ischar(('l', p)):
                s.lens[p] = ps[k + 1][0]

    # ---- preparation
    def ischar(s, op):
        return ischar(s.fn, op)

    def _bools(s):
        """phis that hold truth values: constants and comparisons"""
        fn = s.fn
        cand = {}
        for i in fn.instrs():
            if i.op == 'phi' and i.type in ('i1', 'i8', 'i32') and i.res not in s.modes:
                cand[i.res] = i
        ch = True
        while ch:
            ch = False
            for r, i in list(cand.items()):
                for v, _ in i.extra:
                    o = s.unwrap(v)
                    if o[0] in ('i', 'undef', 'poison'):
                        if o[0] == 'i' and o[1] in (0, 1, -1):
                            continue
                    elif o[0] == 'l':
                        d = fn.defs.get(o[1])
                        if o[1] in cand or o[1] in s.modes or d is not None and d.type == 'i1' and d.op in ('icmp', 'xor', 'and', 'or') or \
                                d is not None and d.op == 'icmp':
                            continue
                        if d is not None and d.op == 'call' and s.boolcall(d):
                            continue
                        if d is not None and d.op == 'load' and v != o and i.type == 'i1':
                            continue
                    del cand[r]
                    ch = True
                    break
        s.bools = set(cand)

    def _zeros(s):
        """numbers with a special value that is tested for: phi -> value"""
        fn = s.fn
        s.special = {}
        for b in fn.blocks.values():
            for i in b.phis():
                if i.type in ('ptr', 'i1') or i.res in s.modes or i.res in s.bools or any(fn.bdom(b, fn.blocks[p]) for _, p in i.extra):
                    continue
                ks = {v[1] for v, _ in i.extra if v[0] == 'i'}
                if len(ks) == 1 and any(v[0] != 'i' for v, _ in i.extra):
                    s.special[i.res] = ks.pop()
        used = set()
        for i in fn.instrs():
            if i.op == 'icmp' and i.extra in ('eq', 'ne', 'ugt', 'sgt') and i.args[0][0] == 'l' and i.args[1][0] == 'i' and s.special.get(i.args[0][1]) == i.args[1][1]:
                used.add(i.args[0][1])
        work = list(used)
        while work:
            for v, _ in fn.defs[work.pop()].extra:
                if v[0] == 'l' and v[1] in s.special and v[1] not in used:
                    used.add(v[1])
                    work.append(v[1])
        s.special = {k: v for k, v in s.special.items() if k in used}

    def pair(s, p, n):
        """follow the sum of the offset of a moving pointer and the length that is left"""
        fn = s.fn
        for b in fn.blocks.values():
            r = {i.res: i for i in b.phis()}
            if p in r and n in r:
                s.sums['S:%s+%s' % (p, n)] = (b, r[p], r[n])

    def boolcall(s, d):
        return d.type == 'i1'

    def unwrap(s, op):
        """through width conversions of truth values"""
        n = 0
        while op[0] == 'l' and n < 10:
            n += 1
            d = s.fn.defs.get(op[1])
            if d is None:
                break
            if d.op in ('zext', 'freeze') or d.op == 'trunc' and d.type == 'i1' or d.op in ('trunc', 'sext') and False:
                if d.op == 'zext' and d.extra not in ('i1', 'i8'):
                    break
                op = d.args[0]
                continue
            break
        return op

    def _roots(s):
        """text a pointer belongs to"""
        fn = s.fn
        s.root = {}
        ptr = [i for i in fn.instrs() if i.type == 'ptr' and i.res is not None]
        cand = {}
        for i in ptr:
            if i.op in ('phi', 'select'):
                cand[i.res] = None
        # optimistic fixpoint: None unknown yet, '' mixed
        def rt(op, depth=0):
            if op[0] in ('null', 'undef', 'poison', 'zero'):
                return None
            if op[0] == 'g':
                return '@' + op[1]
            if op[0] == 'gep':
                return rt(op[1])
            if op[0] != 'l':
                return ''
            d = fn.defs.get(op[1])
            if d is None:
                return op[1]
            if d.op in ('phi', 'select'):
                return cand[op[1]]
            if d.op == 'getelementptr':
                if d.extra == 'i8' or isinstance(d.extra, tuple) and d.extra[0] == 'arr' and d.extra[2] == 'i8':
                    return rt(d.args[0], depth + 1)
                return op[1]
            if d.op in ('bitcast', 'freeze'):
                return rt(d.args[0], depth + 1)
            if d.op == 'call' and d.callee in FIND:
                return rt(d.args[FIND[d.callee]])
            return op[1]
        ch = True
        n = 0
        while ch and n < 50:
            ch, n = False, n + 1
            for i in ptr:
                if i.op not in ('phi', 'select'):
                    continue
                vs = [v for v, _ in i.extra] if i.op == 'phi' else i.args[1:]
                r = cand[i.res]
                for v in vs:
                    q = rt(v)
                    if q is None or r == '':
                        continue
                    if r is None:
                        r = q
                    elif r != q:
                        r = ''
                if r != cand[i.res]:
                    cand[i.res] = r
                    ch = True
        for k, v in cand.items():
            s.root[k] = k if v in ('', None) else v
        s._rt = rt
        # texts the function writes into: they may end earlier than the last position
        s.cut = set()
        # buffers that need not have a terminator
        s.raw = set()
        for i in fn.instrs():
            if i.op == 'store' and i.args[1][0] == 'l' and i.extra == 'i8':
                r = rt(i.args[1])
                if r:
                    s.cut.add(r)
            elif i.op == 'call' and i.callee in ('read', 'recv', 'fread'):
                r = rt(i.args[0 if i.callee == 'fread' else 1])
                if r:
                    s.cut.add(r)
                    s.raw.add(r)
            elif i.op == 'call' and i.callee in ('memcpy', 'memmove', 'snprintf', 'strcpy', 'strcat', 'fgets', 'bc_str_strip', 'bc_str_rstrip') or \
                    i.op == 'call' and i.callee is not None and i.callee.startswith('llvm.mem'):
                for a in i.args[:1]:
                    r = rt(a) if a[0] == 'l' else None
                    if r:
                        s.cut.add(r)
        # pointers whose nullness is followed
        s.nul = set()
        for i in ptr:
            if i.op == 'phi' and s.root[i.res] != i.res or i.op == 'call' and i.callee in FIND and i.callee not in NONNULL:
                s.nul.add(i.res)
        ch = True
        while ch:
            ch = False
            for i in ptr:
                if i.op == 'phi' and i.res not in s.nul and any(v[0] == 'l' and v[1] in s.nul for v, _ in i.extra):
                    s.nul.add(i.res)
                    ch = True

    def isatom(s, name):
        d = s.fn.defs.get(name)
        if d is None:
            return True
        if d.op == 'phi' or d.op == 'zext' and s.i8load(d.args[0]):
            return True
        return d.op not in ('add', 'sub', 'zext', 'sext', 'trunc', 'ptrtoint', 'freeze', 'bitcast', 'getelementptr', 'icmp', 'xor', 'and', 'or',
                            'shl', 'mul', 'br', 'ret', 'switch')

    def _live(s):
        """names needed at block entry, including the atoms behind live values"""
        fn = s.fn
        from .ir import operands, walk
        memo = {}

        def atoms(n, depth=0):
            if n in memo:
                return memo[n]
            memo[n] = {n}
            d = fn.defs.get(n)
            r = {n}
            if d is not None and d.op not in ('phi', 'call', 'load', 'alloca'):
                for a in d.args:
                    for x in walk(a):
                        if x[0] == 'l':
                            r |= atoms(x[1])
            elif d is not None and d.op == 'load':
                for x in walk(d.args[0]):
                    if x[0] == 'l':
                        r |= atoms(x[1])
            memo[n] = r
            return r
        use, df, phiuse = {}, {}, {}
        for b in fn.blocks.values():
            u, d = set(), set()
            for i in b.instrs:
                if i.op == 'phi':
                    for v, pb in i.extra:
                        for x in walk(v):
                            if x[0] == 'l':
                                phiuse.setdefault(pb, set()).update(atoms(x[1]))
                    continue
                for a in operands(i):
                    for x in walk(a):
                        if x[0] == 'l':
                            u |= {y for y in atoms(x[1]) if y not in d}
                if i.res is not None:
                    d.add(i.res)
            use[b], df[b] = u, d
        live = {b: set() for b in fn.blocks.values()}
        ch = True
        while ch:
            ch = False
            for b in reversed(list(fn.blocks.values())):
                out = set(phiuse.get(b.name, ()))
                for x in b.succs:
                    out |= live[x] - {p.res for p in x.phis()}
                n = use[b] | (out - df[b])
                if n != live[b]:
                    live[b] = n
                    ch = True
        s.live = live
        s.phiuse = phiuse

    # ---- linear forms: (const, {atom: coef})
    def lin(s, st, op, depth=0):
        k = op[0]
        if k == 'i':
            return (op[1], {})
        if k in ('null', 'zero'):
            return (0, {})
        if k == 'cast':
            return s.lin(st, op[2], depth)
        if k != 'l' or depth > 25:
            return None
        n = op[1]
        if n in st.env:
            return (st.env[n], {})
        d = s.fn.defs.get(n)
        if d is None or d.op in ('phi', 'load', 'call'):
            return (0, {n: 1})
        if d.op in ('add', 'sub'):
            a, b = s.lin(st, d.args[0], depth + 1), s.lin(st, d.args[1], depth + 1)
            if a is None or b is None:
                return None
            return plus(a, b, 1 if d.op == 'add' else -1)
        if d.op == 'zext' and s.i8load(d.args[0]):
            return (0, {n: 1})
        if d.op in ('zext', 'sext', 'trunc', 'freeze', 'bitcast'):
            return s.lin(st, d.args[0], depth + 1)
        if d.op == 'ptrtoint':
            p = s.plin(st, d.args[0])
            if p is None:
                return None
            return plus(p[1], (0, {'A:' + p[0]: 1}), 1)
        if d.op == 'mul' and d.args[1][0] == 'i':
            a = s.lin(st, d.args[0], depth + 1)
            return None if a is None else (a[0] * d.args[1][1], {k: v * d.args[1][1] for k, v in a[1].items()})
        return (0, {n: 1})

    def plin(s, st, op, depth=0):
        """(text, offset)"""
        if op[0] == 'g':
            return ('@' + op[1], (0, {}))
        if op[0] == 'gep':
            b = s.plin(st, op[1], depth + 1)
            o = ditypes.gepoff(s.mod, op[2], list(op[3:]))
            return None if b is None or o is None else (b[0], plus(b[1], (o, {}), 1))
        if op[0] != 'l' or depth > 25:
            return None
        n = op[1]
        d = s.fn.defs.get(n)
        if d is None:
            return (n, (0, {}))
        if d.op == 'getelementptr':
            if d.extra == 'i8':
                b = s.plin(st, d.args[0], depth + 1)
                o = s.lin(st, d.args[1], depth + 1)
                return None if b is None or o is None else (b[0], plus(b[1], o, 1))
            if isinstance(d.extra, tuple) and d.extra[0] == 'arr' and d.extra[2] == 'i8' and len(d.args) == 3 and d.args[1] == ('i', 0):
                b = s.plin(st, d.args[0], depth + 1)
                o = s.lin(st, d.args[2], depth + 1)
                return None if b is None or o is None else (b[0], plus(b[1], o, 1))
            return (n, (0, {}))
        if d.op in ('bitcast', 'freeze'):
            return s.plin(st, d.args[0], depth + 1)
        if d.op in ('phi', 'select'):
            r = s.root.get(n, n)
            if r != n:
                return (r, (0, {n: 1}))
            return (n, (0, {}))
        if d.op == 'call' and d.callee in FIND:
            b = s.plin(st, d.args[FIND[d.callee]], depth + 1)
            return (b[0], (0, {n: 1})) if b is not None else (n, (0, {}))
        return (n, (0, {}))

    def ub(s, st, l):
        """upper bound of a linear form"""
        best = s.ub1(st, l)
        if best > 0 and s.sums:
            for k, (b, p, n) in s.sums.items():
                for v, w in ((p.res, n.res), (n.res, p.res)):
                    if l[1].get(v) == 1 and not l[1].get(w):
                        best = min(best, s.ub1(st, plus(plus(l, (0, {v: 1}), -1), (0, {k: 1, w: -1}), 1)))
        if best > 0 and st.up and len(l[1]) > 1:
            for v, k in l[1].items():
                if k != 1:
                    continue
                for u, f in st.up.items():
                    e = st.z.ub(v, u)
                    if e < INF:
                        d = plus(plus(l, (0, {v: 1}), -1), f, 1)
                        if len(d[1]) < len(l[1]):
                            best = min(best, s.ub1(st, d) + e)
        return best

    def drop(s, st, v):
        """forget upper bounds that mention a variable"""
        for k in [k for k, f in st.up.items() if k == v or v in f[1]]:
            del st.up[k]

    def ub1(s, st, l):
        c, co = l
        for k, (b, p, n) in s.sums.items():
            q = co.get(p.res, 0)
            if q and co.get(n.res) == q:
                co = dict(co)
                del co[p.res], co[n.res]
                co[k] = co.get(k, 0) + q
        pos = [k for k, v in co.items() for _ in range(v if v > 0 else 0)]
        neg = [k for k, v in co.items() for _ in range(-v if v < 0 else 0)]
        while len(pos) < len(neg):
            pos.append('%0')
        while len(neg) < len(pos):
            neg.append('%0')
        if len(pos) > 4:
            return INF
        best = INF
        import itertools
        for p in itertools.permutations(neg):
            t = sum(st.z.ub(a, b) for a, b in zip(pos, p))
            best = min(best, t)
        return best + c if pos else c

    def le(s, st, a, b, k=0):
        """is a <= b + k certain"""
        if a is None or b is None:
            return False
        return s.ub(st, plus(a, b, -1)) <= k

    def restrict(s, st, l, c=0):
        """assume linear form <= c; False: impossible"""
        k, co = l
        k -= c
        if not co:
            return k <= 0
        it = [(a, v) for a, v in co.items()]
        if len(it) == 1 and abs(it[0][1]) == 1:
            a, v = it[0]
            return st.z.add(a, '%0', -k) if v > 0 else st.z.add('%0', a, -k)
        if len(it) == 2 and {it[0][1], it[1][1]} == {1, -1}:
            x = it[0][0] if it[0][1] > 0 else it[1][0]
            y = it[0][0] if it[0][1] < 0 else it[1][0]
            return st.z.add(x, y, -k)
        # several variables: every pair with bounds for the rest
        if s.ub(st, (-k, {a: -v for a, v in co.items()})) < 0:
            return False
        if all(abs(v) == 1 for v in co.values()) and len(it) <= 4:
            for x, vx in it:
                rest = {a: -v for a, v in it if a != x}
                # vx*x <= -k + rest
                for y in [a for a, v in rest.items() if v == vx] + ['%0']:
                    r2 = {a: v for a, v in rest.items() if a != y}
                    u = s.ub(st, (-k, r2))
                    if u < INF and not (st.z.add(x, y, u) if vx > 0 else st.z.add(y, x, u)):
                        return False
        return True

    def setvar(s, st, v, l):
        """v := linear form over other atoms (v itself is new)"""
        st.z.forget(v)
        if st.up:
            s.drop(st, v)
        if l is None:
            return
        c, co = l
        if len(co) == 2 and v not in co:
            st.up[v] = l
        if all(a in () for a in co) and not co:
            st.z.add(v, '%0', c)
            st.z.add('%0', v, -c)
            return
        if len(co) == 1 and list(co.values())[0] == 1:
            a = next(iter(co))
            st.z.add(v, a, c)
            st.z.add(a, v, -c)
            return
        new = []
        for y in list(co) + ['%0'] + [p for p in s.params if p in st.z.d] + [a for f in st.up.values() for a in f[1] if a not in co]:
            d = plus(l, (0, {y: 1} if y != '%0' else {}), -1)
            u = s.ub(st, d)
            if u < INF:
                new.append((v, y, u))
            u = s.ub(st, neg(d))
            if u < INF:
                new.append((y, v, u))
        for x, y, u in new:
            st.z.add(x, y, u)

    def forgetvar(s, st, v):
        st.z.forget(v)
        if st.up:
            s.drop(st, v)
        for k in [k for k in st.cells if k[1] == v or k[0] == v]:
            del st.cells[k]

    # ---- characters
    def cellkey(s, st, ptr):
        p = s.plin(st, ptr)
        if p is None:
            return None
        c, co = p[1]
        if not co:
            return (p[0], '', c)
        if len(co) == 1 and list(co.values())[0] == 1:
            return (p[0], next(iter(co)), c)
        return None

    def charload(s, op):
        """the load instruction of a character behind width conversions"""
        n = 0
        while op[0] == 'l' and n < 6:
            n += 1
            d = s.fn.defs.get(op[1])
            if d is None:
                return None
            if d.op in ('sext', 'zext', 'trunc', 'freeze'):
                op = d.args[0]
                continue
            return d if d.op == 'load' and d.type == 'i8' else None
        return None

    def charset(s, st, d):
        k = s.cellkey(st, d.args[0])
        if k is None:
            k = ('ssa', d.res, 0)
        return k, st.cells.get(k, ALLC)

    def refine_char(s, st, d, pred, c):
        """character compared with a constant"""
        sel = 0
        for x in range(256):
            v = x - 256 if x > 127 else x
            if pred[0] == 'u':
                v = x
            t = {'eq': v == c or x == c % 256 and -128 <= c < 256, 'ne': not (v == c or x == c % 256 and -128 <= c < 256), 'slt': v < c, 'sle': v <= c, 'sgt': v > c, 'sge': v >= c, 'ult': v < c,
                 'ule': v <= c, 'ugt': v > c, 'uge': v >= c}[pred]
            if t:
                sel |= 1 << x
        return s.setchars(st, d, sel)

    def setchars(s, st, d, sel):
        k, cur = s.charset(st, d)
        n = cur & sel
        if n == 0:
            return False
        if n != ALLC:
            st.cells[k] = n
        if not n & 1 and k[0] != 'ssa' and k[0] not in s.raw:
            # not the terminator: inside the text
            p = s.plin(st, d.args[0])
            t = (0, {'T:' + p[0]: 1})
            if s.le(st, p[1], t):
                return s.restrict(st, plus(p[1], t, -1), -1)
        return True

    # ---- conditions
    NEG = {'eq': 'ne', 'ne': 'eq', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt', 'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt'}
    FLIP = {'eq': 'eq', 'ne': 'ne', 'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle', 'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule'}

    def assume(s, st, op, truth, depth=0):
        """states after assuming the truth value: list (empty: impossible)"""
        if op[0] == 'i':
            return [st] if (op[1] & 1) == int(truth) else []
        if op[0] != 'l' or depth > 30:
            return [st]
        n = op[1]
        if n in st.env:
            return [st] if (st.env[n] != 0) == truth else []
        d = s.fn.defs.get(n)
        if d is None:
            if s.isboolparam(n):
                st.env[n] = int(truth)
            return [st]
        if d.op in ('zext', 'freeze', 'trunc'):
            return s.assume(st, d.args[0], truth, depth + 1)
        if d.op == 'xor' and d.args[1][0] == 'i' and d.args[1][1] in (1, -1):
            return s.assume(st, d.args[0], not truth, depth + 1)
        if d.op in ('and', 'or') and d.type == 'i1':
            if (d.op == 'and') == truth:
                out = []
                for x in s.assume(st, d.args[0], truth, depth + 1):
                    out += s.assume(x, d.args[1], truth, depth + 1)
                return out
            out = s.assume(st.copy(), d.args[0], truth, depth + 1)
            for x in s.assume(st, d.args[0], not truth, depth + 1):
                out += s.assume(x, d.args[1], truth, depth + 1)
            return out
        if d.op == 'select' and d.type == 'i1':
            out = []
            for x in s.assume(st.copy(), d.args[0], True, depth + 1):
                out += s.assume(x, d.args[1], truth, depth + 1)
            for x in s.assume(st, d.args[0], False, depth + 1):
                out += s.assume(x, d.args[2], truth, depth + 1)
            return out
        if d.op == 'phi' and n in s.bools:
            st.env[n] = int(truth)
            return [st]
        if d.op == 'load' and d.type in ('i8', 'i1'):
            return [st]
        if d.op == 'call' and d.callee in s.mod.fns and d.callee not in ('bc_str_starts_with', 'bc_str_ends_with'):
            m = s.argmap(st, d)
            for x, y, c in outcome(s.mod, d.callee)[int(truth)]:
                if x in m and y in m and not s.restrict(st, plus(m[x], m[y], -1), c):
                    return []
            return [st]
        if d.op == 'call' and truth and d.callee in ('bc_str_starts_with', 'bc_str_ends_with'):
            x, y = s.strlen_of(st, d.args[0]), s.strlen_of(st, d.args[1])
            if x is not None and y is not None:
                p = s.plin(st, d.args[0])
                if p[0] not in s.cut:
                    return [st] if s.restrict(st, plus(y, x, -1)) else []
                if not p[1][1] and not p[1][0] and not y[1]:
                    st.z.add('%0', 'E:' + p[0], -y[0])
            return [st]
        if d.op == 'icmp':
            return s.compare(st, d.extra if truth else s.NEG[d.extra], d.args[0], d.args[1], depth)
        return [st]

    def argmap(s, st, d):
        """what the parameters of the callee and the ends of its texts are here"""
        m = {'%0': (0, {})}
        for k, (p, t) in enumerate(s.mod.fns[d.callee].params[:len(d.args)]):
            if t == 'ptr':
                q = s.plin(st, d.args[k])
                if q is not None and q[1] is not None and q[0] not in s.cut:
                    m['T:' + p] = plus(s.end(q[0]), q[1], -1)
            else:
                l = s.lin(st, d.args[k])
                if l is not None:
                    m[p] = l
        return m

    def isboolparam(s, n):
        return any(p == n and t == 'i1' for p, t in s.fn.params)

    def istruth(s, op):
        o = s.unwrap(op)
        if o[0] != 'l':
            return None
        d = s.fn.defs.get(o[1])
        if d is None:
            return o if s.isboolparam(o[1]) else None
        if d.type == 'i1' or d.op == 'icmp' or o[1] in s.bools:
            return o
        return None

    def compare(s, st, pred, a, b, depth=0):
        if a[0] in ('i', 'null') and b[0] not in ('i', 'null'):
            a, b, pred = b, a, s.FLIP[pred]
        # truth values compared with 0 or 1
        t = s.istruth(a)
        if t is not None and b[0] == 'i' and pred in ('eq', 'ne') and b[1] in (0, 1):
            return s.assume(st, t, (b[1] == 1) == (pred == 'eq'), depth + 1)
        # pointers
        if s.isptr(a) or s.isptr(b):
            return s.compare_ptr(st, pred, a, b)
        c = s.charload(a)
        if c is not None:
            if b[0] == 'i':
                return [st] if s.refine_char(st, c, pred, b[1]) else []
            c2 = s.charload(b)
            if c2 is not None and pred == 'eq':
                x = s.charset(st, c)[1] & s.charset(st, c2)[1]
                return [st] if x and s.setchars(st, c, x) and s.setchars(st, c2, x) else []
            return [st]
        if a[0] == 'l' and a[1] in s.special and b == ('i', s.special[a[1]]) and pred in ('eq', 'ne'):
            f = st.env.get('z:' + a[1])
            if f is not None:
                return [st] if (f == 1) == (pred == 'eq') else []
        if pred == 'eq' and b == ('i', 0) and a[0] == 'l':
            d = s.fn.defs.get(a[1])
            if d is not None and d.op == 'call' and d.callee in ('strcmp', 'strncmp', 'memcmp'):
                return s.equal_texts(st, d)
        x, y = s.lin(st, a), s.lin(st, b)
        if x is None or y is None:
            return [st]
        d = plus(x, y, -1)
        ok = True
        if pred[0] == 'u':
            nx, ny = s.ub(st, neg(x)) <= 0, s.ub(st, neg(y)) <= 0
            if pred in ('ult', 'ule'):
                if not ny:
                    return [st]
                if not nx:
                    ok = s.restrict(st, neg(x))
            else:
                if not nx:
                    return [st]
                if not ny:
                    ok = s.restrict(st, neg(y))
            pred = 's' + pred[1:]
        if not ok:
            return []
        if pred == 'eq':
            ok = s.restrict(st, d) and s.restrict(st, neg(d))
        elif pred == 'ne':
            u, l = s.ub(st, d), -s.ub(st, neg(d))
            if u == 0 and l == 0:
                return []
            if u == 0:
                ok = s.restrict(st, d, -1)
            elif l == 0:
                ok = s.restrict(st, neg(d), -1)
        elif pred == 'slt':
            ok = s.restrict(st, d, -1)
        elif pred == 'sle':
            ok = s.restrict(st, d)
        elif pred == 'sgt':
            ok = s.restrict(st, neg(d), -1)
        elif pred == 'sge':
            ok = s.restrict(st, neg(d))
        return [st] if ok else []

    def equal_texts(s, st, d):
        x, y = s.strlen_of(st, d.args[0]), s.strlen_of(st, d.args[1])
        if x is None or y is None:
            return [st]
        for u, v in ((x, y), (y, x)):
            root = s.plin(st, d.args[0] if u is x else d.args[1])[0]
            if root in s.cut or root in s.lens:
                continue
            n = u if d.callee == 'strcmp' else s.lin(st, d.args[2])
            # the first n characters of u are not beyond its end: v is as long
            if n is not None and (d.callee != 'strncmp' or s.le(st, n, u)) and not s.restrict(st, plus(n, v, -1)):
                return []
        return [st]

    def isptr(s, op):
        if op[0] in ('null', 'g', 'gep'):
            return True
        if op[0] != 'l':
            return False
        d = s.fn.defs.get(op[1])
        if d is not None:
            return d.type == 'ptr'
        return any(p == op[1] and t == 'ptr' for p, t in s.fn.params)

    def nullflag(s, st, op):
        """(value or None, name to set)"""
        if op[0] == 'null':
            return 1, None
        if op[0] in ('g', 'gep'):
            return 0, None
        n = op[1]
        d = s.fn.defs.get(n)
        if d is not None and d.op == 'getelementptr':
            return 0, None
        if 'n:' + n in st.env:
            return st.env['n:' + n], n
        return None, (n if n in s.nul else None)

    def compare_ptr(s, st, pred, a, b):
        for x, y in ((a, b), (b, a)):
            if y[0] == 'null' and pred in ('eq', 'ne'):
                v, n = s.nullflag(st, x)
                want = int(pred == 'eq')
                if v is not None:
                    return [st] if v == want else []
                if n is not None:
                    st.env['n:' + n] = want
                    if want:
                        s.forgetvar(st, n)
                return [st]
        p, q = s.plin(st, a), s.plin(st, b)
        if p is None or q is None or p[0] != q[0]:
            return [st]
        d = plus(p[1], q[1], -1)
        pr = pred[1:] if pred not in ('eq', 'ne') else pred
        ok = True
        if pr == 'eq':
            ok = s.restrict(st, d) and s.restrict(st, neg(d))
        elif pr == 'lt':
            ok = s.restrict(st, d, -1)
        elif pr == 'le':
            ok = s.restrict(st, d)
        elif pr == 'gt':
            ok = s.restrict(st, neg(d), -1)
        elif pr == 'ge':
            ok = s.restrict(st, neg(d))
        elif pr == 'ne':
            if s.ub(st, d) == 0:
                ok = s.restrict(st, d, -1)
            elif s.ub(st, neg(d)) == 0:
                ok = s.restrict(st, neg(d), -1)
        return [st] if ok else []

    # ---- instructions
    def newtext(s, st, root):
        s.forgetvar(st, 'T:' + root)
        st.z.forget('E:' + root)
        for k in [k for k in st.cells if k[0] == root]:
            del st.cells[k]
        st.z.add('%0', 'T:' + root, 0)

    def strlen_of(s, st, op):
        """terminator of the text relative to the pointer, as linear form"""
        p = s.plin(st, op)
        return None if p is None else plus(s.end(p[0]), p[1], -1)

    def end(s, root):
        if root[:1] == '@':
            c = s.conststr(('g', root[1:]))
            if c is not None:
                return (len(c), {})
        return (0, {'T:' + root: 1})

    def instr(s, st, i):
        """effect of an instruction that is not a phi or terminator"""
        if i.op == 'store':
            # texts that are not read only may change
            v = i.args[0]
            p = s.plin(st, i.args[1])
            if p is not None:
                st.z.forget('E:' + p[0])
                for k in [k for k in st.cells if k[0] == p[0]]:
                    del st.cells[k]
            return
        if i.res is None:
            if i.op == 'call':
                s.clobber(st, i)
            return
        if i.op == 'call':
            s.clobber(st, i)
            s.forgetvar(st, i.res)
            st.env.pop('n:' + i.res, None)
            st.env.pop(i.res, None)
            c = i.callee
            if c in FIND and len(i.args) > FIND[c]:
                p = s.plin(st, i.args[FIND[c]])
                if p is not None:
                    v = (0, {i.res: 1})
                    t = (0, {'T:' + p[0]: 1})
                    s.restrict(st, plus(p[1], v, -1))
                    if c in NONNULL:
                        s.restrict(st, plus(v, t, -1))
                    else:
                        k = 1
                        if c == 'strstr' and i.args[1][0] == 'g':
                            n = s.conststr(i.args[1])
                            if n is not None:
                                k = max(1, len(n))
                        s.restrict(st, plus(v, t, -1), -k if c != 'memchr' else 0)
                        if c == 'memchr':
                            n = s.lin(st, i.args[2])
                            if n is not None:
                                s.restrict(st, plus(plus(v, p[1], -1), n, -1), -1)
                        if c in ('strchr', 'bc_str_find', 'strrchr', 'memchr') and i.args[1][0] == 'i' and i.args[1][1] % 256:
                            st.cells[(p[0], i.res, 0)] = 1 << (i.args[1][1] % 256)
                return
            if c == 'strlen':
                n = s.strlen_of(st, i.args[0])
                v = (0, {i.res: 1})
                s.restrict(st, neg(v))
                if n is not None:
                    s.restrict(st, plus(v, n, -1))
                    p = s.plin(st, i.args[0])
                    if p[0] not in s.lens and p[0] not in s.cut:
                        s.restrict(st, plus(n, v, -1))
                    if p[0] in s.cut and p[1] == (0, {}):
                        st.z.add('E:' + p[0], i.res, 0)
                        st.z.add(i.res, 'E:' + p[0], 0)
                return
            if c == 'strnlen':
                n, v = s.strlen_of(st, i.args[0]), (0, {i.res: 1})
                s.restrict(st, neg(v))
                if n is not None:
                    s.restrict(st, plus(v, n, -1))
                n = s.lin(st, i.args[1])
                if n is not None and s.ub(st, neg(n)) <= 0:
                    s.restrict(st, plus(v, n, -1))
                return
            if i.type == 'ptr':
                s.newtext(st, i.res)
                if c in ('bc_strndup', 'strndup'):
                    n = s.lin(st, i.args[1])
                    if n is not None:
                        s.restrict(st, plus((0, {'T:' + i.res: 1}), n, -1))
                elif c in ALLOC and ALLOC[c] < len(i.args):
                    n = s.lin(st, i.args[ALLOC[c]])
                    st.z.forget('T:' + i.res)
                    if n is not None:
                        s.setvar(st, 'T:' + i.res, plus(n, (1, {}), -1))
                elif c == 'bc_strdup_printf' and len(i.args) > 1 and s.conststr(i.args[0]) is not None and \
                        s.conststr(i.args[0]).startswith(b'%-*s'):
                    n = s.lin(st, i.args[1])
                    if n is not None:
                        s.restrict(st, plus(n, (0, {'T:' + i.res: 1}), -1))
                elif c in ('bc_strdup', 'strdup'):
                    n = s.strlen_of(st, i.args[0])
                    if n is not None:
                        s.restrict(st, plus((0, {'T:' + i.res: 1}), n, -1))
                return
            if c in s.mod.fns and i.type in ('i32', 'i64'):
                m = s.argmap(st, i)
                m['ret'] = (0, {i.res: 1})
                for x, y, k in outcome(s.mod, c)['ret']:
                    if x in m and y in m:
                        s.restrict(st, plus(m[x], m[y], -1), k)
            if c in UNSIGNED:
                s.restrict(st, (0, {i.res: -1}))
            if c in ('read', 'recv', 'write', 'send'):
                st.z.add('%0', i.res, 1)
            if c in ('read', 'recv', 'fread', 'strftime', 'write', 'send') and len(i.args) > 2:
                n = s.lin(st, i.args[1 if c == 'strftime' else 2])
                if n is not None:
                    s.restrict(st, plus((0, {i.res: 1}), n, -1), -1 if c == 'strftime' else 0)
            return
        if i.op == 'load':
            s.forgetvar(st, i.res)
            st.cells.pop(('ssa', i.res, 0), None)
            if i.type == 'ptr':
                s.newtext(st, i.res)
            elif s.unsignedat(i.args[0]):
                s.restrict(st, (0, {i.res: -1}))
            return
        if i.op == 'zext' and s.i8load(i.args[0]):
            s.forgetvar(st, i.res)
            st.z.add('%0', i.res, 0)
            st.z.add(i.res, '%0', 255)
            v = s.range8(st, s.fn.defs[i.args[0][1]])
            if v is not None:
                st.z.add(i.res, '%0', v[1])
                st.z.add('%0', i.res, -v[0])
            return
        if i.op == 'alloca':
            n = arraysize(i)
            if n:
                s.setvar(st, 'T:' + i.res, (n - 1, {}))
            return
        if i.type == 'ptr' and i.op == 'select':
            s.forgetvar(st, i.res)
            if s.root.get(i.res) not in (None, i.res):
                x, y = s.plin(st, i.args[1]), s.plin(st, i.args[2])
                if x is not None and y is not None:
                    lo = [p for p in s.known(st)]
                    s.joinvals(st, i.res, x[1], y[1])
            return
        if s.isatom(i.res):
            s.forgetvar(st, i.res)
            if i.op == 'select' and i.type not in ('i1', 'ptr'):
                x, y = s.lin(st, i.args[1]), s.lin(st, i.args[2])
                if x is not None and y is not None:
                    s.joinvals(st, i.res, x, y)
            elif i.op in ('udiv', 'urem', 'lshr'):
                s.restrict(st, (0, {i.res: -1}))
                x = s.lin(st, i.args[0])
                if x is not None and s.ub(st, neg(x)) <= 0:
                    s.restrict(st, plus((0, {i.res: 1}), x, -1))

    def i8load(s, op):
        d = s.fn.defs.get(op[1]) if op[0] == 'l' else None
        return d is not None and d.op == 'load' and d.type == 'i8'

    def unsignedat(s, op):
        ty = ditypes.type_of(s.fn, op)
        p = ty[1] if isinstance(ty, tuple) else ditypes.pointee(s.mod, ty) if ty else None
        return p is not None and ditypes.typename(s.mod, p) in UTYPES

    def range8(s, st, d):
        """values of a constant table in the range of the index"""
        p = s.plin(st, d.args[0])
        if p is None or p[0][:1] != '@':
            return None
        g = s.mod.globals.get(p[0][1:])
        if g is None or not g.const or g.init is None or g.init[0] != 'str':
            return None
        lo, hi = -s.ub(st, neg(p[1])), s.ub(st, p[1])
        raw = g.init[1]
        if lo < 0 or hi >= len(raw):
            if lo >= 0 and lo < len(raw):
                return min(raw), max(raw[lo:])
            return min(raw), max(raw)
        return min(raw[lo:hi + 1]), max(raw[lo:hi + 1])

    def known(s, st):
        return [v for v in st.z.d if v != '%0']

    def joinvals(s, st, v, x, y):
        new = []
        for a in ['%0'] + sorted(set(x[1]) | set(y[1])) + [p for p in s.known(st) if p.startswith('T:') or p in s.params]:
            for sign in (1, -1):
                u = []
                for w in (x, y):
                    d = plus(w, (0, {a: 1} if a != '%0' else {}), -1)
                    u.append(s.ub(st, d if sign == 1 else neg(d)))
                if max(u) < INF:
                    new.append((v, a, max(u)) if sign == 1 else (a, v, max(u)))
        for a, b, c in new:
            st.z.add(a, b, c)

    def clobber(s, st, i):
        """a call may change the characters of the texts it is given as writable arguments"""
        if i.callee is None or i.callee in s.mod.fns and not i.callee.startswith('bc_str') or i.callee in ('memcpy', 'strcpy', 'strcat', 'snprintf', 'fgets'):
            for a in i.args:
                if s.isptr(a):
                    p = s.plin(st, a)
                    if p is not None and p[0] not in s.params:
                        for k in [k for k in st.cells if k[0] == p[0]]:
                            del st.cells[k]

    def conststr(s, op):
        if op[0] == 'g':
            g = s.mod.globals.get(op[1])
            if g is not None and g.const and g.init is not None and g.init[0] == 'str':
                return g.init[1].split(b'\0')[0]
        return None

    # ---- edges
    def edge(s, st, frm, to):
        """states at the entry of a successor after its phis; st may be changed"""
        phis = to.phis()
        s.frm = frm
        live = s.live[to]
        forks = [st]
        env2 = {}
        ints, ptrs = [], []
        for p in phis:
            if p.res not in live and p.res not in s.pinned:
                continue
            v = next((x for x, pb in p.extra if pb == frm.name), None)
            if v is None:
                continue
            if p.res in s.modes or p.res in s.bools:
                if v[0] == 'i':
                    env2[p.res] = ('k', v[1] if p.res in s.modes else v[1] & 1)
                else:
                    env2[p.res] = ('v', v)
            elif p.type == 'ptr':
                ptrs.append((p, v))
            else:
                ints.append((p, v))
        # truth values: follow both outcomes
        out = [(st, {})]
        for p, v in ints:
            if p.res in s.special:
                k = s.special[p.res]
                nxt = []
                for x, e in out:
                    if v[0] == 'i':
                        nxt.append((x, dict(e, **{'z:' + p.res: int(v[1] == k)})))
                    elif v[0] == 'l' and s.special.get(v[1]) == k and 'z:' + v[1] in x.env:
                        nxt.append((x, dict(e, **{'z:' + p.res: x.env['z:' + v[1]]})))
                    else:
                        for pred in ('eq', 'ne'):
                            for w in s.compare(x.copy(), pred, v, ('i', k)):
                                nxt.append((w, dict(e, **{'z:' + p.res: int(pred == 'eq')})))
                out = nxt
        for n, (k, v) in env2.items():
            nxt = []
            for x, e in out:
                if k == 'k':
                    nxt.append((x, dict(e, **{n: v})))
                    continue
                o = s.unwrap(v) if n in s.bools else v
                if v[0] == 'l' and v[1] in x.env:
                    nxt.append((x, dict(e, **{n: x.env[v[1]]})))
                    continue
                if o[0] == 'i':
                    nxt.append((x, dict(e, **{n: o[1]})))
                elif o[0] == 'l' and o[1] in x.env:
                    nxt.append((x, dict(e, **{n: x.env[o[1]]})))
                elif o[0] in ('undef', 'poison'):
                    nxt.append((x, e))
                elif n in s.bools:
                    for tv in (True, False):
                        y = x.copy()
                        y.tags = x.tags
                        for w in s.assume(y, o, tv):
                            nxt.append((w, dict(e, **{n: int(tv)})))
                else:
                    d = s.fn.defs.get(v[1]) if v[0] == 'l' else None
                    while d is not None and d.op in ('zext', 'trunc', 'sext') and d.args[0][0] == 'l':
                        if d.args[0][1] in x.env:
                            break
                        d = s.fn.defs.get(d.args[0][1])
                    if d is not None and d.op in ('zext', 'trunc', 'sext') and d.args[0][0] == 'l' and d.args[0][1] in x.env:
                        nxt.append((x, dict(e, **{n: x.env[d.args[0][1]]})))
                    elif d is not None and d.op == 'select':
                        for tv in (True, False):
                            y = x.copy()
                            for w in s.assume(y, d.args[0], tv):
                                z = d.args[1] if tv else d.args[2]
                                if z[0] == 'i':
                                    nxt.append((w, dict(e, **{n: z[1]})))
                                elif z[0] == 'l' and z[1] in w.env:
                                    nxt.append((w, dict(e, **{n: w.env[z[1]]})))
                                else:
                                    nxt.append((w, e))
                    else:
                        nxt.append((x, e))
            out = nxt
        res = []
        for x, e in out:
            if len(out) > 1:
                x = x.copy()
            res.append(s._phis(x, e, ints, ptrs, phis, to))
        return res

    def _phis(s, st, e, ints, ptrs, phis, to):
        new, cellmap = [], []
        nulls = {}
        for p, v in ints:
            l = s.lin(st, v)
            new.append((p.res, l))
            if l is not None and len(l[1]) == 1 and list(l[1].values())[0] == 1:
                cellmap.append((next(iter(l[1])), l[0], p.res))
            elif l is not None and not l[1]:
                cellmap.append(('', l[0], p.res))
        for p, v in ptrs:
            nf = None
            if p.res in s.nul:
                if v[0] == 'null':
                    nf = 1
                elif v[0] in ('g', 'gep'):
                    nf = 0
                elif v[0] == 'l':
                    nf = st.env.get('n:' + v[1])
                    d = s.fn.defs.get(v[1])
                    if nf is None and d is not None and d.op == 'getelementptr':
                        nf = 0
                if nf is not None:
                    nulls['n:' + p.res] = nf
            if s.root.get(p.res, p.res) != p.res and nf != 1:
                q = s.plin(st, v)
                new.append((p.res, q[1] if q is not None else None))
                if q is not None and len(q[1][1]) == 1 and list(q[1][1].values())[0] == 1:
                    cellmap.append((next(iter(q[1][1])), q[1][0], p.res))
            else:
                new.append((p.res, None))
        for k, (b, p, n) in s.sums.items():
            if b is to:
                x, y = [next((w for w, pb in i.extra if pb == s.frm.name), None) for i in (p, n)]
                x = s.plin(st, x) if x is not None else None
                y = s.lin(st, y) if y is not None else None
                new.append((k, plus(x[1], y, 1) if x is not None and y is not None else None))
        # assign in parallel through temporaries
        cells = {}
        names = {p.res for p in phis}
        for (r, a, o), cs in st.cells.items():
            if a not in names and r not in names:
                cells[(r, a, o)] = cs
            for src, c, n in cellmap:
                if src == a and a is not None:
                    # position a + o = n - c + o
                    if r not in names:
                        cells[(r, n, o - c)] = cs
        for n, l in new:
            s.setvar(st, '#' + n, l)
        up = {k: f for k, f in st.up.items() if not any(a in names for a in f[1])}
        st.up = {k[1:] if k[0] == '#' else k: f for k, f in up.items() if k not in names}
        for p in phis:
            st.z.forget(p.res)
            st.z.forget('T:' + p.res)
            st.z.forget('E:' + p.res)
            st.env.pop(p.res, None)
            st.env.pop('n:' + p.res, None)
            st.env.pop('z:' + p.res, None)
        for k in s.sums:
            if s.sums[k][0] is to:
                st.z.forget(k)
        st.z.rename({'#' + n: n for n, l in new})
        for p, v in ptrs:
            if s.root.get(p.res, p.res) == p.res:
                # another text: what is known about its terminator
                st.z.add('%0', 'T:' + p.res, 0)
        st.cells = cells
        st.env.update(e)
        st.env.update(nulls)
        return st

    def prune(s, st, b):
        live = s.live[b]
        keep = set()
        for v in list(st.z.d):
            keep.add(v)
        names = set()
        for r in st.z.d.values():
            names.update(r)
        names |= keep
        ok = set()
        for v in names:
            if v in live or v in s.params or v in s.pinned:
                ok.add(v)
            elif v in s.sums:
                b2, p, n = s.sums[v]
                if p.res in live and n.res in live or b2 is b:
                    ok.add(v)
            elif v[:2] in ('T:', 'E:'):
                r = v[2:]
                if r in s.params or r in live or any(s.root.get(x) == r for x in live):
                    ok.add(v)
        for u, f in list(st.up.items()):
            if u not in ok and all(a in ok for a in f[1]):
                for v in st.z.d:
                    e = st.z.ub(v, u)
                    if v in ok and e < INF and v not in st.up and v not in f[1] and v != '%0':
                        st.up[v] = plus(f, (e, {}), 1)
        st.z.keep(ok)
        for k in list(st.env):
            n = k[2:] if k[1:2] == ':' else k
            if n not in live and k not in s.pinned and n not in s.params:
                del st.env[k]
        for k in [k for k, f in st.up.items() if k not in ok or any(a not in ok for a in f[1])]:
            del st.up[k]
        for k in list(st.cells):
            if k[1] != '' and k[1] not in ok or k[0] == 'ssa' and k[1] not in live:
                del st.cells[k]

    # ---- fixpoint
    def start(s):
        st = St()
        for p, t in s.fn.params:
            if t == 'ptr':
                s.newtext(st, p)
        for p, n in s.lens.items():
            st.z.add('%0', n, 0)
            st.z.add(n, 'T:' + p, 0)
        for p in s.params:
            ty = s.unsigned(p)
            if ty:
                st.z.add('%0', p, 0)
        return st

    def unsigned(s, p):
        ty = ditypes.type_of(s.fn, ('l', p))
        return ty is not None and ditypes.typename(s.mod, ty) in UTYPES

    def key(s, st):
        return (tuple(sorted(st.env.items())), st.tags)

    def run(s, seeds=None, within=None, header=None, stop=None):
        """seeds: [(block, state)]; within: stay inside these blocks; edges to header are collected as latches.
        stop: which of these edges (all).
        Results: s.at {block: {key: state}}, s.latches [(from, state)], s.exits [(from, to, state)]"""
        fn = s.fn
        heads = {b for b in fn.blocks.values() if any(fn.bdom(b, p) for p in b.preds)}
        s.at = {}
        s.latches, s.exits = [], []
        cnt = {}
        order = {b: k for k, b in enumerate(rpo(fn))}
        work = {}
        if seeds is None:
            seeds = [(fn.entry, s.start())]
        import heapq
        heap = []

        def push(b, st):
            s.prune(st, b)
            k = s.key(st)
            d = s.at.setdefault(b, {})
            if len(d) > s.maxpart:
                raise TooMany('%s: %s' % (fn.name, b.name))
            if k not in d:
                d[k] = st
                ch = True
            else:
                o = d[k]
                cnt[(b, k)] = cnt.get((b, k), 0) + 1
                ups = {}
                for x, y in ((o, st), (st, o)):
                    for v, f in x.up.items():
                        if v not in ups and (y.up.get(v) == f or s.ub(y, plus((0, {v: 1}), f, -1)) <= 0):
                            ups[v] = f
                if any(v not in ups for v in o.up):
                    chu = True
                else:
                    chu = False
                o.up = {v: f for v, f in ups.items() if v in o.up or cnt[(b, k)] == 1}
                ch = o.z.widen(st.z) if b in heads and cnt[(b, k)] > 4 else o.z.join(st.z)
                ch = ch or chu
                for q in list(o.cells):
                    n = o.cells[q] | st.cells.get(q, ALLC)
                    if n != o.cells[q]:
                        ch = True
                        if n == ALLC:
                            del o.cells[q]
                        else:
                            o.cells[q] = n
            if ch and (b, k) not in work:
                work[(b, k)] = 1
                heapq.heappush(heap, (order.get(b, 0), len(heap) + s.visited * 1000, b, k))
        for b, st in seeds:
            push(b, st)
        final = {}
        while heap:
            _, _, b, k = heapq.heappop(heap)
            del work[(b, k)]
            s.visited += 1
            if s.visited > s.limit:
                raise TooMany('%s: too many steps' % fn.name)
            st = s.at[b][k].copy()
            outs = s.step(b, st)
            acc = []
            for to, x in outs:
                if within is not None and to not in within:
                    acc.append(('exit', b, to, x))
                elif header is not None and to is header and (stop is None or stop(x)):
                    acc.append(('latch', b, to, x))
                else:
                    push(to, x)
            if acc:
                final[(b, k)] = acc
            else:
                final.pop((b, k), None)
        for (b, k), acc in final.items():
            for w, f, t, x in acc:
                if w == 'latch':
                    s.latches.append((f, x))
                else:
                    s.exits.append((f, t, x))
        return s

    def step(s, b, st, visit=None):
        """[(successor, state)]"""
        for i in b.instrs:
            if i.op == 'phi' or i is b.term:
                continue
            if visit is not None:
                visit(i, st)
            s.instr(st, i)
            s.tag(st, i)
        t = b.term
        if visit is not None:
            visit(t, st)
        outs = []
        if t.op == 'br' and not t.args:
            outs = [(t.extra[0], st)]
        elif t.op == 'br':
            for k, lab in enumerate(t.extra):
                for x in s.assume(st.copy(), t.args[0], k == 0):
                    outs.append((lab, x))
        elif t.op == 'switch':
            outs = s.switch(st, t)
        r = []
        for lab, x in outs:
            to = s.fn.blocks[lab]
            for y in s.edge(x, b, to):
                r.append((to, y))
        return r

    def tag(s, st, i):
        pass

    def switch(s, st, t):
        op = t.args[0]
        outs = []
        c = s.charload(op)
        if op[0] == 'l' and op[1] in st.env:
            v = st.env[op[1]]
            for cv, lab in t.extra['cases']:
                if cv == v:
                    return [(lab, st)]
            return [(t.extra['default'], st)]
        rest = [st.copy()]
        for cv, lab in t.extra['cases']:
            x = st.copy()
            if c is not None:
                if s.refine_char(x, c, 'eq', cv):
                    outs.append((lab, x))
                rest = [y for y in rest if s.refine_char(y, c, 'ne', cv)]
            else:
                for y in s.compare(x, 'eq', op, ('i', cv)):
                    if op[0] == 'l' and (op[1] in s.modes):
                        y.env[op[1]] = cv
                    outs.append((lab, y))
                rest = [z for y in rest for z in s.compare(y, 'ne', op, ('i', cv))]
        if s.complete(op, t):
            rest = []
        for y in rest:
            outs.append((t.extra['default'], y))
        return outs

    def complete(s, op, t):
        """are all values of an enumerated member cases of the switch"""
        d = s.fn.defs.get(op[1]) if op[0] == 'l' else None
        if d is None or d.op != 'load':
            return False
        m = ditypes.member_at(s.fn, d.args[0])
        v = ditypes.enumvalues(s.mod, m[2]) if m and len(m) > 2 else None
        return v is not None and v <= {c for c, _ in t.extra['cases']}

    def replay(s, visit):
        """calls visit(instruction, state) with the states found by run()"""
        for b in rpo(s.fn):
            for k, st in sorted(s.at.get(b, {}).items(), key=lambda kv: repr(kv[0])):
                s.step(b, st.copy(), visit)


UTYPES = {'size_t', 'unsigned int', 'unsigned long', 'uint8_t', 'uint32_t', 'uint64_t', 'uint16_t'}
ALLOC = {'malloc': 0, 'bc_malloc': 0, 'realloc': 1, 'bc_realloc': 1}
UNSIGNED = {'bc_slist_length', 'bc_strv_length', 'fread', 'strftime', 'bc_trie_size', 'strcspn', 'strspn', 'strnlen'}


def ischar(fn, op):
    """does the value point to characters"""
    mod = fn.module
    ty = ditypes.type_of(fn, op)
    p = ditypes.pointee(mod, ty) if ty and not isinstance(ty, tuple) else None
    if p is None:
        return False
    d = mod.md_get(ditypes.strip(mod, p) or '') if ditypes.strip(mod, p) else None
    return d is not None and d.get('size') in ('8', 8)


def arraysize(i):
    """number of characters of a local array"""
    t = i.extra
    if isinstance(t, tuple) and t[0] == 'arr' and t[2] == 'i8':
        return t[1]
    return None


def outcome(mod, name):
    """what the result of a function says about its arguments: {0 | 1 | 'ret': [(x, y, c)] x - y <= c}"""
    memo = mod.__dict__.setdefault('_outcomes', {})
    if name in memo:
        return memo[name]
    memo[name] = {0: [], 1: [], 'ret': []}
    fn = mod.fns[name]
    rets = [i for i in fn.instrs() if i.op == 'ret' and i.args]
    if not rets or not any(t == 'ptr' for _, t in fn.params) or len(list(fn.instrs())) > 600:
        return memo[name]
    z = Zone(fn, limit=3000)
    try:
        z.run()
    except TooMany:
        return memo[name]
    acc = {0: [], 1: [], 'ret': []}
    truth = all(z.istruth(i.args[0]) is not None or i.args[0][0] == 'i' and i.args[0][1] in (0, 1, -1) for i in rets)

    def visit(i, st):
        if i.op == 'ret':
            if not truth:
                x = z.lin(st, i.args[0])
                z.setvar(st, 'ret', x)
                acc['ret'].append(st)
                return
            for tv in (0, 1):
                for w in z.assume(st.copy(), i.args[0], bool(tv)):
                    acc[tv].append(w)
    z.replay(visit)
    names = ['%0'] + [p for p, t in fn.params if t != 'ptr'] + ['T:' + p for p, t in fn.params if t == 'ptr']
    for tv, sts in acc.items():
        ns = names + ['ret'] if tv == 'ret' else names
        for x in ns:
            for y in ns:
                if x != y and sts:
                    c = max(w.z.ub(x, y) for w in sts)
                    if c < INF and not (x == '%0' and c >= 0 and y != 'ret'):
                        memo[name][tv].append((x, y, c))
    return memo[name]


def plus(a, b, k):
    d = dict(a[1])
    for x, v in b[1].items():
        n = d.get(x, 0) + k * v
        if n:
            d[x] = n
        else:
            d.pop(x, None)
    return (a[0] + k * b[0], d)


def neg(a):
    return (-a[0], {k: -v for k, v in a[1].items()})


def rpo(fn):
    if hasattr(fn, '_rpo'):
        return fn._rpo
    seen, out = set(), []
    stack = [(fn.entry, iter(fn.entry.succs))]
    seen.add(fn.entry)
    while stack:
        b, it = stack[-1]
        n = next(it, None)
        if n is None:
            out.append(b)
            stack.pop()
        elif n not in seen:
            seen.add(n)
            stack.append((n, iter(n.succs)))
    fn._rpo = out[::-1]
    return fn._rpo


def switched(fn):
    """mode variables that a switch decides on, with what feeds them"""
    m = set(lib.mode_phis(fn))
    r = set()
    work = []
    for b in fn.blocks.values():
        if b.term.op == 'switch' and b.term.args[0][0] == 'l':
            work.append(b.term.args[0])
    while work:
        o = work.pop()
        if o[0] != 'l' or o[1] in r:
            continue
        d = fn.defs.get(o[1])
        if d is None:
            continue
        if d.op in ('zext', 'sext', 'trunc'):
            work.append(d.args[0])
        elif o[1] in m:
            r.add(o[1])
            work += [v for v, _ in d.extra] if d.op == 'phi' else d.args[1:]
    return r


def families(fn, names):
    """mode variables that are copies of each other"""
    par = {n: n for n in names}

    def find(x):
        while par[x] != x:
            x = par[x]
        return x
    for n in names:
        d = fn.defs[n]
        for v in ([v for v, _ in d.extra] if d.op == 'phi' else d.args[1:]):
            while v[0] == 'l' and v[1] not in par and v[1] in fn.defs and fn.defs[v[1]].op in ('zext', 'trunc', 'sext'):
                v = fn.defs[v[1]].args[0]
            if v[0] == 'l' and v[1] in par:
                par[find(n)] = find(v[1])
    r = {}
    for n in names:
        r.setdefault(find(n), set()).add(n)
    return list(r.values())
