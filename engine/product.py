"""Path-by-path interpretation of one round of a byte loop: loop-carried numbers that are made of constants are exact,
positions are linear forms, the byte read is enumerated, small text buffers used as stacks are exact, everything else is
unknown and both outcomes of a test on it are followed.  The configurations at the loop head are explored together with
the state of an observer (the specification)."""
from . import ditypes, lib, loops, ir

CAP = 40


class Undecided(Exception):
    pass


def bits(t):
    return int(t[1:]) if isinstance(t, str) and t[:1] == 'i' and t[1:].isdigit() else 64


def signed(v, n):
    v &= (1 << n) - 1
    return v - (1 << n) if v >> (n - 1) else v


def form(v):
    """linear form of a value: (constant, ((symbol, coefficient), ...))"""
    if isinstance(v, int):
        return (signed(v, 64), ())
    if isinstance(v, tuple) and v[0] == 'f':
        return v[1:]
    return None


def combine(a, b, k):
    d = dict(a[1])
    for s, c in b[1]:
        d[s] = d.get(s, 0) + k * c
    r = (a[0] + k * b[0], tuple(sorted((s, c) for s, c in d.items() if c)))
    return r[0] & (2 ** 64 - 1) if not r[1] else ('f',) + r


def lazy(v):
    return isinstance(v, tuple) and v[0] == 'B'


class Path:
    __slots__ = ('env', 'heap', 'bytes', 'seen', 'steps', 'obs', 'last', 'trace')

    def copy(s):
        n = Path()
        n.env, n.heap, n.bytes, n.seen = dict(s.env), dict(s.heap), dict(s.bytes), dict(s.seen)
        n.steps, n.obs, n.last, n.trace = s.steps, s.obs, s.last, s.trace
        return n


class Product:
    """text, length, err: parameter names; observer: object with start, event(state, kind, value, ins), consumed(state, byte)"""

    def __init__(s, fn, text, length, err, observer):
        s.fn, s.mod, s.text, s.len, s.err, s.ob = fn, fn.module, text, length, err, observer
        best = None
        for l in loops.loops(fn):
            for b in l.body:
                for i in b.instrs:
                    if i.op == 'load' and i.type == 'i8' and ditypes.base_off(fn, i.args[0])[0] == ('l', text):
                        if best is None or len(l.body) > len(best.body):
                            best = l
        if best is None:
            raise Undecided('no loop over the text')
        s.loop = best
        s.head = best.header
        s.pos = s.position()
        s.tracked = s.kept()
        s.alphabet = s.reps()
        s.every = frozenset(s.alphabet)
        s.same = tuple((c, c) for c in s.alphabet)
        s.paths = 0
        s.cut = 0
        s.rounds = 0
        s.unknown = {}

    def position(s):
        """the header variable whose place in the text is read in every round"""
        names = {p.res: p for p in s.head.phis()}
        for b in s.loop.body:
            if not all(s.fn.bdom(b, x) for x in s.loop.latches):
                continue
            for i in b.instrs:
                if i.op == 'load' and i.type == 'i8':
                    a = i.args[0]
                    if a[0] == 'l' and a[1] in names:
                        return a[1]
                    d = s.fn.defs.get(a[1]) if a[0] == 'l' else None
                    if d is not None and d.op == 'getelementptr' and d.args[0] == ('l', s.text) and len(d.args) == 2:
                        x = d.args[1]
                        if x[0] == 'l' and x[1] in names:
                            return x[1]
        raise Undecided('no position')

    def kept(s):
        """header variables made of constants, of each other and of steps"""
        keep = {p.res for p in s.head.phis() if isinstance(p.type, str) and p.type[:1] == 'i' and p.res != s.pos}
        ch = True
        while ch:
            ch = False
            for p in s.head.phis():
                if p.res not in keep:
                    continue
                for v, pb in p.extra:
                    for x in loops.leaves(s.loop, v, '', set()):
                        y, n = x, 0
                        while y[0] == 'l' and y[1] not in keep and n < 8:
                            n += 1
                            d = s.fn.defs.get(y[1])
                            if d is None:
                                break
                            if d.op in ('add', 'sub', 'or', 'and', 'xor', 'shl', 'lshr') and d.args[1][0] == 'i':
                                y = d.args[0]
                            elif d.op in ('icmp', 'fcmp', 'call', 'load'):
                                y = ('i', 0)
                            elif d.op == 'phi' and d.block is not s.head and d.block in s.loop.body or d.op in ('zext', 'sext', 'trunc', 'freeze'):
                                sub = loops.leaves(s.loop, y, '', set())
                                if len(sub) == 1:
                                    y = next(iter(sub))
                                else:
                                    y = ('i', 0) if all(z[0] == 'i' or z[1] in keep for z in sub) else y
                                    break
                            else:
                                break
                        if y[0] == 'l' and y[1] not in keep or y[0] not in ('l', 'i', 'undef', 'poison'):
                            keep.discard(p.res)
                            ch = True
                            break
                    if p.res not in keep:
                        break
        return keep

    def reps(s):
        """one byte of every class the function can tell apart"""
        tests = set()
        for i in s.fn.instrs():
            if i.op == 'icmp':
                for a, o in ((i.args[0], i.args[1]), (i.args[1], i.args[0])):
                    if a[0] == 'i' and -128 <= a[1] < 256 and s.isbyte(o):
                        tests.add(('cmp', i.extra if a is i.args[1] else {'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le'}.get(i.extra[1:], i.extra), a[1]))
            elif i.op == 'switch' and s.isbyte(i.args[0]):
                for c, _ in i.extra['cases']:
                    tests.add(('cmp', 'eq', c))
            elif i.op == 'call' and i.callee == 'bc_isspace':
                tests.add(('space',))
        tests |= {('cmp', 'eq', c) for c in s.ob.bytes}
        by = {}
        for c in range(256):
            v = signed(c, 8)
            sig = []
            for t in sorted(tests, key=repr):
                if t[0] == 'space':
                    sig.append(c in (9, 10, 11, 12, 13, 32))
                else:
                    e = t[1][-2:]
                    sig.append((c == t[2] % 256) if e in ('eq', 'ne') else v < t[2] if e in ('lt', 'ge') else v <= t[2])
                    if e not in ('eq', 'ne') and t[1][:1] == 'u':
                        sig.append(c < t[2] if e in ('lt', 'ge') else c <= t[2])
            by.setdefault(tuple(sig), c)
        return sorted(by.values())

    def isbyte(s, op, depth=0):
        d = s.fn.defs.get(op[1]) if op[0] == 'l' else None
        if d is None or depth > 5:
            return False
        if d.op in ('sext', 'zext', 'trunc', 'freeze'):
            return s.isbyte(d.args[0], depth + 1)
        if d.op in ('phi', 'select'):
            return any(s.isbyte(v, depth + 1) for v in ([v for v, _ in d.extra] if d.op == 'phi' else d.args[1:]))
        if d.op in ('add', 'sub', 'and', 'or') and d.args[1][0] == 'i':
            return s.isbyte(d.args[0], depth + 1)
        if d.op != 'load' or d.type != 'i8':
            return False
        # the texts of buffers are no input
        b = ditypes.base_off(s.fn, d.args[0])[0]
        e = s.fn.defs.get(b[1]) if b[0] == 'l' else None
        return not (e is not None and e.op == 'load')

    # ---- values
    def value(s, p, op):
        k = op[0]
        if k == 'i':
            return op[1] & (2 ** 64 - 1)
        if k == 'l':
            v = p.env.get(op[1])
            if v is None and p.last and p.last[0] == 'more' and p.last[1] is not None:
                d = s.fn.defs.get(op[1])
                if d is not None and d.op == 'icmp' and op[1] in p.env:
                    v = s.pure(p, d)
            return s.now_(p, v) if lazy(v) else v
        if k == 'null':
            return ('N',)
        if k in ('g', 'gep', 'cast'):
            return ('V', op)
        return None

    def run(s, limit):
        """explore; limit: number of configurations"""
        fn = s.fn
        p = Path()
        p.env, p.heap, p.bytes, p.seen, p.steps, p.last, p.trace = {}, {'err': 0}, {}, {}, 0, None, ()
        p.obs = s.ob.start
        for n, t in fn.params:
            if n == s.text:
                p.env[n] = ('P', 'text', (0, ()))
            elif n == s.err:
                p.env[n] = ('P', 'err', (0, ()))
            elif n == s.len:
                p.env[n] = ('f', 0, ((n, 1),))
        todo, seen = [], {}
        s.seen, s.now = seen, None

        def add(cfg, par, trace):
            if cfg not in seen:
                seen[cfg] = (par, trace)
                todo.append(cfg)
                if len(seen) > limit:
                    raise Undecided('more than %d configurations' % limit)
        s.path(p, fn.entry, None, lambda c, t: add(c, None, t))
        while todo:
            cfg = todo.pop()
            s.rounds += 1
            s.now = cfg
            s.round(cfg, lambda c, t: add(c, cfg, t))
        return s

    def history(s, p):
        """events from the start to the path"""
        r, c = list(p.trace), s.now
        while c is not None:
            par, t = s.seen[c]
            r = list(t) + r
            c = par
        return r

    def round(s, cfg, add):
        vals, heap, obs, more, forced = cfg
        for m in ((True, False) if more is None else (more,)):
            for last in (None,):
                p = Path()
                p.env, p.heap, p.bytes, p.seen, p.steps = dict(vals), dict(heap), {}, {}, 0
                p.obs, p.last, p.trace = obs, ('more', last) if m else ('end',), ()
                p.env[s.text] = ('P', 'text', (0, ()))
                if s.len:
                    p.env[s.len] = ('f', 0, ((s.len, 1),))
                p.env[s.err] = ('P', 'err', (0, ()))
                for i in s.head.phis():
                    if i.res not in p.env:
                        if i.type == 'ptr':
                            p.env[i.res] = ('P', 'text', (0, ((i.res, 1),))) if i.res == s.pos else None
                        elif isinstance(i.type, str) and i.type == 'i64':
                            p.env[i.res] = ('f', 0, ((i.res, 1),))
                if forced is not None:
                    p.bytes[(0, ((s.pos, 1),))] = forced
                s.path(p, s.head, 'head', add)

    # ---- execution
    def path(s, p, block, frm, add):
        work = [(p, block, frm, 0)]
        while work:
            p, b, frm, at = work.pop()
            s.paths += 1
            while True:
                if at == 0 and frm != 'head':
                    if b is s.head:
                        s.arrive(p, frm, add)
                        break
                    new = {}
                    for i in b.phis():
                        v = next((x for x, pb in i.extra if frm is not None and pb == frm.name), None)
                        new[i.res] = s.value(p, v) if v is not None else None
                    p.env.update(new)
                    p.seen[b] = p.seen.get(b, 0) + 1
                    if p.seen[b] > 4:
                        s.cut += 1
                        break
                r = s.block(p, b, at, work)
                if r is None:
                    break
                b, frm, at = r[0], r[1], 0

    def block(s, p, b, at, work):
        for n in range(at, len(b.instrs)):
            i = b.instrs[n]
            if i.op == 'phi':
                continue
            p.steps += 1
            if i is not b.term:
                alts = s.instr(p, i)
                if alts is not None:
                    # several possible results
                    for v in alts[1:]:
                        q = p.copy()
                        s.choose(q, i, v)
                        work.append((q, b, b, n + 1))
                    s.choose(p, i, alts[0])
                continue
            t = i
            if t.op == 'ret':
                s.ob.final(s, p, t)
                return None
            if t.op == 'unreachable':
                return None
            if t.op == 'br' and not t.args:
                return (s.fn.blocks[t.extra[0]], b)
            if t.op == 'br':
                v = s.value(p, t.args[0])
                if isinstance(v, int):
                    return (s.fn.blocks[t.extra[0 if v & 1 else 1]], b)
                if lazy(v):
                    for w, keep in s.split(p, v):
                        q = p.copy()
                        q.bytes[v[1]] = keep
                        work.append((q, s.fn.blocks[t.extra[0 if w & 1 else 1]], b, 0))
                    return None
                if t.extra[0] == t.extra[1]:
                    return (s.fn.blocks[t.extra[0]], b)
                d = s.fn.defs.get(t.args[0][1]) if t.args[0][0] == 'l' else None
                if p.last == ('more', None) and d is not None and d.op == 'icmp':
                    # the last character or not
                    qs = []
                    for k in (True, False):
                        q = p.copy()
                        q.last = ('more', k)
                        qs.append((q, s.pure(q, d)))
                    if any(isinstance(w, int) for _, w in qs):
                        work += [(q, b, b, n) for q, _ in qs]
                        return None
                q = p.copy()
                if t.args[0][0] == 'l':
                    s.learn(p, t.args[0], 1)
                    s.learn(q, t.args[0], 0)
                work.append((q, s.fn.blocks[t.extra[1]], b, 0))
                return (s.fn.blocks[t.extra[0]], b)
            if t.op == 'switch':
                v = s.value(p, t.args[0])
                n = (1 << bits(s.typeof(t.args[0]))) - 1
                if isinstance(v, int):
                    return (s.fn.blocks[next((lab for c, lab in t.extra['cases'] if (c - v) & n == 0), t.extra['default'])], b)
                if lazy(v):
                    to = {}
                    for w, keep in s.split(p, v):
                        to.setdefault(next((lab for c, lab in t.extra['cases'] if (c - w) & n == 0), t.extra['default']), set()).update(keep)
                    for lab, keep in to.items():
                        q = p.copy()
                        q.bytes[v[1]] = frozenset(keep)
                        work.append((q, s.fn.blocks[lab], b, 0))
                    return None
                labs = list(dict.fromkeys([l for _, l in t.extra['cases']] + [t.extra['default']]))
                for lab in labs[1:]:
                    work.append((p.copy(), s.fn.blocks[lab], b, 0))
                return (s.fn.blocks[labs[0]], b)
            raise Undecided('terminator %s' % t.op)
        return None

    def typeof(s, op):
        d = s.fn.defs.get(op[1]) if op[0] == 'l' else None
        if d is not None:
            return d.type
        return dict(s.fn.params).get(op[1], 'i64') if op[0] == 'l' else 'i64'

    def learn(s, p, op, v):
        p.env[op[1]] = v
        d = s.fn.defs.get(op[1])
        if d is not None and d.op == 'trunc' and d.args[0][0] == 'l' and p.env.get(d.args[0][1]) is None:
            p.env[d.args[0][1]] = v
        if d is not None and d.op == 'icmp' and d.args[0][0] == 'l' and p.env.get(d.args[0][1]) is None:
            e = (d.extra if isinstance(d.extra, str) else '')
            if e in ('eq', 'ne') and (d.args[1][0] == 'i' or d.args[1] == ir.NULL):
                if (e == 'eq') == bool(v):
                    p.env[d.args[0][1]] = s.value(p, d.args[1])
                elif d.args[1] == ir.NULL:
                    p.env[d.args[0][1]] = ('V',)

    def choose(s, p, i, v):
        p.env[i.res] = v

    def split(s, p, v):
        """[(value, bytes)] of a value that depends on a byte of the text"""
        by = {}
        for c, w in v[2]:
            if c in p.bytes[v[1]]:
                by.setdefault(w, set()).add(c)
        return [(w, frozenset(k)) for w, k in by.items()]

    def now_(s, p, v):
        """the value as a number when the bytes left agree on it"""
        if lazy(v):
            k = p.bytes[v[1]]
            w = {x for c, x in v[2] if c in k}
            if len(w) == 1:
                return w.pop()
        return v

    def instr(s, p, i):
        """executes; returns alternative values when there are several"""
        op = i.op
        if op == 'call':
            return s.call(p, i)
        if op == 'store':
            s.store(p, i)
            return
        if i.res is None:
            return
        if op == 'load':
            return s.load(p, i)
        if op == 'alloca':
            p.env[i.res] = ('P', ('a', i.res), (0, ()))
            return
        p.env[i.res] = s.pure(p, i)
        if op == 'select' and p.env[i.res] is None and not isinstance(s.value(p, i.args[0]), int):
            x, y = s.value(p, i.args[1]), s.value(p, i.args[2])
            if x != y:
                return [x, y]

    def pure(s, p, i):
        a = [s.value(p, x) for x in i.args]
        la = [x for x in a if lazy(x)]
        if not la:
            return s.plain(p, i, a)
        if len({x[1] for x in la}) > 1:
            # two bytes compared with each other
            return None
        m = []
        for c in sorted(p.bytes[la[0][1]]):
            r = s.plain(p, i, [dict(x[2])[c] if lazy(x) else x for x in a])
            if not isinstance(r, int):
                return None
            m.append((c, r))
        return m[0][1] if len({r for _, r in m}) == 1 else ('B', la[0][1], tuple(m))

    def plain(s, p, i, a):
        op = i.op
        n = bits(i.type)
        m = (1 << n) - 1
        if op in ('zext', 'trunc', 'freeze', 'bitcast', 'ptrtoint', 'inttoptr'):
            if isinstance(a[0], int):
                k = bits(s.typeof(i.args[0]))
                return a[0] & ((1 << k) - 1) & m
            return a[0] if op != 'trunc' or n >= 32 else None
        if op == 'sext':
            if isinstance(a[0], int):
                return signed(a[0], bits(s.typeof(i.args[0]))) & m
            return a[0]
        if op in ('add', 'sub'):
            x, y = a
            if isinstance(x, tuple) and x[0] == 'P' and isinstance(y, tuple) and y[0] == 'P' and x[1] == y[1] and op == 'sub':
                return combine(x[2], y[2], -1)
            x, y = form(x), form(y)
            if x is None or y is None:
                return None
            r = combine(x, y, 1 if op == 'add' else -1)
            return r & m if isinstance(r, int) else r
        if op == 'icmp':
            return s.icmp(p, i, a)
        if op == 'select':
            if isinstance(a[0], int):
                return a[1] if a[0] & 1 else a[2]
            return a[1] if a[1] == a[2] else None
        if op == 'getelementptr':
            b = a[0]
            if isinstance(b, tuple) and b[0] == 'P':
                if i.extra == 'i8' and len(i.args) == 2:
                    o = form(a[1])
                    if o is None:
                        return ('P', b[1], None)
                    if b[2] is None:
                        return b
                    r = combine(b[2], o, 1)
                    return ('P', b[1], form(r))
                o = ditypes.gepoff(s.mod, i.extra, i.args[1:])
                if o is None or b[2] is None:
                    return ('P', b[1], None)
                return ('P', b[1], form(combine(b[2], (o, ()), 1)))
            return ('V',) if b is not None else None
        if op in ('and', 'or', 'xor', 'shl', 'lshr', 'mul', 'udiv', 'urem'):
            if op == 'and' and (a[0] == 0 or a[1] == 0):
                return 0
            if op == 'or' and n == 1 and (a[0] == 1 or a[1] == 1):
                return 1
            if not (isinstance(a[0], int) and isinstance(a[1], int)):
                return None
            x, y = a[0] & m, a[1] & m
            if op in ('udiv', 'urem') and not y:
                return None
            return {'and': x & y, 'or': x | y, 'xor': x ^ y, 'shl': (x << min(y, 64)) & m, 'lshr': x >> min(y, 64), 'mul': (x * y) & m,
                    'udiv': x // y if y else 0, 'urem': x % y if y else 0}[op]
        return None

    def icmp(s, p, i, a):
        e = i.extra
        x, y = a
        if s.typeof(i.args[0]) == 'ptr' or 'ptr' == s.typeof(i.args[1]):
            nx = {'N': 0, 'V': 1, 'P': 1}.get(x[0]) if isinstance(x, tuple) else None
            ny = {'N': 0, 'V': 1, 'P': 1}.get(y[0]) if isinstance(y, tuple) else None
            if e in ('eq', 'ne') and nx is not None and ny is not None and (nx == 0 or ny == 0):
                return int((nx == ny) == (e == 'eq'))
            if not (isinstance(x, tuple) and isinstance(y, tuple) and x[0] == y[0] == 'P' and x[1] == y[1] == 'text' and x[2] and y[2]):
                return None
            d = combine(x[2], y[2], -1)
        else:
            n = bits(s.typeof(i.args[0] if i.args[0][0] == 'l' else i.args[1]))
            if isinstance(x, int) and isinstance(y, int):
                m = (1 << n) - 1
                u, v = x & m, y & m
                if e[0] == 's':
                    u, v = signed(u, n), signed(v, n)
                return int({'eq': u == v, 'ne': u != v, 'lt': u < v, 'le': u <= v, 'gt': u > v, 'ge': u >= v}[e if e in ('eq', 'ne') else e[1:]])
            fx, fy = form(x), form(y)
            if fx is None or fy is None:
                return None
            d = combine(fx, fy, -1)
        # difference of two positions
        lo, hi = s.range(p, d)
        r = {'eq': (lo == hi == 0, lo > 0 or hi < 0), 'ne': (lo > 0 or hi < 0, lo == hi == 0), 'lt': (hi < 0, lo >= 0), 'le': (hi <= 0, lo > 0),
             'gt': (lo > 0, hi <= 0), 'ge': (lo >= 0, hi < 0)}[e if e in ('eq', 'ne') else e[1:]]
        return 1 if r[0] else 0 if r[1] else None

    def range(s, p, d):
        inf = float('inf')
        if isinstance(d, int):
            d = signed(d, 64)
            return d, d
        c, t = d[1], dict(d[2])
        # characters left at the start of the round: length - position
        lo, hi = (0, 0) if p.last == ('end',) else (1, 1) if p.last and p.last[1] else (2, inf) if p.last and p.last[1] is False else (1, inf) if p.last else (0, inf)
        if t == {s.len: 1, s.pos: -1}:
            return c + lo, c + hi
        if t == {s.len: -1, s.pos: 1}:
            return c - hi, c - lo
        if t == {s.len: 1} or t == {s.pos: 1}:
            return c, inf
        return -inf, inf

    # ---- memory
    def member(s, i, addr):
        return ditypes.member_at(s.fn, addr)

    def load(s, p, i):
        a = s.value(p, i.args[0])
        p.env[i.res] = None
        if isinstance(a, tuple) and a[0] == 'P':
            if a[1] == 'err' and i.type == 'ptr':
                p.env[i.res] = ('V',) if p.heap['err'] else ('N',)
                return
            if a[1] == 'text' and i.type == 'i8':
                if a[2] is None:
                    return
                p.bytes.setdefault(a[2], s.every)
                p.env[i.res] = ('B', a[2], s.same)
                return
            o = a[1]
            if isinstance(o, tuple) and o[0] == 's' and a[2] is not None and not a[2][1]:
                # member of a text buffer
                m = s.member(i, i.args[0])
                t = p.heap.get(o)
                if m is not None and t is not None:
                    if m[1] == 'len':
                        p.env[i.res] = len(t)
                        return
                    if m[1] == 'str':
                        p.env[i.res] = ('P', ('d',) + o[1:], (0, ()))
                        return
            if isinstance(o, tuple) and o[0] == 'd' and i.type == 'i8':
                t = p.heap.get(('s',) + o[1:])
                if t is not None and a[2] is not None and not a[2][1]:
                    k = a[2][0]
                    if 0 <= k <= len(t):
                        p.env[i.res] = t[k] if k < len(t) else 0
                        return
                    if k < 0:
                        s.ob.outside(s, p, i)
                return
            if a[2] is not None:
                p.env[i.res] = p.heap.get(('m', o, a[2]))
                return
        elif i.type == 'ptr':
            p.env[i.res] = None

    def store(s, p, i):
        a, v = s.value(p, i.args[1]), s.value(p, i.args[0])
        if not (isinstance(a, tuple) and a[0] == 'P'):
            return
        if a[1] == 'err':
            p.heap['err'] = 0 if v == ('N',) else 1
            return
        o = a[1]
        if isinstance(o, tuple) and o[0] == 's':
            m = s.member(i, i.args[1])
            t = p.heap.get(o)
            if m is not None and m[1] == 'len':
                p.heap[o] = t[:v] if isinstance(v, int) and t is not None and v <= len(t) else None
            return
        if isinstance(o, tuple) and o[0] == 'd':
            k = ('s',) + o[1:]
            t = p.heap.get(k)
            if t is None:
                return
            if a[2] is None or a[2][1] or not isinstance(v, int):
                p.heap[k] = None
            else:
                x = a[2][0]
                if 0 <= x < len(t):
                    p.heap[k] = t[:x] + (v & 255,) + t[x + 1:]
                elif x != len(t) or v & 255:
                    p.heap[k] = None
            return
        if a[2] is not None:
            m = s.member(i, i.args[1])
            p.heap[('m', o, a[2])] = v if not (isinstance(v, tuple) and v[0] == 'f') else None
            if m is not None:
                s.ob.stored(s, p, i, o, m, v)

    def call(s, p, i):
        c = i.callee
        if i.res is not None:
            p.env[i.res] = None
        if getattr(s.ob, 'first', False):
            r = s.ob.call(s, p, i)
            if r is not None:
                if i.res is not None:
                    p.env[i.res] = r
                return
        if c == 'bc_isspace':
            v = s.value(p, i.args[0])
            space = lambda v: int(v & 255 in (9, 10, 11, 12, 13, 32))
            if isinstance(v, int):
                p.env[i.res] = space(v)
            elif lazy(v):
                p.env[i.res] = ('B', v[1], tuple((c, space(w)) for c, w in v[2]))
            return
        if c == 'bc_string_new':
            k = ('s', i.res)
            p.heap[k] = ()
            p.env[i.res] = ('P', k, (0, ()))
            return
        if c in ('bc_string_append_c', 'bc_string_free') and i.args:
            a = s.value(p, i.args[0])
            if isinstance(a, tuple) and a[0] == 'P' and isinstance(a[1], tuple) and a[1][0] == 's':
                t = p.heap.get(a[1])
                if c == 'bc_string_free':
                    p.heap[a[1]] = None
                else:
                    v = s.value(p, i.args[1])
                    p.heap[a[1]] = t + (v & 255,) if t is not None and isinstance(v, int) else None
                    if i.res is not None:
                        p.env[i.res] = a
            if i.res is not None and p.env[i.res] is None:
                p.env[i.res] = ('V',)
            return
        if c in ('malloc', 'calloc', 'bc_malloc', 'bc_realloc', 'realloc') and i.res is not None:
            k = ('o', i.res)
            for x in [x for x in p.heap if x[0] == 'm' and x[1] == k]:
                del p.heap[x]
            p.env[i.res] = ('P', k, (0, ()))
            return
        r = s.ob.call(s, p, i)
        if r is not None and i.res is not None:
            p.env[i.res] = r
            return
        for a in i.args:
            v = s.value(p, a)
            if isinstance(v, tuple) and v[0] == 'P' and isinstance(v[1], tuple):
                if v[1][0] == 's':
                    p.heap[v[1]] = None
                elif v[1][0] == 'a':
                    for x in [x for x in p.heap if x[0] == 'm' and x[1] == v[1]]:
                        p.heap[x] = None
            if isinstance(v, tuple) and v[:2] == ('P', 'err') and c not in s.mod.decls:
                p.heap['err'] = 1 if s.seterr(c) else p.heap['err']

    def seterr(s, c):
        return False

    # ---- configurations
    def arrive(s, p, frm, add):
        vals = {}
        pos = None
        for i in s.head.phis():
            v = next((x for x, pb in i.extra if pb == frm.name), None)
            w = s.value(p, v) if v is not None else None
            if i.res == s.pos:
                pos = w
                continue
            if i.res in s.tracked:
                if not isinstance(w, int):
                    if w is not None:
                        w = None
                    s.unknown[i.res] = s.unknown.get(i.res, 0) + 1
                else:
                    sv = signed(w, bits(i.type))
                    if sv > CAP or sv < -CAP:
                        return
                    w &= (1 << bits(i.type)) - 1
                vals[i.res] = w
            elif i.type == 'ptr' and isinstance(w, tuple) and w[0] == 'P' and isinstance(w[1], tuple) and w[1][0] in ('s', 'a') and w[2] == (0, ()):
                vals[i.res] = w
        for n, v in p.env.items():
            # values computed before the loop
            d = s.fn.defs.get(n)
            if d is not None and d.block not in s.loop.body and (isinstance(v, int) or isinstance(v, tuple) and v[0] == 'P' and isinstance(v[1], tuple)) \
                    and n not in vals:
                vals[n] = v
        heap = {k: v for k, v in p.heap.items() if k == 'err' or k[0] == 's' or k[0] == 'm' and isinstance(k[1], tuple) and k[1][0] == 'a'}
        more, forced, obs, alts = None, None, p.obs, None
        if p.last is not None:
            cur = pos[2] if isinstance(pos, tuple) and pos[0] == 'P' else form(pos) if pos is not None else None
            if cur is None:
                obs = s.ob.lost(obs)
            else:
                d = combine(cur, (0, ((s.pos, 1),)), -1)
                d = signed(d, 64) if isinstance(d, int) else None
                here = (0, ((s.pos, 1),))
                if d == 1:
                    k = p.bytes.get(here, s.every)
                    alts = {}
                    for c in s.ob.bytes:
                        if c in k:
                            alts[s.ob.consumed(obs, c)] = c
                    k = k - set(s.ob.bytes)
                    if k:
                        alts[s.ob.consumed(obs, min(k))] = min(k)
                    more = not p.last[1] if p.last[0] == 'more' and p.last[1] is not None else None
                elif d == 0:
                    more = True
                    forced = p.bytes.get(here)
                    if forced == s.every:
                        forced = None
                else:
                    obs = s.ob.lost(obs)
        for o in (alts if alts is not None else [obs]):
            if o is not None:
                add((tuple(sorted(vals.items())), tuple(sorted(heap.items(), key=repr)), o, more, forced), p.trace)
