"""Comparators handed to a sort are antisymmetric, total and lose no difference."""
import itertools
from engine import frontend, ir, lib

SORTS = {'bc_slist_sort': 1, 'qsort': 3, 'qsort_r': 3}
CMPS = {'strcmp', 'strcoll', 'bc_strcmp'}
KEYFN = {'bc_trie_lookup', 'strtol', 'strtoll', 'strtoimax', 'bc_config_get'}
LOSSY = {'trunc', 'sdiv', 'udiv', 'srem', 'urem', 'lshr', 'ashr', 'and', 'or', 'xor', 'shl', 'mul', 'fptosi', 'fptoui', 'fptrunc'}


class Undecided(Exception):
    pass


class Fault(Exception):
    def __init__(s, ins, msg):
        s.ins, s.msg = ins, msg


def comparators(mod):
    """functions that flow into the comparator argument of a sort"""
    out = {}
    for fn in lib.own(mod):
        for i in fn.instrs():
            if i.op == 'call' and i.callee in SORTS and SORTS[i.callee] < len(i.args):
                for o in lib.origins(fn, i.args[SORTS[i.callee]]):
                    if o[0] == 'g' and o[1] in mod.fns:
                        out[o[1]] = i
    return out


def mirror(t):
    """the same tree with the operands exchanged"""
    if t == ('p', 0):
        return ('p', 1)
    if t == ('p', 1):
        return ('p', 0)
    if isinstance(t, tuple):
        return tuple(mirror(x) for x in t)
    return t


def sides(t):
    if t == ('p', 0):
        return {0}
    if t == ('p', 1):
        return {1}
    if isinstance(t, tuple):
        r = set()
        for x in t:
            r |= sides(x)
        return r
    return set()


def evaluate(fn, order, pred, used):
    """sign of the result when each key pair compares as order(tree0) in {-1,0,1} and one-sided
    tests answer pred[(side, tree on side 0, test)]"""
    env = {}
    ps = [p for p, _ in fn.params]

    def V(op):
        if op[0] == 'l':
            if op[1] in ps:
                return ('tree', ('p', ps.index(op[1])))
            return env[op[1]]
        if op[0] == 'i':
            return ('int', op[1])
        if op[0] == 'null':
            return ('int', 0)
        if op[0] in ('g', 'gep'):
            return ('tree', ('const', repr(fn.module.string(op) or op)))
        raise Undecided(repr(op))

    def cmp_keys(a, b, kind):
        """sign of key a versus key b"""
        sa, sb = sides(a), sides(b)
        if sa == {0} and sb == {1} and mirror(a) == b:
            used['keys'].add((a, kind))
            return order
        if sa == {1} and sb == {0} and mirror(a) == b:
            used['keys'].add((b, kind))
            return -order
        raise Undecided('keys of different shape are compared')

    def one_sided(t, test, ins):
        s = sides(t)
        if len(s) != 1:
            raise Undecided('test on both operands')
        side = min(s)
        k = (side, t if side == 0 else mirror(t), test)
        used['preds'].add(k[1:])
        return pred.get(k, False)
    blk, prev = fn.entry, None
    for _ in range(500):
        vals = []
        for p in blk.phis():
            for v, pb in p.extra:
                if pb == prev:
                    vals.append((p.res, V(v)))
        env.update(vals)
        for i in blk.instrs:
            o = i.op
            if o == 'phi':
                continue
            if o == 'br':
                if i.args:
                    c = V(i.args[0])
                    if c[0] != 'int':
                        raise Undecided('branch')
                    nxt = i.extra[0 if c[1] else 1]
                else:
                    nxt = i.extra[0]
                prev, blk = blk.name, fn.blocks[nxt]
                break
            if o == 'ret':
                v = V(i.args[0])
                if v[0] == 'int':
                    return (v[1] > 0) - (v[1] < 0)
                if v[0] == 'sign':
                    return v[1]
                raise Undecided('result')
            if o in ('getelementptr', 'load'):
                a = V(i.args[0])
                if a[0] != 'tree':
                    raise Undecided(o)
                env[i.res] = ('tree', (o, a[1]) + tuple(x[1] for x in i.args[1:] if x[0] == 'i'))
            elif o == 'call':
                if i.callee in CMPS:
                    a, b = V(i.args[0]), V(i.args[1])
                    env[i.res] = ('sign', cmp_keys(a[1], b[1], 'str'))
                elif i.res is None or i.type == 'void':
                    continue
                else:
                    ts = []
                    for k in i.args:
                        v = V(k)
                        ts.append(v[1] if v[0] == 'tree' else v)
                    t = (i.callee,) + tuple(ts)
                    if i.callee in ('strtoul', 'strtoull', 'strtoumax') and sides(t):
                        raise Fault(i, '%s() wraps negative keys (dates before 1970) to large ones' % i.callee)
                    if i.callee in ('atoi',) and sides(t):
                        raise Fault(i, 'atoi() truncates keys to int')
                    if i.callee not in KEYFN and i.callee not in fn.module.fns and sides(t):
                        if i.callee in ('strlen', 'toupper', 'tolower'):
                            raise Fault(i, '%s() maps different keys to one' % i.callee)
                        if i.callee not in ('atol', 'atoll', 'strtod'):
                            raise Undecided('call ' + str(i.callee))
                    env[i.res] = ('tree', t)
            elif o in ('zext', 'sext'):
                a = V(i.args[0])
                if a[0] == 'int':
                    env[i.res] = ('int', -a[1] if (o == 'sext' and i.extra == 'i1') else a[1])
                elif a[0] == 'tree':
                    env[i.res] = ('tree', ('ext', i.extra, a[1]))
                else:
                    env[i.res] = a
            elif o == 'icmp':
                a, b = V(i.args[0]), V(i.args[1])
                p = i.extra
                if a[0] == 'tree' and b[0] == 'tree' and sides(a[1]) and sides(b[1]):
                    s = cmp_keys(a[1], b[1], p[0])
                    env[i.res] = ('int', int(dec(p, s, 0)))
                elif a[0] == 'sign' and b == ('int', 0):
                    env[i.res] = ('int', int(dec(p, a[1], 0)))
                elif a[0] == 'int' and b[0] == 'int':
                    env[i.res] = ('int', int(dec(p, a[1], b[1])))
                elif a[0] == 'tree' and b[0] == 'int':
                    r = one_sided(a[1], ('eq' if p in ('eq', 'ne') else p, b[1]), i)
                    env[i.res] = ('int', int(r if p != 'ne' else not r))
                elif a[0] == 'sign' and b[0] == 'int':
                    raise Fault(i, 'the magnitude of a comparison result is tested against %d' % b[1])
                else:
                    raise Undecided('icmp')
            elif o in ('add', 'sub', 'mul') or o in LOSSY:
                vs = [V(x) for x in i.args]
                if o == 'sub' and all(v[0] == 'tree' and sides(v[1]) for v in vs):
                    a, b = vs[0][1], vs[1][1]
                    if a[0] == 'ext' and b[0] == 'ext' and int(a[1][1:]) < int(i.type[1:]):
                        env[i.res] = ('sign', cmp_keys(a, b, 's'))
                    else:
                        raise Fault(i, 'the difference of two full-range keys wraps around or is narrowed')
                elif all(v[0] == 'int' for v in vs) and o in ('add', 'sub', 'mul', 'xor', 'and', 'or'):
                    x, y = vs[0][1], vs[1][1]
                    env[i.res] = ('int', {'add': x + y, 'sub': x - y, 'mul': x * y, 'xor': x ^ y, 'and': x & y, 'or': x | y}[o])
                elif o == 'sub' and vs[0] == ('int', 0) and vs[1][0] == 'sign':
                    env[i.res] = ('sign', -vs[1][1])
                elif o == 'mul' and sorted(v[0] for v in vs) == ['int', 'sign']:
                    c = [v for v in vs if v[0] == 'int'][0][1]
                    sg = [v for v in vs if v[0] == 'sign'][0][1]
                    env[i.res] = ('sign', sg * ((c > 0) - (c < 0)))
                elif o == 'trunc' and vs[0][0] == 'int':
                    env[i.res] = vs[0] if i.type != 'i1' else ('int', vs[0][1] & 1)
                elif o in LOSSY and any(v[0] == 'tree' and sides(v[1]) for v in vs):
                    raise Fault(i, '%s makes different keys equal' % o)
                elif o in LOSSY and any(v[0] == 'sign' for v in vs):
                    raise Fault(i, '%s on a comparison result' % o)
                else:
                    raise Undecided(o)
            elif o == 'select':
                c = V(i.args[0])
                if c[0] != 'int':
                    raise Undecided('select')
                env[i.res] = V(i.args[1] if c[1] else i.args[2])
            elif o == 'store' or o == 'alloca':
                env[i.res] = ('tree', ('slot',))
            else:
                raise Undecided(o)
        else:
            raise Undecided('block end')
    raise Undecided('loop')


def dec(p, a, b):
    return {'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[p if p in ('eq', 'ne') else p[1:]]


def analyse(rep, name, fn, site):
    used = {'keys': set(), 'preds': set()}
    try:
        # discover the one-sided tests
        for _ in range(6):
            n = len(used['preds'])
            for preds in assignments(used['preds']):
                for o in (-1, 0, 1):
                    evaluate(fn, o, preds, used)
            if len(used['preds']) == n:
                break
        for preds in assignments(used['preds']):
            swapped = {(1 - s, t, k): v for (s, t, k), v in preds.items()}
            same = preds == swapped
            normal = not any(v for (s, t, k), v in preds.items() if k == ('eq', 0))
            for o in (-1, 0, 1):
                if o == 0 and not same:
                    continue
                a = evaluate(fn, o, preds, used)
                b = evaluate(fn, -o, swapped, used)
                rep.count('orderings evaluated')
                if a != -b:
                    rep.violation('antisymmetry:' + name, site.loc(), 'comparator %s: exchanging the operands does not exchange '
                                  'the answer (%d and %d)' % (name, a, b))
                if normal and o != 0 and a == 0:
                    rep.violation('total:' + name, site.loc(), 'comparator %s treats different keys as equal' % name)
        if not used['keys']:
            rep.violation('nokey:' + name, site.loc(), 'comparator %s does not compare its operands' % name)
        rep.count('comparators decided', 1, name)
    except Fault as f:
        rep.violation('lossy:%s:%s' % (name, f.ins.op if f.ins.op != 'call' else f.ins.callee), f.ins.loc(),
                      'comparator %s: %s' % (name, f.msg))
    except Undecided as u:
        rep.count('comparators not decided', 1, '%s: %s' % (name, u))


def assignments(preds):
    ks = [(s, t, k) for t, k in sorted(preds, key=repr) for s in (0, 1)]
    for bits in itertools.product((False, True), repeat=len(ks)):
        yield dict(zip(ks, bits))


def sort_uses_sign(rep, mod):
    """inside a repository sort the result of the comparator is used only through its sign, and ties never move"""
    for s in SORTS:
        fn = mod.fns.get(s)
        if fn is None:
            continue
        for i in fn.instrs():
            if i.op == 'call' and i.callee is None and i.res is not None:
                rep.count('comparator calls inside the sort')
                for u in fn.uses[i.res]:
                    if u.op != 'icmp':
                        rep.violation('use:%s' % s, u.loc(), 'the comparator result is used other than by comparing it')
                        continue
                    left = u.args[0] == ('l', i.res)
                    c = u.args[1] if left else u.args[0]
                    if c[0] not in ('i', 'null'):
                        rep.violation('use:%s' % s, u.loc(), 'the comparator result is compared with a variable')
                        continue
                    k = c[1] if c[0] == 'i' else 0

                    def ev(x):
                        return dec(u.extra, x, k) if left else dec(u.extra, k, x)
                    pos, zero, neg = {ev(1), ev(2), ev(2**31 - 1)}, {ev(0)}, {ev(-1), ev(-2), ev(-2**31)}
                    if len(pos) > 1 or len(neg) > 1 or pos == neg or zero != neg:
                        rep.violation('sign:%s' % s, u.loc(), 'the sort does not separate "greater" from "less or equal" by the sign')


def run(rep, tier):
    rep.rule('Comparators are the functions that reach the comparator argument of a sort. Each is evaluated over the finite set '
             '{less, equal, greater} of orderings of its keys and all outcomes of its one-sided tests: exchanging the operands '
             'must negate the sign, different keys must not compare equal, and no step may narrow, wrap or merge keys.')
    rep.assumption('a key is the same function applied to both operands; strtol and trie lookups are injective on the stored timestamps')
    mod = ir.load('blogc')
    for p in ('blogc', 'make'):
        mod = ir.load(p)
        for name, site in sorted(comparators(mod).items()):
            rep.count('comparators found', 1, p + ':' + name)
            analyse(rep, name, mod.fns[name], site)
        sort_uses_sign(rep, mod)
    rep.floor('comparators found', 1)
    m = frontend.snippet('''#include <stdlib.h>
struct k {unsigned long v; int w;};
static int c1(const void*a,const void*b){return (int)(((struct k*)a)->v - ((struct k*)b)->v);}
static int c2(const void*a,const void*b){return ((struct k*)a)->v > ((struct k*)b)->v;}
static int c3(const void*a,const void*b){return (((struct k*)a)->v > ((struct k*)b)->v) - (((struct k*)a)->v < ((struct k*)b)->v);}
static int c4(const void*a,const void*b){return ((struct k*)a)->w/60 > ((struct k*)b)->w/60 ? 1 : -1;}
void f(void*p){qsort(p,1,1,c1);qsort(p,1,1,c2);qsort(p,1,1,c3);qsort(p,1,1,c4);}''')
    q = lib.Quiet()
    for name, site in sorted(comparators(m).items()):
        analyse(q, name, m.fns[name], site)
    rep.selftest('narrowed difference, boolean result, lossy key', sorted(x.split(':')[1] for x in q.v) == ['c1', 'c2', 'c2', 'c4']
                 or sorted({x.split(':')[1] for x in q.v}) == ['c1', 'c2', 'c4'])
