"""Use of values that were never given. The programs are compiled so that every variable starts out with a recognisable
value (clang -ftrivial-auto-var-init=pattern); a path on which that value is used is a path on which the variable was
not set. Aggregates and heap objects are followed by member."""
from . import ditypes, lib
from .paths import Rule, Engine, Sym

FLAGS = ('-ftrivial-auto-var-init=pattern',)
WIDE = {-1431655766, 2863311530, -6148914691236517206, 0xAAAAAAAAAAAAAAAA, -21846, 43690}
BYTE = {-86, 170}
TM = (0, 4, 8, 12, 16, 20)
# what a library function reads through an argument: offsets, or 'any' for text
READS = {'mktime': {0: TM + (32,)}, 'timegm': {0: TM}, 'strftime': {3: TM}, 'asctime': {0: TM},
         'strlen': {0: 'any'}, 'strdup': {0: 'any'}, 'strcmp': {0: 'any', 1: 'any'}, 'strncmp': {0: 'any', 1: 'any'},
         'strcasecmp': {0: 'any', 1: 'any'}, 'strstr': {0: 'any', 1: 'any'}, 'strchr': {0: 'any'}, 'strrchr': {0: 'any'}, 'fputs': {0: 'any'},
         'puts': {0: 'any'}, 'strcpy': {1: 'any'}, 'strcat': {0: 'any', 1: 'any'}, 'atoi': {0: 'any'}, 'strtol': {0: 'any'},
         'sigaction': {1: (0, 136)}}
ALLOC = {'bc_malloc', 'malloc'}
KEEP = {'bc_slist_append', 'bc_slist_prepend', 'bc_trie_insert', 'bc_slist_append_list'}


class Summary:
    """offsets that a function reads through its parameters before it writes them: {param: set of offsets or 'any'}"""

    def __init__(s, mod):
        s.mod = mod
        s.r = {f: {} for f in mod.fns}
        s.w = {f: set() for f in mod.fns}
        for _ in range(4):
            ch = False
            for f, fn in mod.fns.items():
                for k, (p, _) in enumerate(fn.params):
                    n = s.reads(fn, p)
                    if n != s.r[f].get(k):
                        s.r[f][k] = n
                        ch = True
                    if k not in s.w[f] and s.writes(fn, p):
                        s.w[f].add(k)
                        ch = True
            if not ch:
                break

    def direct(s, fn, op):
        b, off = ditypes.base_off(fn, op)
        return (b[1], off) if b[0] == 'l' else (None, None)

    def reads(s, fn, p):
        res = set()
        work, seen = [(fn.entry, frozenset())], set()
        while work:
            b, w = work.pop()
            if (b, w) in seen or len(seen) > 3000:
                continue
            seen.add((b, w))
            for i in b.instrs:
                if i.op == 'load':
                    n, o = s.direct(fn, i.args[0])
                    if n == p and ('any' not in w) and (o is None or o not in w):
                        res.add('any' if o is None else o)
                elif i.op == 'store':
                    n, o = s.direct(fn, i.args[1])
                    if n == p:
                        w = w | {'any' if o is None else o}
                elif i.op == 'call':
                    for k, a in enumerate(i.args):
                        n, o = s.direct(fn, a)
                        if n != p:
                            continue
                        rd = s.of(i, k)
                        for x in rd:
                            if x == 'any' or o is None:
                                if 'any' not in w and not w:
                                    res.add('any')
                            elif o + x not in w and 'any' not in w:
                                res.add(o + x)
                        if s.mayset(i, k):
                            w = w | {'any'}
            t = b.term
            if t.op == 'switch' or t.op == 'br' and t.args and not s.nullcheck(fn, t.args[0]):
                continue
            for t in b.succs:
                work.append((t, w))
        return frozenset(res)

    def nullcheck(s, fn, op):
        """is a condition about nothing but arguments that may be absent (what lies behind other conditions is not followed)"""
        d = fn.defs.get(op[1]) if op[0] == 'l' else None
        if d is None:
            return False
        if d.op == 'phi' and d.type == 'i1':
            return all(v[0] == 'i' or s.nullcheck(fn, v) for v, _ in d.extra)
        return d.op == 'icmp' and any(a == ('null',) for a in d.args)

    def of(s, i, k):
        if i.callee in s.mod.fns:
            return s.r[i.callee].get(k, frozenset())
        x = READS.get(i.callee, {}).get(k)
        return frozenset() if x is None else frozenset({'any'}) if x == 'any' else frozenset(x)

    def mayset(s, i, k):
        if i.callee in s.mod.fns:
            return k in s.w[i.callee]
        if (i.callee or '').startswith(('llvm.dbg', 'llvm.lifetime')):
            return False
        return not (k in READS.get(i.callee, {})) or i.callee in ('mktime', 'strcat')

    def writes(s, fn, p):
        for i in fn.instrs():
            if i.op == 'store':
                if s.direct(fn, i.args[1])[0] == p or i.args[0] == ('l', p):
                    return True
            elif i.op == 'call':
                for k, a in enumerate(i.args):
                    if s.direct(fn, a)[0] == p and s.mayset(i, k) and not (i.callee in KEEP) and i.callee != 'free':
                        return True
            elif i.op in ('phi', 'select') and ('l', p) in (i.args if i.op == 'select' else [v for v, _ in i.extra]):
                return True
        return False


class Uninit(Rule):
    """ts: ('raw', alloca, offsets set) ('obj', value, type, offsets set)"""

    def __init__(s, mod, fn, summ):
        s.m, s.f, s.sum = mod, fn, summ
        s.bad = {}
        s.uses = s.objs = s.raws = 0
        s.site = {}

    def init(s, fn):
        return frozenset()

    def flag(s, key, ins, msg, cx):
        s.bad.setdefault(key, (ins, msg, cx.trace()))

    def isalloca(s, name):
        d = s.f.defs.get(name)
        return d is not None and d.op == 'alloca'

    def pure_call(s, ins):
        for a in ins.args:
            b, o = ditypes.base_off(s.f, a)
            if b[0] == 'l' and s.isalloca(b[1]):
                return False
        return None

    def pattern(s, v, op):
        if v[0] != 'c':
            return False
        if v[1] in WIDE:
            return True
        if v[1] in BYTE and op[0] == 'l':
            d = s.f.defs.get(op[1])
            return d is not None and d.type == 'i8'
        return False

    def partition(s, cx):
        return frozenset(k for k, v in cx.st.env.items() if v[0] == 'c' and (v[1] in WIDE or v[1] in BYTE)) | \
            frozenset(k for k, v in cx.st.mem.items() if v[0] == 'c' and (v[1] in WIDE or v[1] in BYTE))

    def name(s, op, cx):
        """source name of the variable that was not set"""
        n = op[1] if op[0] == 'l' else ''
        for ref in sorted(getattr(s.f, 'dbgvars', {}).get(n, ())):
            d = s.m.md_get(ref)
            if d is not None and d.get('name'):
                return d['name']
        return None

    def fieldname(s, t, off):
        m = ditypes.member(s.m, t, off) if t else None
        return m[1] if m else 'offset %s' % off

    def cells(s, fields, base, extra):
        return None

    def instr(s, ts, ins, cx):
        op = ins.op
        if op in ('phi',):
            return ts
        if op == 'store':
            b, off = ditypes.base_off(s.f, ins.args[1])
            v = cx.val(ins.args[0])
            if b[0] == 'l' and s.isalloca(b[1]):
                r = next((t for t in ts if t[0] == 'raw' and t[1] == b[1]), None)
                if r:
                    ts = ts - {r}
                    if off is not None:
                        ts = ts | {('raw', r[1], r[2] | {off})}
                # a variable starts out without a value; copies between variables are judged at their use
                return s.stored(ts, ins, cx)
            ts = s.stored(ts, ins, cx)
            if s.pattern(v, ins.args[0]):
                s.flag('stored:%d' % ins.line, ins, 'a value that was never set is stored', cx)
            return ts
        if op == 'call':
            return s.call(ts, ins, cx)
        ops = ins.args
        if op == 'select':
            ops = ins.args[:1]
        for a in ops:
            if a[0] in ('l', 'i', 'cast') and s.pattern(cx.val(a), a):
                s.flag('used:%s' % (ins.line,), ins, 'a variable is used on a path on which it was never set%s' % s.named(a), cx)
        s.uses += 1
        if op == 'load':
            b, off = ditypes.base_off(s.f, ins.args[0])
            if b[0] == 'l' and s.isalloca(b[1]):
                for t in ts:
                    if t[0] == 'raw' and t[1] == b[1] and off is not None and off not in t[2]:
                        s.flag('member:%s' % ins.line, ins, 'a member of a local variable is used on a path on which it was never set', cx)
            v = cx.val(b)
            for t in ts:
                if t[0] == 'obj' and t[1] == v and off is not None and off not in t[3] and off in s.offsets(t[2]):
                    s.flag('heap:%s' % ins.line, ins, 'member %s of a new object is used before it is set' % s.fieldname(s.types[t[2]], off), cx)
        if op == 'ret':
            pass
        return ts

    def named(s, a):
        n = s.name(a, None)
        return ' (%s)' % n if n else ''

    types = {}
    used = None

    def offsets(s, key):
        t = s.types[key]
        ref = ditypes.strip(s.m, t)
        d = s.m.md_get(ref)
        el = s.m.md_get(d.get('elements', '')) if d else None
        r = {}
        for m in (el or {'items': ()})['items']:
            md = s.m.md_get(m)
            if md is not None and md.get('tag') == 'DW_TAG_member':
                sub = s.m.md_get(ditypes.strip(s.m, md.get('baseType')) or '')
                o, z = int(md.get('offset', '0')) // 8, int(md.get('size', '0')) // 8
                if s.used is not None and md.get('name') not in s.used:
                    continue
                if sub is not None and sub['kind'] == 'DICompositeType' and sub.get('tag') != 'DW_TAG_enumeration_type':
                    if sub.get('tag') == 'DW_TAG_array_type' and ditypes.pointee(s.m, sub.get('baseType')) and z <= 64:
                        for k in range(0, z, 8):
                            r[o + k] = '%s[%d]' % (md.get('name'), k // 8)
                    continue
                r[o] = md.get('name')
        return r

    def stored(s, ts, ins, cx):
        b, off = ditypes.base_off(s.f, ins.args[1])
        v = cx.val(b)
        for t in list(ts):
            if t[0] == 'obj' and t[1] == v:
                ts = ts - {t}
                if off is not None:
                    ts = ts | {('obj', t[1], t[2], t[3] | {off})}
        return ts

    def call(s, ts, ins, cx):
        c = ins.callee or ''
        if c.startswith('llvm.dbg') or c.startswith('llvm.lifetime'):
            return ts
        if c.startswith('llvm.mem'):
            b, off = ditypes.base_off(s.f, ins.args[0])
            if b[0] == 'l' and s.isalloca(b[1]):
                ts = frozenset(t for t in ts if not (t[0] == 'raw' and t[1] == b[1]))
                pat = c.startswith('llvm.memset') and ins.args[1][0] == 'i' and ins.args[1][1] in BYTE
                if c.startswith('llvm.memcpy') and ins.args[1][0] == 'g' and ins.args[1][1].startswith('__const.'):
                    g = s.m.globals.get(ins.args[1][1])
                    pat = g is not None and haspat(g.init)
                if pat and off == 0:
                    s.raws += 1
                    ts = ts | {('raw', b[1], frozenset())}
            v = cx.val(b)
            ts = frozenset(t for t in ts if not (t[0] == 'obj' and t[1] == v))
            if c.startswith('llvm.memcpy') and ins.args[1][0] == 'l':
                b, off = ditypes.base_off(s.f, ins.args[1])
                for t in ts:
                    if t[0] == 'raw' and b == ('l', t[1]) and not t[2]:
                        s.flag('copied:%s' % ins.line, ins, 'a local variable is copied before it is set', cx)
            return ts
        if c.startswith('llvm.va'):
            return ts
        for k, a in enumerate(ins.args):
            if a[0] in ('l', 'i', 'cast') and s.pattern(cx.val(a), a):
                s.flag('passed:%s' % ins.line, ins, 'a variable is passed on a path on which it was never set%s' % s.named(a), cx)
            b, off = ditypes.base_off(s.f, a)
            if b[0] == 'l' and s.isalloca(b[1]):
                rd = s.sum.of(ins, k)
                raw = next((t for t in ts if t[0] == 'raw' and t[1] == b[1]), None)
                for x in rd:
                    if raw is not None and off is not None:
                        if (x == 'any' and not raw[2]) or (x != 'any' and off + x not in raw[2]):
                            s.flag('read:%s' % ins.line, ins, '%s reads a local variable that is not set' % c, cx)
                    elif raw is None and off == 0 and x == 0:
                        v = cx.mem(a)
                        if v is not None and v[0] == 'c' and v[1] in WIDE:
                            s.flag('read:%s' % ins.line, ins, '%s reads a local variable that is not set' % c, cx)
                if s.sum.mayset(ins, k):
                    ts = frozenset(t for t in ts if t != raw)
            v = cx.val(b)
            for t in list(ts):
                if t[0] == 'obj' and t[1] == v and off == 0:
                    for x in s.sum.of(ins, k):
                        if x != 'any' and x not in t[3] and x in s.offsets(t[2]):
                            s.flag('heap:%s' % ins.line, ins, '%s uses the member %s of a new object before it is set' % (c, s.fieldname(s.types[t[2]], x)), cx)
                    if c == 'free' or (c not in KEEP and s.sum.mayset(ins, k)):
                        ts = ts - {t}
        return ts

    def after(s, ts, ins, cx):
        if ins.callee in ALLOC and ins.res and ins.args and ins.args[0][0] == 'i':
            t = ditypes.type_of(s.f, ('l', ins.res))
            p = ditypes.pointee(s.m, t) if isinstance(t, str) else None
            if p is None:
                return ts
            d = s.m.md_get(ditypes.strip(s.m, p) or '')
            if d is None or d['kind'] != 'DICompositeType' or d.get('tag') != 'DW_TAG_structure_type':
                return ts
            if int(d.get('size', '0')) // 8 != ins.args[0][1]:
                return ts
            k = ditypes.typename(s.m, p) or '?'
            s.types[k] = p
            s.objs += 1
            s.site[k] = ins
            v = cx.val(('l', ins.res))
            if v[0] == 's' and v[1] != '?':
                return frozenset(x for x in ts if not (x[0] == 'obj' and x[1] == v)) | {('obj', v, k, frozenset())}
        return ts

    def edge(s, ts, frm, to, cx):
        return frozenset(t for t in ts if not (t[0] == 'obj' and (t[1][1] == '?' or cx.null(t[1]) is True)))

    def exit(s, ts, ins, cx):
        if ins.op != 'ret':
            return
        for t in ts:
            if t[0] == 'obj':
                miss = [n for o, n in sorted(s.offsets(t[2]).items()) if o not in t[3]]
                if miss:
                    s.flag('left:%s:%s' % (t[2], ','.join(miss)), s.site[t[2]], 'a new %s can be left without a value for %s' % (t[2], ', '.join(miss)), cx)


def haspat(x):
    if isinstance(x, (tuple, list)):
        if len(x) == 2 and x[0] == 'i':
            return x[1] in WIDE
        if len(x) == 2 and x[0] == 'str':
            return b'\xaa\xaa\xaa\xaa' in x[1]
        return any(haspat(y) for y in x)
    return False


def relevant(fn):
    """does the function have anything to follow"""
    for i in fn.instrs():
        if i.op == 'call':
            if (i.callee or '').startswith('llvm.mem') or i.callee in ALLOC:
                return True
        for a in ([v for v, _ in i.extra] if i.op == 'phi' else i.args):
            if a[0] == 'i' and (a[1] in WIDE or a[1] in BYTE) or a[0] == 'cast' and a[2][0] == 'i' and a[2][1] in WIDE:
                return True
    return False


def analyse(rep, prog, mod, skip=()):
    summ = Summary(mod)
    used = set()        # members that anybody reads
    for fn in lib.own(mod):
        for i in fn.instrs():
            for a in i.args[:1] if i.op == 'load' else i.args if i.op in ('call', 'icmp', 'ret') else ():
                m = ditypes.member_at(fn, a) if a[0] in ('l', 'gep') else None
                if m:
                    used.add(m[1])
                b, off = ditypes.base_off(fn, a) if a[0] in ('l', 'gep') else (None, None)
                if b is not None and b != a and off is None:
                    # an element of an array member
                    d = fn.defs.get(a[1]) if a[0] == 'l' else None
                    while d is not None and d.op == 'getelementptr':
                        m = ditypes.member_at(fn, d.args[0])
                        if m:
                            used.add(m[1])
                        d = fn.defs.get(d.args[0][1]) if d.args[0][0] == 'l' else None
    for fn in lib.own(mod):
        if fn.name in skip:
            continue
        rep.count('functions examined for unset variables', 1)
        if not relevant(fn):
            continue
        u = Uninit(mod, fn, summ)
        u.types = {}
        u.used = used
        Engine(fn, u, 400000).run()
        rep.count('functions with variables followed on all paths', 1, '%s:%s' % (prog, fn.name))
        rep.count('local aggregates followed', u.raws)
        rep.count('new objects followed', u.objs)
        for k, (ins, msg, tr) in sorted(u.bad.items()):
            kk = k.split(':')[0] if k.split(':')[0] != 'left' else k
            rep.violation('%s:%s:%s' % (prog, fn.name, kk), ins.loc(), msg, tr)
