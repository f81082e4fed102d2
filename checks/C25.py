"""An output is rebuilt whenever a file it is made from is newer: what is built from and what is compared agree,
and no way to decide "up to date" leaves a file out."""
from engine import lib, frontend, loops, ditypes
from engine.paths import Rule, Engine, Sym

DECIDE, RELOAD, CHANGED, CTXRELOAD = 'bm_rule_need_rebuild', 'bm_filectx_reload', 'bm_filectx_changed', 'bm_ctx_reload'
SOURCES, OUTPUT, ONLY = 0, 4, 5
GIVEN = {1: 'settings', 2: 'listing entry', 3: 'template'}
# build function -> positions of (sources, listing entry, template, output, only the first source)
BUILDS = {'bm_exec_blogc': (7, 4, 5, 6, 8), 'bm_exec_native_cp': (0, None, None, 1, None)}
APPEND, PREPEND = 'bc_slist_append', 'bc_slist_prepend'
FIELD = {'tv_sec': 'sec', 'tv_nsec': 'nsec', 'readable': 'rd', 'st_mtim.tv_sec': 'sec', 'st_mtim.tv_nsec': 'nsec'}
ORD = {'eq': '=', 'ne': '<>', 'slt': '<', 'ult': '<', 'sgt': '>', 'ugt': '>', 'sle': '<=', 'ule': '<=', 'sge': '>=', 'uge': '>='}
SWAP = {'<': '>', '>': '<', '=': '='}
ALL = frozenset('<=>')


def field(fn, addr):
    """the age field an address designates"""
    m = ditypes.member_at(fn, addr)
    if m is None:
        return None
    st, f = m[0], m[1]
    if st and 'stat' in st and f == 'st_mtim' or st == 'timespec':
        b, off = ditypes.base_off(fn, addr)
        inner = ditypes.member(fn.module, m[2], 0) if f == 'st_mtim' else None
        if f == 'st_mtim':
            return 'sec'
        return FIELD.get(f)
    return FIELD.get(f)


class Ages(Rule):
    """ts: ('t', value, field, object) a loaded number   ('r', object, field, relations to the reference)
    ('rd', object) readable   ('ok', object) certainly not newer   ('L', cursor, kinds, all good so far)
    ('S', cursor) on the sources   ('D', element, cursor)   ('h', cursor) element handled
    ('app', kind) ('done', kinds) ('srcdone',) ('srcbad',) ('first',) ('only',) ('outok',) ('odd',) ('d', value, field, object, sign)"""
    readable = True

    def __init__(s, fn, ref, params, sources=None, only=None):
        s.f, s.ref = fn, ref
        s.P = params            # symbol -> kind
        s.sources, s.only = sources, only
        s.fields = {}
        s.outs = {}
        s.bad = {}
        s.ends = s.cmp = s.odd = 0

    def init(s, fn):
        r = set()
        if s.sources:
            r.add(('S', ('s', Sym(s.sources))))
        return frozenset(r)

    def isref(s, x):
        return s.ref is not None and x == ('s', Sym(s.ref))

    def obj(s, ins, cx):
        b, off = ditypes.base_off(s.f, ins.args[0])
        return cx.val(b)

    def loaded(s, ts, ins, cx):
        v = cx.val(('l', ins.res))
        if v[0] != 's' or v[1] == '?':
            return ts
        m = ditypes.member_at(s.f, ins.args[0])
        if m is None:
            return ts
        x = s.obj(ins, cx)
        fl = field(s.f, ins.args[0])
        if fl and x[0] == 's':
            return ts | {('t', v, fl, x)}
        if m[1] == 'data':
            for c in list(ts):
                if c[0] in ('L', 'S') and c[1] == x:
                    ts = ts | {('D', v, x)}
        if m[1] == 'next':
            for c in list(ts):
                if c[0] not in ('L', 'S') or c[1] != x:
                    continue
                el = {d[1] for d in ts if d[0] == 'D' and d[2] == x}
                ok = any(('ok', e) in ts for e in el)
                drop = {t for t in ts if t[0] in ('D', 'h') and x in t} | {t for t in ts if t[0] in ('ok', 'rd', 'r') and t[1] in el} | \
                    {t for t in ts if t[0] == 't' and t[3] in el}
                ts2 = set(ts)
                if c[0] == 'L':
                    ts2 -= {c} | drop
                    ts2.add(('L', v, c[2], c[3] and ok))
                else:
                    if ok or ('h', x) in ts:
                        ts2.add(('first',))
                    else:
                        ts2.add(('srcbad',))
                    ts2 -= {c} | drop
                    ts2.add(('S', v))
                ts = frozenset(ts2)
                break
        return ts

    def kind(s, ts, v, cx):
        if v[0] == 's' and v[1] in s.P:
            return s.P[v[1]]
        for d in ts:
            if d[0] == 'D' and d[1] == v and ('S', d[2]) in ts:
                return '*'
        return None

    def after(s, ts, ins, cx):
        if ins.callee in (APPEND, PREPEND) and ins.res:
            l, x = cx.val(ins.args[0]), cx.val(ins.args[1])
            toks, good = frozenset(), True
            for c in list(ts):
                if c[0] == 'L' and c[1] == l and l[0] == 's':
                    toks, good = c[2], c[3]
                    ts = ts - {c}
            k = s.kind(ts, x, cx)
            if k is None:
                if not (x[0] == 's' and s.isref(x)):
                    ts = ts | {('odd',)}
            else:
                toks = toks | {k}
                ts = ts | {('app', k)}
                if k == '*':
                    ts = ts | {('h', d[2]) for d in ts if d[0] == 'D' and d[1] == x}
            ts = ts | {('L', cx.val(('l', ins.res)), toks, good)}
        elif ins.callee in ('difftime',) or (ins.callee is None and ins.op == 'call'):
            if any(t[0] == 't' and t[1] == cx.val(a) for t in ts for a in ins.args):
                ts = ts | {('odd',)}
        return ts

    def instr(s, ts, ins, cx):
        if ins.op in ('sub', 'mul', 'sitofp', 'shl') and ins.res:
            a = [t for t in ts if t[0] == 't' and t[1] == cx.val(ins.args[0])]
            b = [t for t in ts if len(ins.args) > 1 and t[0] == 't' and t[1] == cx.val(ins.args[1])]
            if a or b:
                ts = ts | {('odd',)}
        return ts

    def compared(s, ts, pred, a, b):
        ta = [t for t in ts if t[0] == 't' and t[1] == a]
        tb = [t for t in ts if t[0] == 't' and t[1] == b]
        for x in ta:
            for y in tb:
                if x[2] != y[2] or x[2] == 'rd':
                    continue
                p = frozenset(ORD[pred])
                if s.isref(x[3]) and not s.isref(y[3]):
                    o, p = y[3], frozenset(SWAP[c] for c in p)
                elif s.isref(y[3]) and not s.isref(x[3]):
                    o = x[3]
                else:
                    continue
                s.cmp += 1
                old = next((r for r in ts if r[:3] == ('r', o, x[2])), None)
                now = (old[3] if old else ALL) & p
                if not now:
                    return None
                ts = frozenset(r for r in ts if r != old) | {('r', o, x[2], now)}
        return ts

    def settle(s, ts, cx):
        r = set(ts)
        for t in ts:
            if t[0] == 't' and t[2] == 'rd':
                z = cx.null(t[1])
                if z is False:
                    r.add(('rd', t[3]))
                    if s.isref(t[3]):
                        r.add(('outok',))
                        r.discard(('rd', t[3]))
                if z is not None:
                    r.discard(t)
            if t[0] in ('D',) and cx.null(t[1]) is True:
                r.add(('ok', t[1]))
        for t in list(r):
            if t[0] != 'r':
                continue
            sec = next((q[3] for q in r if q[:3] == ('r', t[1], 'sec')), ALL)
            ns = next((q[3] for q in r if q[:3] == ('r', t[1], 'nsec')), ALL)
            if '>' not in sec and not ('=' in sec and '>' in ns) and (not s.readable or ('rd', t[1]) in r):
                r.add(('ok', t[1]))
        for t in list(r):
            if t[0] == 'ok':
                if s.readable:
                    r = {q for q in r if not (q[0] in ('rd', 'r') and q[1] == t[1] or q[0] == 't' and q[3] == t[1])}
                for d in ts:
                    if d[0] == 'D' and d[1] == t[1] and ('S', d[2]) in r:
                        r.add(('h', d[2]))
                        r.add(('first',))
            if t[0] == 'h':
                r.add(('first',))
        for t in list(r):
            if t[0] == 'L' and cx.null(t[1]) is True:
                r.discard(t)
                if t[3]:
                    r.add(('done', t[2]))
            if t[0] == 'S' and cx.null(t[1]) is True:
                r.discard(t)
                r.add(('srcdone',))
        for p, k in s.P.items():
            if ('ok', ('s', p)) not in r and cx.null(('s', p)) is True:
                r.add(('ok', ('s', p)))
        if s.only and cx.null(('s', Sym(s.only))) is False:
            r.add(('only',))
        if s.ref is not None and cx.null(('s', Sym(s.ref))) is True:
            r.add(('noref',))
        return frozenset(r)

    def edge(s, ts, frm, to, cx):
        return s.settle(ts, cx)

    def partition(s, cx):
        return None

    def exit(s, ts, ins, cx):
        if not ins.args:
            return
        st = cx.st.copy()
        v = cx.val(ins.args[0])
        if not cx.eng.refine(st, v, 'eq', 0):
            return
        from engine.paths import Cx
        n = Cx(cx.eng, st)
        s.no(s.settle(st.ts, n), ins, n)

    def flag(s, key, ins, msg, cx):
        s.bad.setdefault(key, (ins, msg, cx.trace()))


class Decide(Ages):
    def no(s, ts, ins, cx):
        if ('odd',) in ts:
            s.odd += 1
            return
        s.ends += 1
        if ('outok',) not in ts:
            s.flag('output', ins, 'an output that is missing or not readable can be taken for up to date', cx)
        done = frozenset().union(*[t[1] for t in ts if t[0] == 'done'] or [frozenset()])
        for p, k in s.P.items():
            if k not in done and ('ok', ('s', p)) not in ts:
                s.flag(k, ins, 'the output can be taken for up to date although the %s file is newer or missing' % k, cx)
        if ('app', '*') in ts and '*' not in done:
            s.flag('sources', ins, 'the output can be taken for up to date although a source is newer or missing', cx)
        elif ('srcbad',) in ts:
            s.flag('sources', ins, 'the output can be taken for up to date without looking at one of the sources', cx)
        elif ('srcdone',) not in ts and not (('only',) in ts and ('first',) in ts):
            s.flag('sources', ins, 'the output can be taken for up to date without looking at all the sources', cx)


class Changed(Ages):
    """a file on disk against its last known time"""
    readable = False

    def __init__(s, fn):
        Ages.__init__(s, fn, fn.params[0][0], {})
        s.yes = 0

    def after(s, ts, ins, cx):
        if ins.callee in ('stat', 'lstat', 'fstat', 'fstatat') and ins.res:
            return ts | {('st', cx.val(('l', ins.res)))}
        return Ages.after(s, ts, ins, cx)

    def instr(s, ts, ins, cx):
        ts = Ages.instr(s, ts, ins, cx)
        if ins.op == 'store':
            v = cx.val(ins.args[0])
            b = cx.val(ins.args[1])
            for k in (1, 2):
                if len(s.f.params) > k and b == ('s', Sym(s.f.params[k][0])):
                    w = 'sec' if k == 1 else 'nsec'
                    ok = any(t[0] == 't' and t[1] == v and t[2] == w and not s.isref(t[3]) for t in ts)
                    ts = ts | {('out', k, ok)}
        return ts

    def settle(s, ts, cx):
        r = set(Ages.settle(s, ts, cx))
        for t in ts:
            if t[0] == 'st':
                z = cx.null(t[1])
                if z is False:
                    r.add(('gone',))
                if z is not None:
                    r.discard(t)
        for k in (1, 2):
            if len(s.f.params) > k and cx.null(('s', Sym(s.f.params[k][0]))) is True:
                r.add(('out', k, True))
        return frozenset(r)

    def exit(s, ts, ins, cx):
        Ages.exit(s, ts, ins, cx)
        st = cx.st.copy()
        if not ins.args or not cx.eng.refine(st, cx.val(ins.args[0]), 'ne', 0):
            return
        from engine.paths import Cx
        n = Cx(cx.eng, st)
        ts = s.settle(st.ts, n)
        if ('odd',) in ts:
            return
        s.yes += 1
        for k, w in ((1, 'seconds'), (2, 'nanoseconds')):
            if len(s.f.params) > k and ('out', k, True) not in ts:
                s.flag('time', ins, 'a file is reported as changed without its new time (%s)' % w, n)

    def no(s, ts, ins, cx):
        if ('odd',) in ts:
            s.odd += 1
            return
        s.ends += 1
        if ('gone',) in ts or ('noref',) in ts:
            return
        if not any(t[0] == 'ok' for t in ts):
            s.flag('changed', ins, 'a file that is newer on disk can be reported as unchanged', cx)


class Renew(Rule):
    """bm_ctx_reload: every file of the context is looked at again
    ts: ('m', value, member) ('L', cursor, member, good) ('D', element, cursor) ('re', element) ('done', member) ('new',)"""

    def __init__(s, fn, single, many):
        s.f, s.single, s.many = fn, single, many
        s.bad, s.ends = {}, 0

    def init(s, fn):
        return frozenset()

    def loaded(s, ts, ins, cx):
        v = cx.val(('l', ins.res))
        m = ditypes.member_at(s.f, ins.args[0])
        if m is None or v[0] != 's' or v[1] == '?':
            return ts
        b, off = ditypes.base_off(s.f, ins.args[0])
        x = cx.val(b)
        if m[1] in s.single:
            return ts | {('m', v, m[1])}
        if m[1] in s.many:
            return ts | {('L', v, m[1], True)}
        if m[1] == 'data':
            for c in ts:
                if c[0] == 'L' and c[1] == x:
                    return ts | {('D', v, x)}
        if m[1] == 'next':
            for c in ts:
                if c[0] == 'L' and c[1] == x:
                    el = {d[1] for d in ts if d[0] == 'D' and d[2] == x}
                    ok = any(('re', e) in ts for e in el)
                    r = {t for t in ts if t != c and not (t[0] == 'D' and t[2] == x) and not (t[0] == 're' and t[1] in el)}
                    return frozenset(r | {('L', v, c[2], c[3] and ok)})
        return ts

    def after(s, ts, ins, cx):
        if ins.callee == RELOAD:
            a = cx.val(ins.args[0])
            for t in ts:
                if t[0] == 'm' and t[1] == a:
                    ts = ts | {('done', t[2])}
                if t[0] == 'D' and t[1] == a:
                    ts = ts | {('re', a)}
        if ins.callee == 'bm_ctx_new':
            ts = ts | {('new',)}
        return ts

    def edge(s, ts, frm, to, cx):
        r = set(ts)
        for t in ts:
            if t[0] == 'L' and cx.null(t[1]) is True:
                r.discard(t)
                if t[3]:
                    r.add(('done', t[2]))
            if t[0] == 'm' and cx.null(t[1]) is True:
                r.add(('done', t[2]))
        return frozenset(r)

    def exit(s, ts, ins, cx):
        if not ins.args or cx.null(cx.val(ins.args[0])) is True or ('new',) in ts:
            return
        s.ends += 1
        for m in sorted(s.single | s.many):
            if ('done', m) not in ts:
                s.bad.setdefault(m, (ins, cx.trace()))


class Build(Rule):
    """arguments of the decision and of the build.
    ts: ('k', value, description) ('tmp', value) ('istmp',) ('rb', descriptions)"""

    def __init__(s, fn):
        s.f = fn
        s.n = 0
        s.bad = {}
        s.unguarded = 0

    def init(s, fn):
        return frozenset()

    def tok(s, ts, v):
        if v[0] == 'c':
            return v
        for t in ts:
            if t[0] == 'k' and t[1] == v:
                return t[2]
        return v

    def loaded(s, ts, ins, cx):
        m = ditypes.member_at(s.f, ins.args[0])
        v = cx.val(('l', ins.res))
        if m is None or v[0] != 's' or v[1] == '?':
            return ts
        if m[1] == 'atom_template_tmp':
            return ts | {('tmp', v)}
        if m[1].endswith('_fctx') or m[1] == 'data':
            b, off = ditypes.base_off(s.f, ins.args[0])
            x = cx.val(b) if m[1] == 'data' else 'ctx'
            if m[1] == 'data' and x[0] != 's':
                return ts
            return frozenset(t for t in ts if not (t[0] == 'k' and t[1] == v)) | {('k', v, (m[1], x))}
        return ts

    def edge(s, ts, frm, to, cx):
        r = set(ts)
        for t in ts:
            if t[0] == 'tmp':
                z = cx.null(t[1])
                if z is not None:
                    r.discard(t)
                if z is False:
                    r.add(('istmp',))
                elif z is True:
                    r.discard(('istmp',))
        return frozenset(r)

    def instr(s, ts, ins, cx):
        if ins.op == 'call' and ins.callee == DECIDE:
            d = tuple(s.tok(ts, cx.val(a)) for a in ins.args) + (cx.val(ins.args[SOURCES]),)
            s.n += 1
            if d[1][0] != 'settings_fctx':
                s.bad.setdefault('settings', (ins, 'the age of the settings file is not considered', cx.trace()))
            return frozenset(t for t in ts if t[0] != 'rb') | {('rb', d)}
        if ins.op == 'call' and ins.callee in BUILDS:
            src, ent, tpl, out, only = BUILDS[ins.callee]
            d = next((t[1] for t in ts if t[0] == 'rb'), None)
            a = [s.tok(ts, cx.val(x)) for x in ins.args]
            if d is None:
                s.unguarded += 1
                return ts

            def bad(k, msg):
                s.bad.setdefault(k, (ins, msg, cx.trace()))
            if a[out] != d[OUTPUT]:
                bad('output', 'builds another output than the one whose age was considered')
            w = a[src]
            if ins.callee == 'bm_exec_native_cp':
                if w != d[SOURCES] and w != ('data', d[-1]):
                    bad('sources', 'copies another file than the one whose age was considered')
                return ts
            if w != d[SOURCES]:
                bad('sources', 'builds from other sources than those whose age was considered')
            if a[only] != d[ONLY] and d[ONLY] != ('c', 0):
                bad('only', 'builds from all the sources and considers the age of the first one only')
            if a[ent] != ('c', 0) and a[ent] != d[2]:
                bad('listing', 'the age of the listing entry is not considered')
            if a[tpl] != ('c', 0) and a[tpl] != d[3] and not (d[3] == ('c', 0) and ('istmp',) in ts and a[tpl][0] == 'atom_template_fctx'):
                bad('template', 'the age of the template is not considered')
        return ts


def times(rep, prog, mod, fn):
    """where the known time of a file comes from"""
    for i in fn.instrs():
        if i.op != 'store':
            continue
        m = ditypes.member_at(fn, i.args[1])
        if m is None or m[1] not in ('tv_sec', 'tv_nsec') or 'filectx' not in (m[0] or ''):
            continue
        want = FIELD[m[1]]
        rep.count('stores of a known time examined', 1, '%s:%d' % (fn.name, i.line))
        for o in lib.origins(fn, i.args[0], (), geps=False):
            if o[0] == 'i':
                if fn.name != 'bm_filectx_new':
                    rep.violation('%s:%s:const' % (prog, fn.name), i.loc(), 'the known time of a file is set to a constant')
                continue
            d = fn.defs.get(o[1]) if o[0] == 'l' else None
            if d is None or d.op != 'load':
                continue
            f = stfield(fn, d.args[0])
            a = d.args[0]
            if f is None:
                for c in fn.calls(CHANGED):
                    if a in c.args[1:]:
                        f = 'sec' if c.args.index(a) == 1 else 'nsec'
            if f is not None and f != want:
                rep.violation('%s:%s:time' % (prog, fn.name), i.loc(), 'the %s of a file are taken from its %s' % (
                    'seconds' if want == 'sec' else 'nanoseconds', 'seconds' if f == 'sec' else 'nanoseconds' if f == 'nsec' else 'time of another kind'))


def stfield(fn, addr):
    """which part of struct stat an address designates: sec, nsec of the modification time, 'other'; None: not of struct stat"""
    m = ditypes.member_at(fn, addr)
    if m is None:
        return None
    if m[0] == 'stat':
        if m[1] != 'st_mtim':
            return 'other'
        b, off = ditypes.base_off(fn, addr)
        return 'sec'
    if m[0] == 'timespec':
        b, off = ditypes.base_off(fn, addr)
        t = ditypes.type_of(fn, b)
        p = None if t is None else t[1] if isinstance(t, tuple) else ditypes.pointee(fn.module, t)
        if p is not None and ditypes.typename(fn.module, p) == 'stat':
            k = ditypes.member(fn.module, p, off - (8 if m[1] == 'tv_nsec' else 0))
            if k is None or k[1] != 'st_mtim':
                return 'other'
        return FIELD[m[1]]
    return None


class Fresh(Rule):
    """bm_filectx_new: what is known about a new file. ts: ('st', result) ('gone',) ('there',) ('set', field)"""

    def __init__(s, fn):
        s.f, s.bad, s.n = fn, {}, 0
        s.stp = next((p for p, _ in fn.params if p in ('st', 'buf', 'stat_buf')), None) or (fn.params[3][0] if len(fn.params) > 3 else None)

    def init(s, fn):
        return frozenset()

    def after(s, ts, ins, cx):
        if ins.callee in ('stat', 'lstat', 'fstat', 'fstatat') and ins.res:
            return ts | {('st', cx.val(('l', ins.res)))}
        return ts

    def edge(s, ts, frm, to, cx):
        r = set(ts)
        for t in ts:
            if t[0] == 'st':
                z = cx.null(t[1])
                if z is not None:
                    r.discard(t)
                    r.add(('there',) if z else ('gone',))
        if s.stp and cx.null(('s', Sym(s.stp))) is False:
            r.add(('there',))
        return frozenset(r)

    def instr(s, ts, ins, cx):
        if ins.op == 'store':
            m = ditypes.member_at(s.f, ins.args[1])
            if m and 'filectx' in (m[0] or '') and m[1] in ('readable', 'tv_sec', 'tv_nsec'):
                ts = ts | {('set', m[1])}
                if m[1] != 'readable' and ('there',) in ts and cx.val(ins.args[0])[0] == 'c':
                    s.bad.setdefault('const', (ins, 'the known time of a file is set to a constant', cx.trace()))
                if m[1] == 'readable':
                    s.n += 1
                    if cx.null(cx.val(ins.args[0])) is not True and ('there',) not in ts and cx.val(ins.args[0])[0] == 'c':
                        s.bad.setdefault('readable', (ins, 'a file is taken for readable without its time', cx.trace()))
        return ts

    def exit(s, ts, ins, cx):
        if ins.args and cx.null(cx.val(ins.args[0])) is not True:
            for f in ('readable', 'tv_sec', 'tv_nsec'):
                if ('set', f) not in ts:
                    s.bad.setdefault(f, (ins, 'a file is created without %s' % f, cx.trace()))


class Take(Rule):
    """bm_filectx_reload: a changed file gets its new time. ts: ('ch', result) ('yes',) ('set', f)"""

    def __init__(s, fn):
        s.f, s.bad, s.n = fn, {}, 0

    def init(s, fn):
        return frozenset()

    def after(s, ts, ins, cx):
        if ins.callee == CHANGED and ins.res:
            s.n += 1
            return frozenset(t for t in ts if t[0] not in ('ch', 'yes')) | {('ch', cx.val(('l', ins.res)))}
        return ts

    def edge(s, ts, frm, to, cx):
        r = set(ts)
        for t in ts:
            if t[0] == 'ch':
                z = cx.null(t[1])
                if z is not None:
                    r.discard(t)
                    if not z:
                        r.add(('yes',))
        return frozenset(r)

    def instr(s, ts, ins, cx):
        if ins.op == 'store':
            m = ditypes.member_at(s.f, ins.args[1])
            if m and 'filectx' in (m[0] or '') and m[1] in ('readable', 'tv_sec', 'tv_nsec'):
                return ts | {('set', m[1])}
        return ts

    def exit(s, ts, ins, cx):
        if ('yes',) in ts or any(t[0] == 'ch' for t in ts):
            for f in ('readable', 'tv_sec', 'tv_nsec'):
                if ('set', f) not in ts:
                    s.bad.setdefault(f, (ins, 'a changed file keeps its old %s' % f, cx.trace()))


class Deploy(Rule):
    """the generated template. ts: ('gen',)"""

    def __init__(s, fn):
        s.f, s.bad, s.n = fn, {}, 0

    def init(s, fn):
        return frozenset()

    def after(s, ts, ins, cx):
        return ts | {('gen',)} if ins.callee == 'bm_atom_deploy' else ts

    def instr(s, ts, ins, cx):
        if ins.op == 'store':
            m = ditypes.member_at(s.f, ins.args[1])
            if m and m[1] == 'atom_template_tmp':
                s.n += 1
                if cx.null(cx.val(ins.args[0])) is not True and ('gen',) not in ts:
                    s.bad.setdefault('tmp', (ins, "the user's feed template is taken for the generated one, its age is not considered", cx.trace()))
        return ts


def files(mod):
    """members of the context that hold files: (single, lists)"""
    single, many = set(), set()
    fn = mod.fns.get('bm_ctx_new')
    if fn is None:
        return single, many
    for i in fn.instrs():
        if i.op != 'store':
            continue
        m = ditypes.member_at(fn, i.args[1])
        if m is None or not m[1].endswith('_fctx'):
            continue
        for o in lib.origins(fn, i.args[0], (), geps=False):
            d = fn.defs.get(o[1]) if o[0] == 'l' else None
            if d is not None and d.op == 'call':
                if d.callee == 'bm_filectx_new':
                    single.add(m[1])
                elif d.callee in (APPEND, PREPEND, 'bm_filectx_new_r'):
                    many.add(m[1])
    return single, many


def analyse(rep, prog, mod):
    def put(fn, d, n, what):
        rep.count(what, n, fn.name)
        for k, v in d.items():
            rep.violation('%s:%s:%s' % (prog, fn.name, k), v[0].loc(), v[1], v[2])
    fn = mod.fns.get(DECIDE)
    if fn is not None and len(fn.params) >= 6:
        p = [x[0] for x in fn.params]
        r = Decide(fn, p[OUTPUT], {Sym(p[k]): v for k, v in GIVEN.items()}, p[SOURCES], p[ONLY])
        Engine(fn, r, 200000).run()
        put(fn, r.bad, r.ends, 'ways to leave an output alone')
        rep.count('decisions of unknown shape', r.odd)
        rep.count('comparisons of times', r.cmp)
    fn = mod.fns.get(CHANGED)
    if fn is not None:
        r = Changed(fn)
        Engine(fn, r, 100000).run()
        put(fn, r.bad, r.ends + r.yes, 'answers of the check for changes')
        rep.count('decisions of unknown shape', r.odd)
    for name, cls, what in ((RELOAD, Take, 'files looked at again'), ('bm_filectx_new', Fresh, 'files looked at first'), ('bm_ctx_new', Deploy, 'feed templates')):
        fn = mod.fns.get(name)
        if fn is not None:
            r = cls(fn)
            Engine(fn, r, 200000).run()
            put(fn, r.bad, r.n, what)
    fn = mod.fns.get(CTXRELOAD)
    if fn is not None:
        single, many = files(mod)
        single.discard('settings_fctx')
        r = Renew(fn, single, many)
        Engine(fn, r, 100000).run()
        rep.count('files of the context', len(single) + len(many), ' '.join(sorted(single | many)))
        rep.count('successful reloads', r.ends)
        for k, v in r.bad.items():
            rep.violation('%s:%s:%s' % (prog, fn.name, k), v[0].loc(), 'a reload does not look at %s again' % k, v[1])
    for fn in lib.own(mod):
        times(rep, prog, mod, fn)
        if any(True for _ in fn.calls(*BUILDS)) and fn.name not in BUILDS:
            r = Build(fn)
            Engine(fn, r, 400000).run()
            rep.count('decisions about an output', r.n, fn.name)
            rep.count('builds without a decision', r.unguarded)
            for k, v in r.bad.items():
                rep.violation('%s:%s:%s' % (prog, fn.name, k), v[0].loc(), v[1], v[2])
        # what the build reads apart from its arguments
        if fn.name in BUILDS:
            for i in fn.instrs():
                if i.op == 'load':
                    m = ditypes.member_at(fn, i.args[0])
                    if m and m[0] and 'ctx' in m[0] and m[1].endswith('_fctx'):
                        rep.violation('%s:%s:hidden' % (prog, fn.name), i.loc(), 'the build uses the file %s whose age is not considered' % m[1])
            rep.count('build functions', 1, fn.name)
        # a session looks at the files before every build
        stops = {c.block for c in fn.calls(CTXRELOAD)}
        if stops:
            for i in fn.calls():
                if i.callee is None and i.block not in stops:
                    seen, work = set(), list(i.block.succs)
                    while work:
                        b = work.pop()
                        if b in seen or b in stops:
                            continue
                        seen.add(b)
                        work.extend(b.succs)
                    rep.count('builds in a session', 1, fn.name)
                    if i.block in seen:
                        rep.violation('%s:%s:session' % (prog, fn.name), i.loc(), 'a session builds again without looking at the files')


def run(rep, tier):
    rep.rule("The decision is walked along every path with what is known about each file: whenever it may answer that an output is up to "
             "date, the output was readable, and the settings, template, listing entry and every source (only the first one when "
             "asked) were either not given or were readable and not newer, by seconds and then nanoseconds. Every build gets the "
             "sources, listing entry, template and output that were given to the decision on the same path, together with the "
             "settings; only the generated feed template may be left out. In a session, a file that is newer on disk is always "
             "reported with its new time, every file of the context is looked at again by a reload, and no build happens without one.")
    rep.assumption('times are those that stat reports; a file whose time does not change is not changed')
    for p, mod in lib.progs(['make']):
        analyse(rep, p, mod)
    rep.floor('ways to leave an output alone', 1)
    rep.floor('decisions about an output', 9)
    rep.floor('build functions', 2)
    rep.floor('files of the context', 6)
    rep.floor('builds in a session', 1)

    def ex(**kw):
        q = lib.Quiet()
        analyse(q, 'x', frontend.snippet(BASE % dict(GOOD, **kw)))
        return q.v

    def has(x, v):
        return any(x in k for k in v)
    rep.selftest('clean', ex() == [])
    rep.selftest('output', has('rebuild:output', ex(out='o == NULL')))
    rep.selftest('files', has('template', ex(tpl='')) and has('listing', ex(ent='if (n) l = bc_slist_append(l, e);')))
    rep.selftest('times', has('settings', ex(ns='x->tv_nsec > o->tv_nsec + 1')) and has('sources', ex(sec='x->tv_sec > o->tv_sec && x->tv_nsec > o->tv_nsec')))
    rep.selftest('sources', has('sources', ex(stop='break;')) and has('sources', ex(walk='l->next')))
    rep.selftest('agreement', has('exec:listing', ex(dent='NULL')) and has('exec:template', ex(dtpl='NULL')) and
                 has('exec:sources', ex(dsrc='c->pages_fctx')) and has('exec:output', ex(dout='NULL')) and has('exec:settings', ex(dset='NULL')))
    rep.selftest('changed', has('changed', ex(chg='b.st_mtim.tv_sec == c->tv_sec')) and has('time', ex(put='if (p) *p = b.st_mtim.tv_sec;')))
    rep.selftest('reload', has('readable', ex(rd='')) and has('const', ex(known='0')))


GOOD = dict(out='o == NULL || !o->readable', tpl='if (t) l = bc_slist_append(l, t);', ent='if (e) l = bc_slist_append(l, e);',
            ns='x->tv_nsec > o->tv_nsec', sec='x->tv_sec > o->tv_sec', stop='if (n) break;', walk='l', dent='c->listing_entry_fctx',
            dtpl='c->atom_template_tmp ? NULL : c->atom_template_fctx', dsrc='c->posts_fctx', dout='f', dset='c->settings_fctx',
            chg='b.st_mtim.tv_sec > c->tv_sec', put='if (p) *p = b.st_mtim.tv_sec; if (q) *q = b.st_mtim.tv_nsec;', rd='c->readable = true;', known='n')
BASE = r"""
#include <sys/stat.h>
#include <time.h>
#include <stdbool.h>
#include <stdlib.h>
typedef struct _bc_slist_t { struct _bc_slist_t *next; void *data; } bc_slist_t;
typedef struct bc_trie bc_trie_t;
typedef struct { char *path; time_t tv_sec; long tv_nsec; bool readable; } bm_filectx_t;
typedef struct { bm_filectx_t *settings_fctx, *atom_template_fctx, *listing_entry_fctx; bool atom_template_tmp; bc_slist_t *posts_fctx, *pages_fctx; } bm_ctx_t;
bc_slist_t *bc_slist_append(bc_slist_t *l, void *d);
void bc_slist_free(bc_slist_t *l);
int bm_exec_blogc(bm_ctx_t *c, bc_trie_t *v, bc_trie_t *l, bool li, bm_filectx_t *e, bm_filectx_t *t, bm_filectx_t *o, bc_slist_t *s, bool f);
bool bm_rule_need_rebuild(bc_slist_t *s, bm_filectx_t *g, bm_filectx_t *e, bm_filectx_t *t, bm_filectx_t *o, bool n)
{
    if (%(out)s) return true;
    bool rv = false;
    bc_slist_t *l = NULL;
    if (g) l = bc_slist_append(l, g);
    %(tpl)s
    %(ent)s
    for (bc_slist_t *k = s; k != NULL; k = k->next) {
        l = bc_slist_append(l, k->data);
        %(stop)s
    }
    for (bc_slist_t *k = %(walk)s; k != NULL; k = k->next) {
        bm_filectx_t *x = k->data;
        if (x == NULL || !x->readable) { rv = true; break; }
        if ((x->tv_sec == o->tv_sec && %(ns)s) || (%(sec)s)) { rv = true; break; }
    }
    bc_slist_free(l);
    return rv;
}
bool bm_filectx_changed(bm_filectx_t *c, time_t *p, long *q)
{
    struct stat b;
    if (c == NULL || stat(c->path, &b) != 0) return false;
    if ((b.st_mtim.tv_sec == c->tv_sec && b.st_mtim.tv_nsec > c->tv_nsec) || %(chg)s) {
        %(put)s
        return true;
    }
    return false;
}
void bm_filectx_reload(bm_filectx_t *c)
{
    time_t s; long n;
    if (!bm_filectx_changed(c, &s, &n)) return;
    c->tv_sec = s;
    c->tv_nsec = %(known)s;
    %(rd)s
}
int atom_exec(bm_ctx_t *c, bc_slist_t *outputs, bc_trie_t *v)
{
    for (bc_slist_t *l = outputs; l != NULL; l = l->next) {
        bm_filectx_t *f = l->data;
        if (f == NULL) continue;
        if (bm_rule_need_rebuild(%(dsrc)s, %(dset)s, %(dent)s, %(dtpl)s, %(dout)s, false)) {
            int rv = bm_exec_blogc(c, v, NULL, true, c->listing_entry_fctx, c->atom_template_fctx, f, c->posts_fctx, false);
            if (rv != 0) return rv;
        }
    }
    return 0;
}
"""
