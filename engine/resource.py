"""Who owns what: summaries of the functions of a program (what they acquire, release, keep, hand back) and two
path-sensitive rules built on them, one for leaks and one for use after release."""
from . import ir, lib, ditypes
from .paths import Rule, Engine, Sym

# result is owned: callee -> kind
ACQUIRE = {'malloc': 'heap', 'calloc': 'heap', 'strdup': 'heap', 'strndup': 'heap', 'realloc': 'heap', 'getdelim': 'heap',
           'fopen': 'stream', 'fdopen': 'stream', 'freopen': 'stream', 'fopen64': 'stream', 'tmpfile': 'stream',
           'opendir': 'dir', 'fdopendir': 'dir', 'popen': 'pipe', 'canonicalize_file_name': 'heap',
           'open': 'fd', 'open64': 'fd', 'openat': 'fd', 'creat': 'fd', 'socket': 'fd', 'accept': 'fd', 'accept4': 'fd', 'dup': 'fd',
           'mkstemp': 'fd', 'epoll_create1': 'fd', 'inotify_init': 'fd', 'eventfd': 'fd'}
# result is owned when an argument is NULL
ACQUIRE_IF_NULL = {'realpath': 1, 'getcwd': 0}
RELEASE = {'free': (0, 'heap'), 'fclose': (0, 'stream'), 'closedir': (0, 'dir'), 'close': (0, 'fd'), 'pclose': (0, 'pipe'),
           'freeaddrinfo': (0, 'addrinfo'), 'realloc': (0, 'heap'), 'fdopendir': (0, 'fd'), 'fdopen': (0, 'fd'),
           'reallocarray': (0, 'heap')}
# *argument is owned when the call succeeded
OUT = {'getaddrinfo': (3, 'addrinfo', 'zero'), 'asprintf': (0, 'heap', 'nonneg'), 'vasprintf': (0, 'heap', 'nonneg'),
       'scandir': (2, 'heap', 'nonneg'), 'getline': (0, 'heap', 'any'), 'getifaddrs': (0, 'ifaddrs', 'zero')}
KEEP_EXT = {'putenv': {0}, 'setvbuf': {1}, 'pthread_setspecific': {1}}
FDKINDS = {'fd'}


def direct(fn, op):
    """origins without pointer arithmetic"""
    return lib.origins(fn, op, (), geps=False)


class Owner:
    def __init__(s, mod):
        s.mod = mod
        s.ret = {f: set() for f in mod.fns}       # kinds the result may own
        s.alias = {f: set() for f in mod.fns}     # parameters the result may alias
        s.may = {f: {} for f in mod.fns}          # parameter -> (kind, deep)
        s.keep = {f: set() for f in mod.fns}      # parameters stored away
        s.out = {f: {} for f in mod.fns}          # parameter -> kind stored into *parameter
        s.deepoff = {f: {} for f in mod.fns}      # parameter -> {(offset or None, None or function parameter)}
        s._must = {}
        s._shape = {}
        ch = True
        n = 0
        while ch and n < 12:
            ch = False
            n += 1
            for f, fn in mod.fns.items():
                before = (sum(len(x) for x in s.deepoff[f].values()), set(s.ret[f]), set(s.alias[f]), dict(s.may[f]), set(s.keep[f]), dict(s.out[f]))
                s._scan(f, fn)
                if before != (sum(len(x) for x in s.deepoff[f].values()), s.ret[f], s.alias[f], s.may[f], s.keep[f], s.out[f]):
                    ch = True

    def acquired(s, fn, i):
        """kind the result of a call owns, or None"""
        c = i.callee
        if c in ACQUIRE_IF_NULL:
            return 'heap' if i.args[ACQUIRE_IF_NULL[c]][0] == 'null' else None
        if c in ACQUIRE:
            return ACQUIRE[c]
        if c in s.ret and s.ret[c]:
            if c == 'bc_string_free' or s.flagged(c):
                return s.by_flag(i)
            return sorted(s.ret[c])[0]
        return None

    def flagged(s, c):
        return False

    def by_flag(s, i):
        # bc_string_free(str, true) returns nothing
        if len(i.args) > 1 and i.args[1][0] == 'i' and i.args[1][1] != 0:
            return None
        return 'heap'

    def _scan(s, f, fn):
        ps = [p for p, _ in fn.params]

        def par(o):
            return ps.index(o[1]) if o[0] == 'l' and o[1] in ps else None
        for i in fn.instrs():
            if i.op == 'ret' and i.args and i.args[0][0] not in ('i',):
                s._ret(f, fn, i.args[0], ps, set())
            elif i.op == 'store':
                b, off = ditypes.base_off(fn, i.args[1])
                local = b[0] == 'l' and b[1] in fn.defs and fn.defs[b[1]].op == 'alloca'
                for o in direct(fn, i.args[0]):
                    k = par(o)
                    if k is not None and not local and not isinstance(i.args[0], type(None)):
                        if s.pointerish(fn, k):
                            s.keep[f].add(k)
                    if b[0] == 'l' and b[1] in ps and off == 0 and o[0] == 'l':
                        d = fn.defs.get(o[1])
                        if d is not None and d.op == 'call':
                            kd = s.acquired(fn, d)
                            if kd and s.cellparam(fn, ps.index(b[1])):
                                s.out[f][ps.index(b[1])] = kd
            elif i.op == 'call':
                c = i.callee
                if c is None:
                    fp = i.extra.get('fnop') if isinstance(i.extra, dict) else None
                    for a in i.args:
                        if fp is not None:
                            s._inner(f, fn, a, par, par(fp))
                        for o in direct(fn, a):
                            k = par(o)
                            if k is not None and s.pointerish(fn, k):
                                s.keep[f].add(k)
                    continue
                rel = {}
                if c in RELEASE:
                    rel[RELEASE[c][0]] = (RELEASE[c][1], False)
                if c in s.may:
                    rel.update(s.may[c])
                for k, (kind, deep) in rel.items():
                    if k >= len(i.args):
                        continue
                    for o in direct(fn, i.args[k]):
                        p = par(o)
                        if p is not None:
                            old = s.may[f].get(p)
                            s.may[f][p] = (kind, bool(deep or (old and old[1])))
                    s._inner(f, fn, i.args[k], par, None, c, i)
                    # releases something reached through the parameter
                    for o in s.reach(fn, i.args[k]):
                        p = par(o)
                        if p is not None and p in s.may[f] and not s.may[f][p][1]:
                            s.may[f][p] = (s.may[f][p][0], True)
                for k in (s.keep.get(c) or KEEP_EXT.get(c) or ()):
                    if k < len(i.args):
                        for o in direct(fn, i.args[k]):
                            p = par(o)
                            if p is not None:
                                s.keep[f].add(p)
                if c in s.out:
                    for k, kd in s.out[c].items():
                        if k < len(i.args) and par(i.args[k]) is not None:
                            s.out[f][par(i.args[k])] = kd

    def _inner(s, f, fn, op, par, fp, callee=None, i=None):
        """a value loaded through a parameter is released: note at which offset of the parameter it was"""
        seen, work = set(), [op]
        while work:
            o = work.pop()
            for x in lib.origins(fn, o):
                if x in seen or x[0] != 'l':
                    continue
                seen.add(x)
                d = fn.defs.get(x[1])
                if d is None or d.op != 'load':
                    continue
                b, off = ditypes.base_off(fn, d.args[0])
                for y in lib.origins(fn, b):
                    p = par(y)
                    if p is not None:
                        s.deepoff[f].setdefault(p, set()).add((off, fp))
                    elif y[0] == 'l' and y[1] in fn.defs and fn.defs[y[1]].op == 'load':
                        work.append(y)
        if callee in s.deepoff:
            for k, offs in s.deepoff[callee].items():
                if k < len(i.args) and i.args[k] == op:
                    for y in direct(fn, op):
                        p = par(y)
                        if p is not None:
                            for off, g in offs:
                                if g is None or s.releaser(i.args[g]):
                                    s.deepoff[f].setdefault(p, set()).add((off, None))

    def releaser(s, op):
        """is this a pointer to a function that releases its first argument?"""
        if op[0] != 'g':
            return False
        return op[1] in RELEASE or op[1] in s.may and 0 in s.may[op[1]] and s.must(op[1], 0)

    def inner(s, i, k):
        """offsets whose contents a call releases together with argument k; None stands for any"""
        c = i.callee
        if c not in s.deepoff or (s.ret[c] and s.by_flag(i)):
            return set()
        return {off for off, g in s.deepoff[c].get(k, ()) if g is None or g < len(i.args) and s.releaser(i.args[g])}

    def cellparam(s, fn, k):
        """is the parameter a pointer to a pointer (an out parameter)?"""
        ty = ditypes.subprogram(s.mod, fn)
        if not ty or len(ty) <= k + 1:
            return False
        p = ditypes.pointee(s.mod, ty[k + 1])
        return p is not None and ditypes.pointee(s.mod, p) is not None

    def pointerish(s, fn, k):
        return fn.params[k][1] == 'ptr' if len(fn.params[k]) > 1 else True

    def reach(s, fn, op, depth=3):
        """values an operand was loaded through"""
        r = set()
        work = [(op, depth)]
        seen = set()
        while work:
            o, n = work.pop()
            for x in lib.origins(fn, o):
                if x in seen or x[0] != 'l':
                    continue
                seen.add(x)
                d = fn.defs.get(x[1])
                if d is not None and d.op == 'load' and n:
                    for y in lib.origins(fn, d.args[0]):
                        r.add(y)
                        work.append((y, n - 1))
        return r

    def _ret(s, f, fn, op, ps, seen):
        for o in direct(fn, op):
            if o in seen:
                continue
            seen.add(o)
            if o[0] != 'l':
                continue
            if o[1] in ps:
                s.alias[f].add(ps.index(o[1]))
                continue
            d = fn.defs.get(o[1])
            if d is None:
                continue
            if d.op == 'getelementptr':
                for b in lib.origins(fn, o):
                    if b[0] == 'l' and b[1] in ps:
                        s.alias[f].add(ps.index(b[1]))
                continue
            if d.op == 'call':
                k = s.acquired(fn, d)
                if k:
                    s.ret[f].add(k)
                c = d.callee
                if c in s.alias:
                    for p in s.alias[c]:
                        if p < len(d.args):
                            s._ret(f, fn, d.args[p], ps, seen)
            elif d.op == 'load':
                b, off = ditypes.base_off(fn, d.args[0])
                if b[0] == 'l' and b[1] in ps and ps.index(b[1]) in s.may[f]:
                    s.ret[f].add('heap')
                elif b[0] == 'l' and b[1] in fn.defs and fn.defs[b[1]].op == 'alloca':
                    for i in fn.instrs():
                        if i.op == 'store' and ditypes.base_off(fn, i.args[1])[0] == b:
                            s._ret(f, fn, i.args[0], ps, seen)

    def shape(s, f):
        """does the result own something that was an argument (append, realloc)?"""
        return s.alias[f] if s.ret[f] else set()

    def must(s, f, k):
        """the function releases a non-NULL parameter on every path that returns"""
        if (f, k) not in s._must:
            s._must[(f, k)] = False       # recursion: unknown
            fn = s.mod.fns[f]
            r = MustFree(fn, k, s)
            try:
                Engine(fn, r, 20000).run()
                s._must[(f, k)] = r.ok and r.n > 0
            except Exception:
                s._must[(f, k)] = False
        return s._must[(f, k)]

    def errparam(s, c):
        """index of the parameter a function reports its error through"""
        fn = s.mod.fns.get(c)
        if fn is None:
            return None
        if c not in s._shape:
            s._shape[c] = None
            for k, (p, t) in enumerate(fn.params):
                if t == 'ptr' and s.cellparam(fn, k):
                    ty = ditypes.type_of(fn, ('l', p))
                    q = ditypes.pointee(s.mod, ditypes.pointee(s.mod, ty)) if ty is not None else None
                    if q is not None and 'error' in str(ditypes.typename(s.mod, q)):
                        s._shape[c] = k
        return s._shape[c]

    def null_on_error(s, c):
        if ('e', c) not in s._must:
            s._must[('e', c)] = False
            k = s.errparam(c)
            if k is not None and s.mod.fns[c].rettype == 'ptr':
                r = NullOnError(s.mod.fns[c], k, s)
                Engine(s.mod.fns[c], r, 100000).run()
                s._must[('e', c)] = r.ok
        return s._must[('e', c)]

    def releases(s, i):
        """[(argument index, kind, deep, must)] of a call"""
        c = i.callee
        if c in RELEASE:
            return [(RELEASE[c][0], RELEASE[c][1], False, True)]
        if c in s.may:
            return [(k, kd, deep, s.must(c, k)) for k, (kd, deep) in sorted(s.may[c].items()) if k < len(i.args)]
        return []


class MustFree(Rule):
    def __init__(s, fn, k, own):
        s.f, s.own = fn, own
        s.p = ('s', Sym(fn.params[k][0]))
        s.ok, s.n = True, 0

    def init(s, fn):
        return s.p          # keeps what is known about the parameter until it is released

    def instr(s, ts, ins, cx):
        if ins.op == 'call':
            for k, kd, deep, must in s.own.releases(ins):
                if must and cx.val(ins.args[k]) == ts:
                    return ()
        return ts

    def exit(s, ts, ins, cx):
        if ins.op != 'ret':
            return
        s.n += 1
        if ts and cx.null(ts) is not True:
            s.ok = False


def live_syms(eng, st, to):
    r = set()
    for n in eng.live[to]:
        v = st.env.get(n, ('s', Sym(n)))
        if v[0] == 's':
            r.add(v[1])
    more = list(r)
    while more:
        y = more.pop()
        e = st.expr.get(y)
        if e is not None and e[0] == 'gep' and e[1][0] == 's' and e[1][1] not in r:
            r.add(e[1][1])
            more.append(e[1][1])
    for k, v in st.mem.items():
        if v[0] == 's':
            r.add(v[1])
    return r


def resource_live(cx, to):
    return live_syms(cx.eng, cx.st, to)


class NullOnError(Rule):
    """whenever *param may have been set, the result is NULL"""

    def __init__(s, fn, k, own):
        s.f, s.k, s.own = fn, k, own
        s.p = ('l', fn.params[k][0])
        s.ok = True

    def init(s, fn):
        return frozenset()

    def is_p(s, op, cx):
        return op == s.p or cx.val(op) == ('s', Sym(s.p[1]))

    def instr(s, ts, ins, cx):
        if ins.op == 'store' and s.is_p(ins.args[1], cx) and cx.null(cx.val(ins.args[0])) is not True:
            return frozenset(['set'])
        if ins.op == 'call':
            if any(s.is_p(a, cx) for a in ins.args):
                return ts | {'maybe'}
        return ts

    def loaded(s, ts, ins, cx):
        if 'maybe' in ts and s.is_p(ins.args[0], cx):
            return ts | {('ld', cx.val(('l', ins.res)))}
        return ts

    def edge(s, ts, frm, to, cx):
        for x in ts:
            if x[0] == 'ld' and cx.null(x[1]) is True:
                return frozenset()
        return ts

    def exit(s, ts, ins, cx):
        if ins.op != 'ret':
            return
        v = cx.val(ins.args[0])
        if any(isinstance(x, str) for x in ts) and cx.null(v) is not True:
            # handing on the result of the function that may have failed
            if 'set' not in ts and v[0] == 's':
                d = s.f.defs.get(str(v[1]).rstrip("'"))
                if d is not None and d.op == 'call' and d.callee in s.own.mod.fns and s.own.null_on_error(d.callee):
                    return
            s.ok = False


class Dead(Rule):
    """('dead', v, line): v was released; ('part', v, b): v was read out of b, which a deep release takes along;
    ('moved', v): the value belongs to a container now"""

    def __init__(s, fn, rep, own, owning=()):
        s.f, s.mod, s.rep, s.own = fn, fn.module, rep, own
        s.owning = owning
        # values that are released deeply somewhere in this function
        s.deep = set()
        s.rel = {}
        for i in fn.instrs():
            if i.op == 'call':
                r = own.releases(i)
                if r:
                    s.rel[i] = r
                    for k, kd, deep, must in r:
                        if deep and must:
                            s.deep |= {o for o in lib.origins(fn, i.args[k]) if o[0] == 'l'}

    def init(s, fn):
        return frozenset()

    def bad(s, key, ins, msg, cx):
        s.rep.violation('%s:%s' % (lib.fname(ins), key), ins.loc(), msg, cx.trace())

    def base(s, op, cx):
        seen = 0
        while op[0] in ('l', 'gep') and seen < 20:
            seen += 1
            if op[0] == 'gep':
                op = op[1]
                continue
            d = s.f.defs.get(op[1])
            v = cx.val(op)
            yield v
            if d is not None and d.op == 'getelementptr':
                op = d.args[0]
                continue
            if v[0] == 's' and v[1] in cx.st.expr and cx.st.expr[v[1]][0] == 'gep':
                w = cx.st.expr[v[1]][1]
                yield w
            return

    def name(s, op):
        d = s.f.defs.get(op[1]) if op[0] == 'l' else None
        return op[1].split('.')[0].rstrip('0123456789') if op[0] == 'l' else '?'

    def describe(s, v):
        d = s.f.defs.get(str(v[1]).rstrip("'")) if v[0] == 's' else None
        if d is not None and d.op == 'call':
            return 'the result of %s()' % d.callee
        return 'a value'

    def tag(s, v):
        d = s.f.defs.get(str(v[1]).rstrip("'")) if v[0] == 's' else None
        if d is not None and d.op == 'call':
            return d.callee
        if d is not None and d.op == 'load':
            m = ditypes.member_at(s.f, d.args[0])
            if m:
                return '%s.%s' % (m[0], m[1])
        if d is None:
            return str(v[1]).rstrip("'")
        return d.op

    def use(s, ts, op, ins, cx, what):
        for v in s.base(op, cx):
            for x in ts:
                if x[0] == 'dead' and x[1] == v and cx.null(v) is not True:
                    s.bad('use-after-release:%s' % s.tag(v), ins, '%s %s, which was released before (line %d)' % (
                        what, s.describe(v), x[2]), cx)
                    return

    def instr(s, ts, ins, cx):
        op = ins.op
        if op in ('load', 'store'):
            s.rep.count('memory accesses checked')
            s.use(ts, ins.args[0] if op == 'load' else ins.args[1], ins, cx, 'reads' if op == 'load' else 'writes')
            if op == 'store' and ins.args[0][0] == 'l' and ts:
                pass
            return ts
        if op == 'ret' and ins.args and ins.args[0][0] == 'l' and ts:
            v = cx.val(ins.args[0])
            if any(x[0] == 'dead' and x[1] == v for x in ts) and cx.null(v) is not True and s.f.rettype == 'ptr':
                s.bad('return-released:%s' % s.tag(v), ins, 'returns %s, which was released' % s.describe(v), cx)
            return ts
        if op != 'call' or ins.callee is None and not ins.args:
            return ts
        c = ins.callee or ''
        if c.startswith('llvm.'):
            return ts
        rel = {k: (kd, deep, must) for k, kd, deep, must in s.rel.get(ins, ())}
        add = set()
        for k, a in enumerate(ins.args):
            if a[0] not in ('l', 'gep'):
                continue
            if k in rel:
                s.rep.count('releases followed', 1, None)
                v = cx.val(a)
                if v == ('c', 0) or v[1] == '?':
                    continue
                for x in ts:
                    if x[0] == 'dead' and x[1] == v and cx.null(v) is not True:
                        s.bad('double-release:%s' % s.tag(v), ins, 'releases %s a second time (first on line %d)' % (
                            s.describe(v), x[2]), cx)
                    if x[0] == 'moved' and x[1] == v and cx.null(v) is not True:
                        s.bad('release-of-moved:%s' % s.tag(v), ins, 'releases %s although a container owns it since line %d' % (
                            s.describe(v), x[2]), cx)
                kd, deep, must = rel[k]
                if must and c != 'realloc':
                    add.add(('dead', v, ins.line or 0))
                    if deep:
                        offs = s.own.inner(ins, k)
                        for x in ts:
                            if x[0] == 'part' and x[2] == v and (x[3] in offs or None in offs or x[3] is None and offs):
                                add.add(('dead', x[1], ins.line or 0))
                                if ('moved', x[1]) in {y[:2] for y in ts}:
                                    s.bad('release-of-moved:%s' % s.tag(x[1]), ins, 'releases %s although a container owns it' %
                                          s.describe(x[1]), cx)
            else:
                s.rep.count('arguments checked')
                s.use(ts, a, ins, cx, 'passes')
        k = s.mover(ins)
        if k is not None:
            v = cx.val(ins.args[k])
            if v[0] == 's' and v[1] != '?' and not v[1].startswith('@'):
                s.rep.count('values given to an owning container', 1, None)
                for x in ts:
                    if x[0] == 'moved' and x[1] == v and cx.null(v) is not True:
                        s.bad('two-owners:%s' % s.tag(v), ins, 'gives %s to a second container (first on line %d): both '
                              'will release it' % (s.describe(v), x[2]), cx)
                add.add(('moved', v, ins.line or 0))
        return ts | add if add else ts

    def mover(s, ins):
        """index of the argument that a container releases from now on"""
        if ins.callee == 'bc_trie_insert' and len(ins.args) > 2:
            for o in lib.origins(s.f, ins.args[0]):
                d = s.f.defs.get(o[1]) if o[0] == 'l' else None
                if d is not None and d.op == 'call' and d.callee == 'bc_trie_new' and s.own.releaser(d.args[0]):
                    return 2
        elif ins in s.owning:
            return 1
        return None

    def after(s, ts, ins, cx):
        if ins.res is None:
            return ts
        v = cx.val(('l', ins.res))
        if v[0] == 's' and ts:
            # a fresh value
            if any(x[1] == v for x in ts):
                ts = frozenset(x for x in ts if x[1] != v)
        if ins.callee == 'realloc':
            # a failed realloc leaves the old block alone
            w = cx.val(ins.args[0])
            if w[0] == 's' and v[0] == 's' and w != v:
                return [([(v, 'ne', 0)], ts | {('dead', w, ins.line or 0)}), ([(v, 'eq', 0)], ts)]
        return ts

    def loaded(s, ts, ins, cx):
        if ins.type != 'ptr':
            return ts
        v = cx.val(('l', ins.res))
        if v[0] != 's' or v[1] == '?':
            return ts
        b, off = ditypes.base_off(s.f, ins.args[0])
        if b[0] != 'l':
            return ts
        w = cx.val(b)
        if w[0] == 's' and (w[1] in {o[1] for o in s.deep} or b in s.deep) and w != v:
            return ts | {('part', v, w, off)}
        return ts

    def edge(s, ts, frm, to, cx):
        if not ts:
            return ts
        lv = live_syms(cx.eng, cx.st, to)
        return frozenset(x for x in ts if x[1][0] == 's' and x[1][1] in lv and x[1][1] != '?' and
                         cx.null(x[1]) is not True)


class Leak(Rule):
    """('own', kind, v, line)      held
    ('in', kind, v, b, off, line)  stored into b, which is held
    ('cell', kind, addr, cond, line)  a call may have stored something owned at a local address
    ('field', kind, off)           not yet taken over from the parameter structure"""

    def __init__(s, fn, rep, own, entry=(), arg=None):
        s.f, s.mod, s.rep, s.own = fn, fn.module, rep, own
        s.entry = entry          # {byte offset: (kind, field name)} owned through the parameter
        s.arg = arg

    def init(s, fn):
        r = set()
        if s.arg is not None:
            p = ('s', Sym(fn.params[s.arg][0]))
            r.add(('own', 'heap', p, 0))
            for off, (kind, name) in s.entry.items():
                r.add(('field', kind, p, off, name))
        return frozenset(r)

    def pure_call(s, ins):
        return None

    def what(s, x):
        v = x[2]
        d = s.f.defs.get(str(v[1]).rstrip("'")) if v[0] == 's' else None
        if d is not None and d.op == 'call':
            return '%s from %s()' % (x[1], d.callee), d.callee
        if d is not None and d.op == 'load':
            m = ditypes.member_at(s.f, d.args[0])
            if m:
                return '%s in %s.%s' % (x[1], m[0], m[1]), m[1]
        return x[1], str(v[1]).rstrip("'") if d is None else d.op

    def leak(s, x, ins, cx, how):
        t, tag = s.what(x)
        s.rep.violation('%s:leak:%s:%s' % (lib.fname(ins), x[1], tag), ins.loc(), '%s is not released %s' % (t, how), cx.trace())

    def drop(s, ts, v, deep=True):
        """v is released or handed over: what is inside of it goes along"""
        r = set()
        vs = s.names(ts, v)
        for x in ts:
            if x[0] == 'own' and x[2] in vs:
                continue
            if x[0] == 'in' and (x[2] in vs or deep and x[3] in vs):
                continue
            if x[0] == 'same' and (x[1] in vs or x[2] in vs):
                continue
            r.add(x)
        return frozenset(r)

    def names(s, ts, v):
        """values that may be the same object as v (a function returned its argument)"""
        r = {v}
        for _ in range(4):
            for x in ts:
                if x[0] == 'same' and (x[1] in r or x[2] in r):
                    r |= {x[1], x[2]}
        return r

    def held(s, ts, v):
        vs = s.names(ts, v)
        return any(x[0] in ('own', 'in') and x[2] in vs for x in ts)

    def instr(s, ts, ins, cx):
        if ins.op == 'store':
            v = cx.val(ins.args[0])
            if s.held(ts, v):
                b, off = ditypes.base_off(s.f, ins.args[1])
                d = s.f.defs.get(b[1]) if b[0] == 'l' else None
                if d is not None and d.op == 'alloca':
                    if b[1] in cx.eng.stored_escape or cx.addr(ins.args[1]) is None:
                        return s.drop(ts, v)
                    return ts
                w = cx.val(b) if b[0] == 'l' else None
                if w is not None and s.held(ts, w):
                    return frozenset(('in', x[1], x[2], w, off, x[3]) if x[0] == 'own' and x[2] == v else x for x in ts)
                return s.drop(ts, v)
            return ts
        if ins.op != 'call':
            return ts
        c = ins.callee or ''
        if c.startswith('llvm.'):
            return ts
        rel = {k: (kd, deep, must) for k, kd, deep, must in s.own.releases(ins)}
        keep = s.own.keep.get(c) or KEEP_EXT.get(c) or ()
        shape = s.own.shape(c) if c in s.own.ret else ()
        for k, a in enumerate(ins.args):
            v = cx.val(a)
            if v[0] != 's':
                continue
            if k in rel:
                kd, deep, must = rel[k]
                s.rep.count('releases followed', 1, None)
                plain = c == 'free'
                if plain:
                    for x in ts:
                        if x[0] == 'field' and x[2] == v:
                            s.rep.violation('%s:leak:%s:%s' % (lib.fname(ins), x[1], x[4]), ins.loc(),
                                            '%s of the request is lost when its data is released' % x[4], cx.trace())
                    ts = frozenset(('own', x[1], x[2], x[5]) if x[0] == 'in' and x[3] == v and x[2] != v else x
                                   for x in ts if not (x[0] == 'field' and x[2] == v))
                if not (c == 'bc_string_free'):
                    ts = s.drop(ts, v, not plain)
                else:
                    ts = s.drop(ts, v, True)
            elif k in keep or k in shape:
                # the result of an append holds the rest of the arguments too
                ts = s.drop(ts, v)
            elif ins.callee is None and s.held(ts, v):
                ts = s.drop(ts, v)
        if ins.res is not None and s.own.acquired(s.f, ins):
            y = ('s', Sym(ins.res))
            for x in ts:
                if x[0] == 'own' and x[2] == y and cx.null(y) is not True:
                    s.leak(x, ins, cx, 'before the next one is acquired')
            ts = frozenset(x for x in ts if not (x[0] == 'own' and x[2] == y))
        return ts

    def after(s, ts, ins, cx):
        c = ins.callee
        outs = None
        if c in OUT or c in s.own.out and s.own.out[c]:
            todo = [OUT[c]] if c in OUT else [(k, kd, 'any') for k, kd in sorted(s.own.out[c].items())]
            for k, kd, cond in todo:
                if k >= len(ins.args):
                    continue
                ad = cx.addr(ins.args[k])
                b, off = ditypes.base_off(s.f, ins.args[k])
                d = s.f.defs.get(b[1]) if b[0] == 'l' else None
                if d is None or d.op != 'alloca' or ad is None:
                    continue
                s.rep.count('acquisitions followed', 1, '%s:%s' % (lib.fname(ins), c))
                x = ('cell', kd, ad, cond, ins.line or 0, c)
                if cond == 'any':
                    ts = ts | {x}
                else:
                    v = cx.val(('l', ins.res))
                    ok = [(v, 'eq', 0)] if cond == 'zero' else [(v, 'sge', 0)]
                    no = [(v, 'ne', 0)] if cond == 'zero' else [(v, 'slt', 0)]
                    return [(ok, ts | {x}), (no, ts)]
        if ins.res is None:
            return ts
        v = cx.val(('l', ins.res))
        if c == 'pthread_create':
            w = cx.val(ins.args[3])
            return [([(v, 'eq', 0)], s.drop(ts, w)), ([(v, 'ne', 0)], ts)]
        k = s.own.acquired(s.f, ins)
        e = s.own.errparam(c)
        if e is not None and e < len(ins.args):
            ad = cx.addr(ins.args[e])
            ts = frozenset(x for x in ts if not (x[0] == 'err' and x[1] == ad))
            if k and ad is not None and v[0] == 's' and v[1] != '?' and s.own.null_on_error(c):
                ts = ts | {('err', ad, v)}
        if k and v[0] == 's' and v[1] != '?':
            s.rep.count('acquisitions followed', 1, '%s:%s' % (lib.fname(ins), c))
            return ts | {('own', k, v, ins.line or 0)}
        if c in s.own.alias and v[0] == 's' and v[1] != '?':
            for q in s.own.alias[c]:
                w = cx.val(ins.args[q]) if q < len(ins.args) else None
                if w is not None and w[0] == 's' and w != v and s.held(ts, w):
                    ts = ts | {('same', w, v)}
        return ts

    def loaded(s, ts, ins, cx):
        v = cx.val(('l', ins.res))
        if v[0] != 's' or v[1] == '?':
            return ts
        ad = cx.addr(ins.args[0])
        r = set(ts)
        for x in ts:
            if x[0] == 'err' and x[1] == ad:
                r.add(('link', v, x[2]))
            if x[0] == 'cell' and x[2] == ad:
                r.discard(x)
                r.add(('own', x[1], v, x[4]))
            elif x[0] == 'field':
                b, off = ditypes.base_off(s.f, ins.args[0])
                if b[0] == 'l' and cx.val(b) == x[2] and off == x[3]:
                    r.discard(x)
                    r.add(('in', x[1], v, x[2], off, ins.line or 0))
            elif x[0] == 'in' and x[2] != v:
                b, off = ditypes.base_off(s.f, ins.args[0])
                if b[0] == 'l' and cx.val(b) == x[3] and (off == x[4] or off is None or x[4] is None):
                    # the same cell read again after a call that could have changed it
                    r.add(('same', x[2], v))
        return frozenset(r) if r != ts else ts

    def edge(s, ts, frm, to, cx):
        r = set()
        failed = {x[2] for x in ts if x[0] == 'link' and cx.null(x[1]) is False}
        lv = resource_live(cx, to) if any(x[0] in ('same', 'link', 'err') for x in ts) else ()
        for x in ts:
            if x[0] in ('own', 'in') and x[2] in failed:
                continue
            if x[0] == 'link' and (x[2] in failed or x[1][1] not in lv and cx.null(x[1]) is not None):
                continue
            if x[0] in ('link', 'err') and not any(y[0] in ('own', 'in') and y[2] == x[2] for y in ts):
                continue
            if x[0] == 'same' and not any(y[0] in ('own', 'in') and y[2] in s.names(ts, x[1]) for y in ts):
                continue
            if x[0] in ('own', 'in'):
                if x[1] == 'fd':
                    lo, hi, ex = cx.rng(x[2])
                    if hi < 0:
                        continue
                elif cx.null(x[2]) is True:
                    continue
            r.add(x)
        return frozenset(r) if len(r) != len(ts) else ts

    def exit(s, ts, ins, cx):
        if ins.op != 'ret':
            return
        s.rep.count('ways out checked')
        rv = cx.val(ins.args[0]) if ins.args else None
        for x in sorted(ts, key=repr):
            if x[0] == 'own':
                if rv in s.names(ts, x[2]):
                    continue
                if x[1] != 'fd' and cx.null(x[2]) is True:
                    continue
                s.leak(x, ins, cx, 'on this path')
            elif x[0] == 'in' and rv not in s.names(ts, x[3]):
                if not any(y[0] == 'own' and y[2] == x[3] for y in ts):
                    s.leak(('own', x[1], x[2], x[5]), ins, cx, 'on this path')
            elif x[0] == 'cell':
                w = cx.st.mem.get(x[2])
                if w is not None and cx.null(w) is True:
                    continue
                s.rep.violation('%s:leak:%s:%s' % (lib.fname(ins), x[1], x[5]), ins.loc(),
                                'what %s() may have stored is neither looked at nor released on this path' % x[5], cx.trace())
            elif x[0] == 'field':
                s.rep.violation('%s:leak:%s:%s' % (lib.fname(ins), x[1], x[4]), ins.loc(),
                                '%s of the request is never released on this path' % x[4], cx.trace())


INTERIOR_EXT = {'strchr': 0, 'strrchr': 0, 'strstr': 0, 'strpbrk': 0, 'memchr': 0, 'strtok': 0, 'basename': 0, 'dirname': 0,
                'strchrnul': 0, '__xpg_basename': 0, 'strcasestr': 0, 'index': 0, 'rindex': 0, 'strsep': 0}
BORROWED_EXT = {'getenv', 'strerror', 'gai_strerror', 'secure_getenv', 'getpwuid', 'getpwnam', 'gmtime', 'localtime', 'ctime', 'asctime',
                'readdir', 'inet_ntoa', 'setlocale', 'dlerror', '__errno_location', 'environ', 'ttyname', 'strsignal'}
SAME_EXT = {'strcpy': 0, 'strcat': 0, 'memcpy': 0, 'memmove': 0, 'memset': 0, 'strncpy': 0, 'strncat': 0, 'fgets': 0, 'getcwd': 0}


class Whole:
    """where a value that is going to be released may come from, without passing pointer arithmetic"""

    def __init__(s, own):
        s.own, s.mod = own, own.mod
        s.fields, s.gcells = {}, {}
        for fn in lib.own(s.mod):
            for i in fn.instrs():
                if i.op == 'store':
                    b, off = ditypes.base_off(fn, i.args[1])
                    if b[0] == 'g':
                        s.gcells.setdefault((b[1], off), []).append((fn, i.args[0]))
                        continue
                    m = ditypes.member_at(fn, i.args[1])
                    if m:
                        s.fields.setdefault((m[0], m[1]), []).append((fn, i.args[0]))
        s._b = {}
        s._taken = None

    def taken(s, name):
        if s._taken is None:
            s._taken = set()
            from .ir import walk
            for fn in lib.own(s.mod):
                for i in fn.instrs():
                    for a in i.args:
                        for x in walk(a):
                            if x[0] == 'g':
                                s._taken.add(x[1])
        return name in s._taken

    def aliases(s, name):
        """{parameter: exact} of a defined function: the result may be (exact) or point into the parameter"""
        if name not in s._b:
            s._b[name] = {}
            fn = s.mod.fns[name]
            ps = [p for p, _ in fn.params]
            r = {}
            seen = set()
            work = []
            for b in fn.blocks.values():
                if b.term.op == 'ret' and b.term.args and fn.rettype == 'ptr':
                    work.append((b.term.args[0], True))
            while work:
                o, ex = work.pop()
                for x in lib.origins(fn, o, geps=False):
                    if (x, ex) in seen or x[0] != 'l':
                        continue
                    seen.add((x, ex))
                    if x[1] in ps:
                        k = ps.index(x[1])
                        r[k] = r.get(k, True) and ex
                        continue
                    d = fn.defs.get(x[1])
                    if d is None:
                        continue
                    if d.op == 'getelementptr':
                        work.append((d.args[0], ex and all(z == ('i', 0) for z in d.args[1:])))
                    elif d.op == 'call':
                        if d.callee in INTERIOR_EXT:
                            work.append((d.args[INTERIOR_EXT[d.callee]], False))
                        elif d.callee in SAME_EXT:
                            work.append((d.args[SAME_EXT[d.callee]], ex))
                        elif d.callee in s.mod.fns:
                            for k, e in s.aliases(d.callee).items():
                                if k < len(d.args):
                                    work.append((d.args[k], ex and e))
            s._b[name] = r
        return s._b[name]

    def roots(s, fn, op):
        """{(kind, fn name, operand)}; kind: heap, interior, literal, local, borrowed, null, unknown"""
        out, seen = set(), set()
        work = [(fn, op)]
        while work:
            f, o0 = work.pop()
            for o in lib.origins(f, o0, geps=False):
                if (f.name, o) in seen:
                    continue
                seen.add((f.name, o))
                if len(seen) > 4000:
                    return out
                if o[0] in ('null', 'zero', 'undef', 'i'):
                    out.add(('null', f.name, o))
                    continue
                if o[0] in ('g', 'gep'):
                    out.add(('literal', f.name, o))
                    continue
                if o[0] != 'l':
                    out.add(('unknown', f.name, o))
                    continue
                d = f.defs.get(o[1])
                if d is None:
                    ps = [p for p, _ in f.params]
                    if o[1] in ps and not s.taken(f.name):
                        k = ps.index(o[1])
                        for cf, ci in lib.callers(s.mod, f.name):
                            if k < len(ci.args):
                                work.append((cf, ci.args[k]))
                    continue
                if d.op == 'alloca':
                    out.add(('local', f.name, o))
                elif d.op == 'getelementptr':
                    if all(z == ('i', 0) for z in d.args[1:]):
                        work.append((f, d.args[0]))
                    else:
                        out.add(('interior', f.name, o))
                elif d.op == 'call':
                    c = d.callee
                    if c in INTERIOR_EXT:
                        out.add(('interior', f.name, o))
                    elif c in SAME_EXT:
                        work.append((f, d.args[SAME_EXT[c]]))
                    elif c in BORROWED_EXT:
                        out.add(('borrowed', f.name, o))
                    elif s.own.acquired(f, d):
                        out.add(('heap', f.name, o))
                        if c in s.mod.fns:
                            for k, e in s.aliases(c).items():
                                if k < len(d.args):
                                    work.append((f, d.args[k]))
                    elif c in s.mod.fns:
                        al = s.aliases(c)
                        if al:
                            for k, e in al.items():
                                if k >= len(d.args):
                                    continue
                                if e:
                                    work.append((f, d.args[k]))
                                else:
                                    out.add(('interior', f.name, o))
                        elif not s.own.ret[c] and s.lends(c):
                            out.add(('borrowed', f.name, o))
                    else:
                        out.add(('unknown', f.name, o))
                elif d.op == 'load':
                    b, off = ditypes.base_off(f, d.args[0])
                    if b[0] == 'g':
                        for x in s.gcells.get((b[1], off), ()):
                            work.append(x)
                        g = s.mod.globals.get(b[1])
                        if g is not None and off == 0 and g.init is not None and g.init[0] in ('g', 'gep'):
                            out.add(('literal', f.name, g.init))
                        continue
                    if b[0] == 'l' and b[1] in f.defs and f.defs[b[1]].op == 'alloca':
                        for i in f.instrs():
                            if i.op == 'store' and ditypes.base_off(f, i.args[1]) == (b, off):
                                work.append((f, i.args[0]))
                        continue
                    m = ditypes.member_at(f, d.args[0])
                    if m and (m[0], m[1]) in s.fields and not s.generic(m):
                        for x in s.fields[(m[0], m[1])]:
                            work.append(x)
        return out

    def generic(s, m):
        """fields of the containers hold whatever was inserted"""
        return m[1] == 'data' and m[0] in ('_bc_slist_t', 'bc_slist_t', '_bc_trie_node_t', 'bc_trie_node_t') or \
            'slist' in m[0] or 'trie' in m[0]

    def lends(s, name):
        """a function that hands out what stays in a structure: every result is loaded from memory or constant"""
        k = ('lends', name)
        if k not in s._b:
            s._b[k] = False
            fn = s.mod.fns[name]
            r = False
            for b in fn.blocks.values():
                if b.term.op == 'ret' and b.term.args and fn.rettype == 'ptr':
                    for x in lib.origins(fn, b.term.args[0]):
                        d = fn.defs.get(x[1]) if x[0] == 'l' else None
                        if x[0] in ('g', 'gep'):
                            r = True
                        elif d is not None and d.op == 'load' and s.container(fn, d):
                            r = True
                        elif d is not None and d.op == 'call' and d.callee in s.mod.fns and d.callee != name and \
                                not s.own.ret[d.callee] and s.lends(d.callee):
                            r = True
            s._b[k] = r
        return s._b[k]

    def container(s, fn, d):
        b, off = ditypes.base_off(fn, d.args[0])
        return not (b[0] == 'l' and b[1] in fn.defs and fn.defs[b[1]].op == 'alloca')


class Sinks:
    """calls a value may reach, following copies, structure fields, results and parameters"""

    def __init__(s, own):
        s.own, s.mod = own, own.mod
        s._memo = {}
        s.loads = {}
        s.whole = None
        for fn in lib.own(s.mod):
            for i in fn.instrs():
                if i.op == 'load':
                    m = ditypes.member_at(fn, i.args[0])
                    if m:
                        s.loads.setdefault((m[0], m[1]), []).append((fn, ('l', i.res)))

    def of(s, fn, op):
        """{(function name, call instruction, argument index)}"""
        k = (fn.name, op)
        if k in s._memo:
            return s._memo[k]
        out, seen, work = set(), set(), [(fn, op)]
        while work:
            f, o = work.pop()
            if (f.name, o) in seen or o[0] != 'l' or len(seen) > 3000:
                continue
            seen.add((f.name, o))
            for i in f.instrs():
                if i.op in ('phi',):
                    if any(v == o for v, _ in i.extra):
                        work.append((f, ('l', i.res)))
                    continue
                if o not in i.args:
                    continue
                if i.op in ('select', 'bitcast'):
                    work.append((f, ('l', i.res)))
                elif i.op == 'ret':
                    for cf, ci in lib.callers(s.mod, f.name):
                        if ci.res:
                            work.append((cf, ('l', ci.res)))
                elif i.op == 'store' and i.args[0] == o:
                    b, off = ditypes.base_off(f, i.args[1])
                    d = f.defs.get(b[1]) if b[0] == 'l' else None
                    if d is not None and d.op == 'alloca':
                        for j in f.instrs():
                            if j.op == 'load' and ditypes.base_off(f, j.args[0]) == (b, off):
                                work.append((f, ('l', j.res)))
                        continue
                    m = ditypes.member_at(f, i.args[1])
                    if m:
                        for x in s.loads.get((m[0], m[1]), ()):
                            work.append(x)
                        continue
                    ps = [p for p, _ in f.params]
                    if b[0] == 'l' and b[1] in ps:
                        k2 = ps.index(b[1])
                        for cf, ci in lib.callers(s.mod, f.name):
                            if k2 < len(ci.args):
                                ab, ao = ditypes.base_off(cf, ci.args[k2])
                                for j in cf.instrs():
                                    if j.op == 'load' and ditypes.base_off(cf, j.args[0]) == (ab, ao):
                                        work.append((cf, ('l', j.res)))
                elif i.op == 'call':
                    for n, a in enumerate(i.args):
                        if a != o:
                            continue
                        out.add((f.name, i, n))
                        c = i.callee
                        if c in s.mod.fns:
                            if n in s.own.alias[c] and i.res:
                                work.append((f, ('l', i.res)))
                            elif n < len(s.mod.fns[c].params) and not s.own.releases(i):
                                work.append((s.mod.fns[c], ('l', s.mod.fns[c].params[n][0])))
        s._memo[k] = out
        return out
