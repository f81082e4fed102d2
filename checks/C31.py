"""Parsers always finish: every cycle of every loop makes progress towards a bound."""
from engine import frontend, ir, lib, zone, loops, ditypes
from engine.zone import plus, neg
from checks import C23

# calls that consume a stream: the way out depends on what they return
STREAM = {'read', 'recv', 'fread', 'fgets', 'getline', 'readdir', 'getc', 'fgetc', 'waitpid', 'wait', 'write', 'send', 'strtok', 'fgetc_unlocked'}
# calls that wait for an event
WAIT = {'poll', 'select', 'accept', 'sleep', 'nanosleep', 'usleep', 'pthread_join'}
LIMIT = 40000
BUDGET = 250000
# loops whose progress is not a matter of one variable: outermost loop of the function
ASSUMED = {'bc_slist_sort': 'exchange sort: ends when a pass finds nothing to exchange'}


class Edge:
    def __init__(s, frm, to, grow, shrink, walk, latch):
        s.frm, s.to, s.grow, s.shrink, s.walk, s.latch = frm, to, grow, shrink, walk, latch


def without(loop, cut):
    """is there a cycle through the header that avoids the blocks in cut"""
    if loop.header in cut:
        return False
    seen, work = set(), [loop.header]
    while work:
        b = work.pop()
        for t in b.succs:
            if t is loop.header:
                return True
            if t in loop.body and t not in cut and t not in seen:
                seen.add(t)
                work.append(t)
    return False


def streamed(loop):
    """what every round does: 'stream' (consumes something, and the way out depends on it), 'wait' (for an event) or None"""
    calls = [i for b in loop.body for i in b.instrs if i.op == 'call']
    cut = {i.block for i in calls if i.callee in WAIT}
    if cut and not without(loop, cut):
        return 'wait'
    got = set()
    for b in loop.body:
        if any(t not in loop.body for t in b.succs) and b.term.args:
            got |= sources(loop, b.term.args[0])
    ends = any(i.callee in ('feof', 'ferror') and i.res in got for i in calls)
    cut = {i.block for i in calls if i.callee in STREAM and (ends or i.res in got)}
    if cut and not without(loop, cut):
        return 'stream'
    return None


def sources(loop, op):
    """results of calls in the loop an operand is computed from, round by round"""
    r, work, seen = set(), [op], set()
    while work:
        o = work.pop()
        if o[0] != 'l' or o[1] in seen:
            continue
        seen.add(o[1])
        d = loop.fn.defs.get(o[1])
        if d is None or d.block not in loop.body:
            continue
        if d.op == 'call':
            r.add(d.res)
            # results that are left in variables of the caller
            continue
        work += [v for v, _ in d.extra] if d.op == 'phi' else list(d.args)
        if d.op == 'phi':
            for _, pb in d.extra:
                t = loop.fn.blocks[pb].term
                if t.args and loop.fn.blocks[pb] in loop.body:
                    work.append(t.args[0])
    return r


# calls that return a shorter text of the one they are given, and copies
SHORTER = {'dirname'}
COPIES = {'bc_strdup', 'strdup'}


class Walk(zone.Zone):
    """follows, besides the numbers, whether a list cursor was moved to the next element since the round began"""
    cursors = ()

    def shift(s, st, op, depth=0):
        """(cursor, 0 as it was or 1 further) or None"""
        if op[0] != 'l' or depth > 8:
            return None
        if op[1] in s.cursors:
            return st.env.get('w:' + op[1], (op[1], 0))
        d = s.fn.defs.get(op[1])
        if d is None:
            return None
        if d.op == 'phi':
            return st.env.get('w:' + op[1])
        r = None
        if d.op == 'load':
            m = loops.member(s.fn, op)
            if m is not None:
                r = s.shift(st, ditypes.base_off(s.fn, d.args[0])[0], depth + 1)
        elif d.op == 'call' and d.callee in SHORTER:
            r = s.shift(st, d.args[0], depth + 1)
        elif d.op == 'call' and d.callee in COPIES:
            return s.shift(st, d.args[0], depth + 1)
        return (r[0], 1) if r is not None else None

    def edge(s, st, frm, to):
        sh = {}
        for p in to.phis():
            if p.type == 'ptr':
                v = next((x for x, pb in p.extra if pb == frm.name), None)
                c = s.shift(st, v) if v is not None else None
                if c is not None and (p.res not in s.cursors or c[0] == p.res):
                    sh[p.res] = c
                elif p.res in s.cursors:
                    sh[p.res] = (p.res, 2)
        r = zone.Zone.edge(s, st, frm, to)
        for x in r:
            for p in to.phis():
                x.env.pop('w:' + p.res, None)
                if p.res in sh:
                    x.env['w:' + p.res] = sh[p.res]
        return r


def plain(k):
    return (tuple((n, v) for n, v in k[0] if n[:2] != 'w:'), k[1])


def loaded(fn, op, name):
    """a member of the object the cursor is at: one step deeper in a structure without cycles"""
    m = loops.member(fn, op)
    if m is None:
        return False
    b, off = ditypes.base_off(fn, m[2].args[0])
    return b == ('l', name)


def deps(loop, op):
    """header phis and loaded values an operand is computed from"""
    r, work, seen = set(), [op], set()
    while work:
        o = work.pop()
        if o[0] == 'gep':
            work += [x for x in o[1:] if isinstance(x, tuple)]
            continue
        if o[0] != 'l' or o[1] in seen:
            continue
        seen.add(o[1])
        d = loop.fn.defs.get(o[1])
        if d is None or d.block not in loop.body:
            continue
        if d.op == 'phi' and d.block is loop.header:
            r.add(o[1])
            continue
        work += [v for v, _ in d.extra] if d.op == 'phi' else list(d.args)
        if d.op == 'phi':
            # what decides which value it has
            for _, pb in d.extra:
                t = loop.fn.blocks[pb].term
                if t.args:
                    work.append(t.args[0])
    return r


def tested(loop):
    """header phis that a way out of the loop depends on"""
    r = set()
    for b in loop.body:
        if any(t not in loop.body for t in b.succs) and b.term.args:
            r |= deps(loop, b.term.args[0])
    return r


def sccs(nodes, edges):
    idx, low, on, st, out = {}, {}, set(), [], []
    succ = {}
    for e in edges:
        succ.setdefault(e.frm, set()).add(e.to)
    cnt = [0]
    for root in nodes:
        if root in idx:
            continue
        work = [(root, iter(sorted(succ.get(root, ()), key=repr)))]
        idx[root] = low[root] = cnt[0]
        cnt[0] += 1
        st.append(root)
        on.add(root)
        while work:
            v, it = work[-1]
            w = next(it, None)
            if w is None:
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == idx[v]:
                    c = set()
                    while True:
                        x = st.pop()
                        on.discard(x)
                        c.add(x)
                        if x == v:
                            break
                    out.append(c)
            elif w not in idx:
                idx[w] = low[w] = cnt[0]
                cnt[0] += 1
                st.append(w)
                on.add(w)
                work.append((w, iter(sorted(succ.get(w, ()), key=repr))))
            elif w in on:
                low[v] = min(low[v], idx[w])
    return out


class Loops:
    def __init__(s, fn, rep, prog):
        s.fn, s.rep, s.prog = fn, rep, prog
        s.z = None

    def solve(s):
        if s.z is None:
            for full in (True, False):
                z = zone.Zone(s.fn, modes=None if full else zone.switched(s.fn), limit=LIMIT if full else 250000)
                z.lens = {} if s.fn.name == 'x' else C23.pairs(s.fn)
                C23.moving(z)
                try:
                    z.run()
                    s.z = z
                    break
                except zone.TooMany:
                    pass
        return s.z

    def bounded(s, z, st, v, loop, up):
        """has the variable a bound that does not change in the loop"""
        lim = st.z.d.get(v, {}) if up else {}
        if up:
            for y, c in lim.items():
                if y != v and s.outside(z, y, loop):
                    return True
            f = st.up.get(v)
            if f is not None and all(s.outside(z, a, loop) for a in f[1]):
                return True
        else:
            for x, r in st.z.d.items():
                if x != v and v in r and s.outside(z, x, loop):
                    return True
        return False

    def outside(s, z, y, loop):
        if y == '%0':
            return True
        if y.startswith('g:') or y.startswith('#'):
            return False
        n = y[2:] if y[1:2] == ':' else y
        if y.startswith('S:'):
            return False
        d = s.fn.defs.get(n)
        return d is None or d.block not in loop.body

    def loop(s, loop):
        fn, rep = s.fn, s.rep
        line = min([i.line for b in loop.body for i in b.instrs if i.line] or [0])
        where = '%s %s:%d' % (s.prog, fn.name, line)
        how = streamed(loop)
        if how is not None:
            rep.count('loops that wait for events' if how == 'wait' else 'loops that consume a stream', sample=where)
            return
        test = tested(loop)
        # one variable that always advances and that the way out depends on
        for v, (_, c) in loops.lists(loop).items():
            if v in test and c is True:
                rep.count('loops over a list or a tree', sample=where)
                return
        z = s.solve()
        if z is None:
            rep.count('loops not decided', sample=where)
            return
        seeds = z.at.get(loop.header, {})
        if not seeds:
            rep.count('loops never entered', sample=where)
            return
        s.l, s.test = loop, test
        s.steps = 0
        s.again = False
        try:
            edges = []
            for k, st in seeds.items():
                edges += s.rounds(k, st)
            rep.count('rounds analysed (state to state)', len(edges))
            r = s.rank(edges, seeds)
        except zone.TooMany:
            rep.count('loops not decided', sample=where)
            return
        finally:
            rep.count('steps of one round', s.steps)
        if r is None:
            rep.count('loops that take a list element in every round' if s.again else 'loops with a bounded measure', sample=where)
            return
        if fn.name in ASSUMED and outermost(loop):
            rep.count('loops assumed to finish', sample='%s: %s' % (where, ASSUMED[fn.name]))
            return
        e = r[0]
        rep.violation('%s:%s' % (fn.name, shape(loop)), (loop.header.instrs[-1].loc() if loop.header.instrs else (fn.file, line)),
                      '%s: a round of the loop at line %d can leave every index, cursor and stream where it was' % (fn.name, line),
                      ['round: state %s, then state %s, back from line %s; %s %s %s' % (dict(x.frm[0]), dict(x.to[0]), max([i.line for i in x.latch.instrs if i.line] or [0]), x.grow, x.shrink, x.walk) for x in r[:6]])

    def rounds(s, k, st, stop=None):
        """edges from the state k at the header to the next visit of the header (or of the states chosen by stop)"""
        fn, z, loop = s.fn, s.z, s.l
        z2 = Walk(fn, modes=z.modes, limit=LIMIT)
        z2.modes, z2.bools, z2.lens, z2.sums = z.modes, z.bools, z.lens, z.sums
        x = st.copy()
        x.tags = st.tags
        vs, curs = [], []
        for p in loop.header.phis():
            if p.res in z.modes or p.res in z.bools or p.type == 'i1':
                continue
            if p.type == 'ptr' and z.root.get(p.res, p.res) == p.res:
                curs.append(p.res)
                continue
            g = 'g:' + p.res
            z2.pinned.add(g)
            z2.pinned.add(p.res)
            x.z.add(g, p.res, 0)
            x.z.add(p.res, g, 0)
            vs.append(p.res)
        z2.cursors = set(curs)
        z2.run([(loop.header, x)], loop.body, loop.header, stop and (lambda y: stop(plain(z2.key(pruned(z2, y, loop.header)))))) 
        s.steps += z2.visited
        out = []
        for frm, y in z2.latches:
            grow, shrink, walk = {}, {}, {}
            for v in vs:
                a = y.z.ub('g:' + v, v)      # g - v <= a: v >= g - a
                b = y.z.ub(v, 'g:' + v)
                if a <= 0 and (v in s.test or s.bounded(z, y, v, loop, True)):
                    grow[v] = -a
                if b <= 0 and (v in s.test or s.bounded(z, y, v, loop, False)):
                    shrink[v] = -b
            for v in curs:
                w = y.env.get('w:' + v, (v, 2))
                if w[1] != 2:
                    walk[v] = w[1]
            to = plain(z2.key(pruned(z2, y, loop.header)))
            out.append(Edge(k, to, grow, shrink, walk, frm))
        return out

    def rank(s, edges, seeds, depth=0):
        """None if every cycle of states has a measure, else the edges of one that has none"""
        for c in sccs(sorted({e.frm for e in edges} | {e.to for e in edges}, key=repr), edges):
            es = [e for e in edges if e.frm in c and e.to in c]
            if not es:
                continue
            best = strict(es)
            if best is not None:
                r = s.rank([e for e in es if e not in best], seeds, depth)
                if r is not None:
                    return r
                continue
            # a list walked again for each element of another one: every round takes an element of some list
            if all(any(v >= 1 for v in e.walk.values()) for e in es):
                s.again = True
                continue
            # a round from a state to itself without any progress has no measure
            still = [e for e in es if e.frm == e.to and not any(v >= 1 for m in (e.grow, e.shrink, e.walk) for v in m.values())]
            if still:
                return still
            if depth == 2:
                return s.culprits(es)
            # states every cycle passes: the measure has to advance from one visit to the next
            for g in groups(c)[:25 if depth == 0 else 8]:
                rest = [e for e in es if e.frm not in g and e.to not in g]
                if s.rank(rest, seeds, depth + 1) is not None:
                    continue
                if s.steps > BUDGET:
                    raise zone.TooMany(s.fn.name)
                es2 = []
                for k in g:
                    if k in seeds:
                        es2 += [e for e in s.rounds(k, seeds[k], lambda y: y in g) if e.to in g]
                if s.rank_plain(es2):
                    break
            else:
                return s.culprits(es)
        return None

    def rank_plain(s, es):
        while True:
            cs = [c for c in sccs(sorted({e.frm for e in es} | {e.to for e in es}, key=repr), es)]
            nxt = []
            for c in cs:
                ins = [e for e in es if e.frm in c and e.to in c]
                if not ins:
                    continue
                best = strict(ins)
                if best is None:
                    return False
                nxt += [e for e in ins if e not in best]
            if not nxt:
                return True
            es = nxt

    def culprits(s, es):
        """rounds without any progress first"""
        return sorted(es, key=lambda e: (any(v >= 1 for m in (e.grow, e.shrink, e.walk) for v in m.values()), repr(e.frm)))


def pruned(z, y, b):
    y = y.copy()
    z.prune(y, b)
    return y


def strict(es):
    best = None
    for kind in ('grow', 'shrink', 'walk'):
        for v in sorted(set().union(*[set(getattr(e, kind)) for e in es])):
            if all(getattr(e, kind).get(v) is not None for e in es):
                r = [e for e in es if getattr(e, kind)[v] >= 1]
                if r and (best is None or len(r) > len(best)):
                    best = r
    return best


def groups(nodes):
    """sets of states with the same value of one variable, larger first; then single states"""
    by = {}
    for k in nodes:
        for n, v in k[0]:
            by.setdefault((n, v), set()).add(k)
    gs = sorted((g for g in by.values() if len(g) < len(nodes) or len(nodes) == 1), key=lambda g: (-len(g), repr(sorted(g, key=repr))))
    out = []
    for g in gs[:60] + [{k} for k in sorted(nodes, key=repr)[:30]]:
        if g not in out:
            out.append(g)
    return out


def outermost(loop):
    return not any(l is not loop and loop.header in l.body for l in loops.loops(loop.fn))


def shape(loop):
    return 'loop%d' % sorted(loops.loops(loop.fn), key=lambda l: min([i.line for b in l.body for i in b.instrs if i.line] or [0])).index(loop)


def recursion(rep, prog, mod, done, only=None):
    """every call that leads back to its own function is given something smaller"""
    g = {f.name: {i.callee for i in f.instrs() if i.op == 'call' and i.callee in mod.fns} for f in mod.fns.values()}
    reach = {}
    for f in g:
        seen, work = set(), list(g[f])
        while work:
            x = work.pop()
            if x not in seen:
                seen.add(x)
                work += g[x]
        reach[f] = seen
    for fn in lib.own(mod):
        if fn.name not in reach[fn.name] or (only and fn.name not in only) or ('rec', fn.name, len(fn.defs)) in done:
            continue
        done.add(('rec', fn.name, len(fn.defs)))
        sites = [i for i in fn.instrs() if i.op == 'call' and i.callee in mod.fns and (i.callee == fn.name or fn.name in reach[i.callee])]
        smaller(rep, prog, mod, fn, sites)


def smaller(rep, prog, mod, fn, sites):
    params = [p for p, _ in fn.params]
    text = {params[k]: params[k + 1] for k in range(len(params) - 1) if fn.params[k][1] == 'ptr' and fn.params[k + 1][1] == 'i64' and zone.ischar(fn, ('l', params[k]))}
    x = Loops(fn, rep, prog)
    want = {}
    for i in sites:
        where = '%s %s:%d' % (prog, fn.name, i.line)
        how = None
        ts = [k for k in range(len(i.args) - 1) if i.callee == fn.name and k < len(params) and params[k] in text]
        if ts:
            for k in ts:
                want.setdefault(i, []).append((i, i.args[k], i.args[k + 1], where))
            continue
        cuts = []
        for a in i.args:
            lv = allleaves(fn, a)
            if any(inner(fn, o, params) for o in lv):
                how = 'a part of the structure'
            c = [fn.defs[o[1]] for o in lv if o[0] == 'l' and o[1] in fn.defs and fn.defs[o[1]].op == 'call' and fn.defs[o[1]].callee in ('bc_strndup', 'strndup')]
            if c and len([o for o in lv if o[0] != 'null']) == len(c) and text:
                cuts += c
        if how:
            rep.count('calls back: on ' + how, sample=where)
        elif cuts:
            for c in cuts:
                want.setdefault(c, []).append((i, c.args[0], c.args[1], where))
        elif i.callee == fn.name and all(a == ('l', p) for a, p in zip(i.args, params) if a[0] != 'i'):
            rep.violation('%s:%s:same' % (fn.name, i.callee), i.loc(), '%s calls itself with what it was given' % fn.name)
        elif any(i.block in l.body and streamed(l) for l in loops.loops(fn)):
            rep.count('calls back: for an entry of a directory', sample=where)
        else:
            rep.count('calls back: not decided', sample=where)
    if not want:
        return
    z = x.solve()
    if z is None:
        rep.count('calls back: not decided', sum(map(len, want.values())))
        return
    good, seen = {}, set()

    def visit(i, st):
        for c, ptr, num, where in want.get(i, ()):
            p, n = z.plin(st, ptr), z.lin(st, num)
            own = p is not None and n is not None and p[0] in text
            seen.add((c, i))
            good[(c, i)] = good.get((c, i), True) and (not own or z.le(st, n, (0, {text[p[0]]: 1}), -1))
    z.replay(visit)
    for (c, i), ok in good.items():
        rep.count('calls back: on a shorter piece of the text', sample='%s %s:%d' % (prog, fn.name, c.line))
        if not ok:
            rep.violation('%s:%s:piece' % (fn.name, c.callee), c.loc(), '%s calls itself, and the piece of its text it passes on may be as long as the text' % fn.name)


def allleaves(fn, op):
    r, work, seen = set(), [op], set()
    while work:
        o = work.pop()
        if o in seen:
            continue
        seen.add(o)
        d = fn.defs.get(o[1]) if o[0] == 'l' else None
        if d is not None and d.op == 'phi':
            work += [v for v, _ in d.extra]
        elif d is not None and d.op == 'select':
            work += list(d.args[1:])
        else:
            r.add(o)
    return r


def inner(fn, op, params):
    """loaded from the object a parameter points to, through any number of members"""
    for _ in range(6):
        d = fn.defs.get(op[1]) if op[0] == 'l' else None
        if d is None or d.op != 'load' or d.type != 'ptr':
            return False
        b, off = ditypes.base_off(fn, d.args[0])
        if b[0] == 'l' and b[1] in params:
            return True
        op = b
    return False


def analyse(rep, prog, mod, done=None, only=None):
    done = set() if done is None else done
    for fn in lib.own(mod):
        if only and fn.name not in only:
            continue
        ls = loops.loops(fn)
        if not ls:
            continue
        sig = (fn.name, repr([(i.op, i.res, i.callee, i.args) for i in fn.instrs()]))
        if sig in done:
            continue
        done.add(sig)
        x = Loops(fn, rep, prog)
        for l in ls:
            rep.count('loops')
            x.loop(l)
    recursion(rep, prog, mod, done, only)


def run(rep, tier):
    rep.rule('Every loop of every program is given a measure: a variable that never moves back and has a bound (or decides when the loop '
             'is left), a list or tree cursor that moves to the next element, or something that is consumed or waited for. A round that does '
             'not move it must lead to another state of the automaton, and every cycle of states must move it; where a parser goes back in its text, '
             'the measure is taken from one visit of a state to the next. Functions that call themselves pass on a shorter piece of their text or a part of their structure.')
    rep.assumption('lists and trees have no cycles; streams and directories end; indexes do not wrap around; a text has a terminator')
    rep.assumption('rendering restarts the listing for each source and the foreach block for each value: only that every round takes an element of some list is decided')
    done = set()
    for prog, mod in lib.progs():
        analyse(rep, prog, mod, done)
    rep.floor('loops', 100)
    rep.floor('loops with a bounded measure', 40)
    rep.floor('loops over a list or a tree', 30)
    rep.floor('rounds analysed (state to state)', 1000)

    def ex(body, sig='const char *src, size_t src_len', pre=''):
        q = lib.Quiet()
        analyse(q, 'x', frontend.snippet(HEAD + pre + 'void blogc_content_parse(%s)\n{\n%s\n}\n' % (sig, body)))
        return bool(q.v)
    rep.selftest('clean', not ex('size_t i = 0; while (i < src_len) { use(src[i]); i++; }'))
    rep.selftest('continue', ex('size_t i = 0; while (i < src_len) { if (src[i] == 35) continue; i++; }'))
    st = 'size_t i = 0, start = 0; int state = 0; while (i < src_len) { char c = src[i]; switch (state) { case 0: if (c == 91) { state = 1; start = i; break; } %s break; case 1: if (c == 93) { use(start); state = 0; break; } %s break; } i++; }'
    rep.selftest('states', not ex(st % ('', 'if (c == 35) { state = 0; continue; }')))
    rep.selftest('states in a circle', ex(st % ('if (c == 35) { state = 1; continue; }', 'if (c == 35) { state = 0; continue; }')))
    rep.selftest('back', not ex(st % ('', 'if (c == 35) { state = 0; i = start + 1; continue; }')))
    rep.selftest('back to the same', ex(st % ('', 'if (c == 35) { state = 0; i = start; continue; }')))
    rep.selftest('list', not ex('for (struct l *p = x; p; p = p->next) use(1);', 'struct l *x'))
    rep.selftest('list that stays', ex('struct l *p = x; while (p) { if (p->data) { use(1); continue; } p = p->next; }', 'struct l *x'))
    rep.selftest('reading', not ex('char b[9]; while (read(fd, b, 9) > 0) use(1);', 'int fd'))
    rep.selftest('reading on', ex('char b[9]; int end = 0; while (!end) { read(fd, b, 9); }', 'int fd'))
    rep.selftest('itself', ex('if (src_len) blogc_content_parse(src, src_len);'))
    rep.selftest('itself on less', not ex('if (src_len > 1) blogc_content_parse(src + 1, src_len - 1);'))


HEAD = r"""
#include <stdlib.h>
#include <string.h>
#include <stdbool.h>
#include <unistd.h>
struct l { struct l *next; void *data; };
void use(int c);
"""
