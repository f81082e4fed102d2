"""The rule table: what a rule lists, what it builds, what the full build runs and what clean considers."""
from engine import frontend, ir, lib, ditypes, loops
from engine.paths import Rule, Engine
from engine.frontend import AnalysisBroken

BUILD = {'bm_exec_blogc': 6, 'bm_exec_native_cp': 1, 'bm_exec_native_rm': 1}     # position of the file that is made or removed
DECIDE = {'bm_rule_need_rebuild': 4}
LOOK = {'bm_ctx_settings_lookup': 1, 'bm_ctx_settings_lookup_str': 1}
NAMES = {'bm_generate_filename', 'bm_generate_filename2'}
NEWF, APPEND = 'bm_filectx_new', 'bc_slist_append'
# from blogc-make(1) and blogcfile(5): what a rule is made from, the setting that disables it, how its files are named, what
# it takes its files from one to one
SPEC = {
    'index': ({'posts'}, 'posts_per_page', ('blog_prefix', 'index_prefix', 'html_ext'), None),
    'atom': ({'posts'}, 'atom_posts_per_page', ('blog_prefix', 'atom_prefix', 'atom_ext'), None),
    'atom_tags': ({'posts', 'tags'}, 'atom_posts_per_page', ('blog_prefix', 'atom_prefix', 'tags[]', 'atom_ext'), None),
    'pagination': ({'posts'}, 'posts_per_page', ('blog_prefix', 'pagination_prefix', '#', 'html_ext'), None),
    'pagination_tags': ({'posts', 'tags'}, 'posts_per_page', ('blog_prefix', 'tag_prefix', 'tags[]', 'pagination_prefix', '#', 'html_ext'), None),
    'posts': ({'posts'}, None, ('blog_prefix', 'post_prefix', 'posts[]', 'html_ext'), 'posts_fctx'),
    'tags': ({'posts', 'tags'}, 'posts_per_page', ('blog_prefix', 'tag_prefix', 'tags[]', 'html_ext'), None),
    'pages': ({'pages'}, None, ('pages[]', 'html_ext'), 'pages_fctx'),
    'copy': ({'copy'}, None, None, 'copy_fctx'),
}
GUARDS = {'posts', 'tags', 'pages', 'copy'}


def table(mod):
    """[(name, list function or None, exec function)] of the rule table, and the offsets of the two members"""
    best = None
    for g in mod.globals.values():
        if g.init is None or g.init[0] != 'agg' or not g.const:
            continue
        rows = []
        off = {}
        for e in g.init[1]:
            if e[0] != 'agg':
                continue
            nm = ls = ex = None
            for k, x in enumerate(e[1]):
                if x[0] != 'g':
                    continue
                if x[1] in mod.fns:
                    f = mod.fns[x[1]]
                    if f.rettype == 'ptr':
                        ls = x[1]
                        off['list'] = 8 * k
                    else:
                        ex = x[1]
                        off['exec'] = 8 * k
                elif nm is None and mod.string(x) is not None:
                    nm = mod.string(x)
                    nm = nm.decode() if isinstance(nm, bytes) else nm
                    off['name'] = 8 * k
            if nm is not None and ex is not None:
                rows.append((nm.rstrip('\0'), ls, ex))
        if sum(1 for r in rows if r[1]) >= 2 and (best is None or len(rows) > len(best[1])):
            best = (g.name, rows, off)
    return best


def token(fn, op, depth=0):
    """what a part of a file name is made of: a settings key, member[] of the settings, '#' for a number, None for NULL"""
    if op[0] in ('null',):
        return None
    r = set()
    for o in lib.origins(fn, op, lib.COPIES, geps=False):
        d = fn.defs.get(o[1]) if o[0] == 'l' else None
        if o[0] == 'null':
            continue
        if o[0] in ('g', 'gep'):
            x = fn.module.string(o)
            r.add('"%s"' % (x,))
        elif d is None:
            r.add('param')
        elif d.op == 'call' and d.callee in LOOK:
            x = fn.module.string(d.args[LOOK[d.callee]])
            r.add(x.decode().rstrip('\0') if x is not None else '?')
        elif d.op == 'call' and d.callee == 'bc_strdup_printf':
            r.add('#')
        elif d.op == 'load':
            b, _ = ditypes.base_off(fn, d.args[0])
            g = fn.defs.get(d.args[0][1]) if d.args[0][0] == 'l' else None
            m = ditypes.member_at(fn, d.args[0])
            if m:
                r.add(m[1])
            elif g is not None and g.op == 'getelementptr':
                m = loops.member(fn, g.args[0])
                r.add(m[1] + '[]' if m else '?')
            else:
                m = loops.member(fn, d.args[0])
                r.add(m[1] + '[]' if m else '?')
        else:
            r.add('?')
    if len(r) == 1:
        return next(iter(r))
    return None if not r else '|'.join(sorted(r))


class Guards(Rule):
    """reasons known at each exit. ts: ('g', member, symbol) ('pp', key, symbol) ('key', key, symbol)"""

    def __init__(s, fn):
        s.f = fn
        s.exits = []

    def init(s, fn):
        return frozenset()

    def after(s, ts, ins, cx):
        if ins.callee in LOOK and ins.res:
            k = s.f.module.string(ins.args[LOOK[ins.callee]])
            v = cx.val(('l', ins.res))
            if k and k.rstrip(b'\0').endswith(b'per_page') and v[0] == 's':
                ts = ts | {('key', k.decode().rstrip('\0'), v[1])}
        if ins.callee in ('strtol', 'atoi', 'atol', 'strtoul', 'strtoll', 'strtoull') and ins.res:
            a = cx.val(ins.args[0])
            v = cx.val(('l', ins.res))
            for x in ts:
                if x[0] == 'key' and a == ('s', x[2]) and v[0] == 's':
                    ts = frozenset(y for y in ts if y[:2] != ('pp', x[1])) | {('pp', x[1], v[1])}
        return ts

    def loaded(s, ts, ins, cx):
        m = loops.member(s.f, ('l', ins.res))
        if m and m[1] in GUARDS:
            v = cx.val(('l', ins.res))
            if v[0] == 's':
                ts = frozenset(x for x in ts if x[:2] != ('g', m[1])) | {('g', m[1], v[1])}
        return ts

    def edge(s, ts, frm, to, cx):
        # settle what is known
        r = set()
        for x in ts:
            if x[0] == 'g':
                z = cx.null(('s', x[2]))
                if z is not None:
                    r.add(('no' if z else 'has', x[1]))
                    continue
            if x[0] == 'pp':
                lo, hi, ne = cx.rng(('s', x[2]))
                if lo == hi == 0:
                    r.add(('zero', x[1]))
                elif 0 in ne or lo > 0 or hi < 0:
                    r.add(('nonzero', x[1]))
                if hi <= 0:
                    r.add(('nonpos', x[1]))
            r.add(x)
        return frozenset(r)


class Walk(Rule):
    """every element of a list is handled. ts: ('open',) ('el', symbol) ('ok',) ('pos', symbol) ('fresh',) ('zip', symbol)
    ('rb', symbol) a decision ('r', symbol) a result"""

    def __init__(s, fn, root, verb, extra_ok=None):
        s.f, s.root, s.verb = fn, root, verb
        s.cur = cursors(fn, root)
        s.other = set()
        s.heads = {}
        for l in loops.loops(fn):
            for p in l.header.phis():
                if p.res in s.cur:
                    s.heads[p.res] = l
            for n, (a, st) in loops.lists(l).items():
                if n not in s.cur:
                    s.other.add(n)
        s.bad = {}
        s.steps = s.handled = 0
        s.early = []
        s.search = any(i.callee in NAMES for i in fn.calls())

    def init(s, fn):
        if s.root[0] == 'l' and s.root[1] in [p for p, _ in fn.params]:
            from engine.paths import Sym
            return frozenset({('pos', ('s', Sym(s.root[1])))})
        return frozenset()

    def iselem(s, op):
        for o in lib.origins(s.f, op, (), geps=False):
            d = s.f.defs.get(o[1]) if o[0] == 'l' else None
            if d is None or d.op != 'load':
                return False
            b, off = ditypes.base_off(s.f, d.args[0])
            m = ditypes.member_at(s.f, d.args[0])
            if not (b[0] == 'l' and b[1] in s.cur and m and m[1] == 'data'):
                return False
        return True

    def instr(s, ts, ins, cx):
        if ins.op == 'call' and ins.callee in BUILD and s.iselem(ins.args[BUILD[ins.callee]]):
            s.handled += 1
            return frozenset(x for x in ts if x[0] != 'el') | {('ok',)}
        return ts

    def after(s, ts, ins, cx):
        if ('l', ins.res) == s.root:
            v = cx.val(s.root)
            return frozenset(x for x in ts if x[0] != 'pos') | {('pos', v)}
        if ins.callee in DECIDE and ins.res and s.iselem(ins.args[DECIDE[ins.callee]]):
            return ts | {('rb', cx.val(('l', ins.res)))}
        return ts

    def loaded(s, ts, ins, cx):
        b, off = ditypes.base_off(s.f, ins.args[0])
        m = ditypes.member_at(s.f, ins.args[0])
        if not m or b[0] != 'l':
            return ts
        v = cx.val(('l', ins.res))
        if b[1] in s.cur:
            if m[1] == 'data':
                return ts if ('ok',) in ts else ts | {('el', v)}
        elif m[1] == 'readable' and s.iselem(b):
            return ts | {('rd', v)}
        return ts

    def settled(s, ts, cx):
        if ('ok',) in ts:
            return True
        for x in ts:
            if x[0] in ('el', 'rb') and cx.null(x[1]) is True:
                return True
            if x[0] == 'rd' and s.verb == 'removed' and cx.null(x[1]) is True:
                return True
        return ('miss',) in ts

    def edge(s, ts, frm, to, cx):
        for p in to.phis():
            if p.res in s.heads:
                if frm in s.heads[p.res].body:
                    s.steps += 1
                    if not s.settled(ts, cx):
                        s.bad.setdefault('skip', (frm.term, cx.trace()))
                ts = frozenset(x for x in ts if x[0] not in ('el', 'ok', 'pos', 'rb', 'rd', 'miss', 'end')) | {('pos', cx.val(('l', p.res)))}
                if frm in s.heads[p.res].body:
                    ts = ts | {('on',)}
        for p in to.phis():
            if p.res in s.other:
                ts = frozenset(x for x in ts if x[0] not in ('zip', 'end')) | {('zip', cx.val(('l', p.res)))}
        # a joint of the two cases would lose which of the lists ended
        if any(x[0] in ('pos', 'zip') and cx.null(x[1]) is True for x in ts):
            ts = ts | {('end',)}
        if s.settled(ts, cx) and ('ok',) not in ts:
            ts = frozenset(x for x in ts if x[0] not in ('el', 'rb', 'rd')) | {('ok',)}
        if s.search and ('ok',) not in ts:
            # a file whose name is not among the names that the rule gives
            t = frm.term
            if t.op == 'br' and t.args and t.args[0][0] == 'l':
                d = s.f.defs.get(t.args[0][1])
                if d is not None and d.op == 'icmp' and d.extra in ('eq', 'ne') and ('null',) in d.args:
                    p = [a for a in d.args if a != ('null',)]
                    x = s.f.defs.get(p[0][1]) if p and p[0][0] == 'l' else None
                    if x is not None and x.op == 'phi' and cx.null(cx.val(p[0])) is True and token(s.f, p[0]) in ('tags[]', 'posts[]'):
                        ts = ts | {('miss',)}
        return ts

    def exit(s, ts, ins, cx):
        v = cx.val(ins.args[0]) if ins.args else ('c', 0)
        if cx.null(v) is False:
            return
        pos = next((x[1] for x in ts if x[0] == 'pos'), None)
        if pos is not None and cx.null(pos) is True:
            return
        if ('end',) in ts or any(x[0] == 'zip' and cx.null(x[1]) is True for x in ts):
            return
        if pos is None or ('on',) not in ts and not any(x[0] in ('el', 'ok') for x in ts):
            s.early.append((ts, ins, cx.trace()))
            return
        if v[0] == 's' and cx.null(v) is None and any(x[0] == 'ok' for x in ts):
            # leaves with the result of the step, which is only known to be a failure when it is tested
            s.bad.setdefault('stop', (ins, cx.trace()))
            return
        s.bad.setdefault('stop', (ins, cx.trace()))


def cursors(fn, root):
    cur = {root[1]}
    ch = True
    while ch:
        ch = False
        for i in fn.instrs():
            if i.res is None or i.res in cur:
                continue
            if i.op == 'phi' and i.type == 'ptr' and any(v[0] == 'l' and v[1] in cur for v, _ in i.extra) and \
                    all(v[0] == 'null' or v[0] == 'l' and (v[1] in cur or v[1] == i.res or isnext(fn, v)) for v, _ in i.extra):
                cur.add(i.res)
                ch = True
            elif i.op == 'load' and any(loops.nextof(fn, ('l', i.res), c) for c in cur):
                cur.add(i.res)
                ch = True
    return cur


def isnext(fn, v):
    m = loops.member(fn, v)
    return m is not None and m[1] == 'next'


class Both(Guards, Walk):
    def __init__(s, fn, root, verb):
        Walk.__init__(s, fn, root, verb)
        s.exits = []

    def init(s, fn):
        return Walk.init(s, fn)

    def after(s, ts, ins, cx):
        return Walk.after(s, Guards.after(s, ts, ins, cx), ins, cx)

    def loaded(s, ts, ins, cx):
        return Walk.loaded(s, Guards.loaded(s, ts, ins, cx), ins, cx)

    def edge(s, ts, frm, to, cx):
        return Walk.edge(s, Guards.edge(s, ts, frm, to, cx), frm, to, cx)


class Lists(Guards):
    """exits of a list function: (reasons, NULL for sure / maybe)"""

    def exit(s, ts, ins, cx):
        z = cx.null(cx.val(ins.args[0]))
        visited = any(x[0] == 'app' for x in ts)
        s.exits.append((frozenset(x[:2] for x in ts if x[0] in ('no', 'zero', 'nonpos', 'nonzero', 'has')), z, visited, ins, cx.trace(), ('loop',) in ts))

    def instr(s, ts, ins, cx):
        if ins.op == 'call' and ins.callee == APPEND:
            return ts | {('app',)}
        return ts

    def edge(s, ts, frm, to, cx):
        ts = Guards.edge(s, ts, frm, to, cx)
        if any(l.header is to and frm not in l.body for l in loops.loops(s.f)):
            ts = ts | {('loop',)}
        return ts


class Once(Rule):
    """appends per round of a loop"""

    def __init__(s, loop):
        s.loop = loop
        s.bad = None
        s.rounds = 0

    def init(s, fn):
        return 0

    def instr(s, ts, ins, cx):
        if ins.op == 'call' and ins.callee == APPEND and ins.block in s.loop.body:
            return min(ts + 1, 2)
        return ts

    def edge(s, ts, frm, to, cx):
        if to is s.loop.header:
            if frm in s.loop.body:
                s.rounds += 1
                if ts != 1 and s.bad is None:
                    s.bad = (ts, frm.term, cx.trace())
            return 0
        return ts


def once(rep, prog, fn, loop, what):
    e = Once(loop)
    Engine(fn, e, 200000).run()
    rep.count('loops that make files examined', 1, '%s:%s' % (fn.name, loop.header.term.line))
    if e.bad:
        rep.violation('%s:%s:once' % (prog, fn.name), e.bad[1].loc(),
                      'a round of the loop over the %s adds %s to the list' % (what, 'no file' if e.bad[0] == 0 else 'more than one file'), e.bad[2])


def whole(rep, prog, fn, loop, what):
    """the loop starts with the first and steps by one"""
    ok = True
    used = condition(fn, loop)
    for n, (a, st) in loops.counters(loop).items():
        if n not in used and not subscript(fn, loop, n):
            continue
        rep.count('counters examined', 1, '%s:%s' % (fn.name, n))
        if st != {1}:
            if None in st:
                continue
            rep.violation('%s:%s:step' % (prog, fn.name), loop.header.term.loc(), 'the counter over the %s does not go up by one in every round' % what)
            ok = False
        if subscript(fn, loop, n) and any(v[0] == 'i' and v[1] + off != 0 for v in a for off in subscript(fn, loop, n)):
            rep.violation('%s:%s:first' % (prog, fn.name), loop.header.term.loc(), 'the first of the %s is left out' % what)
            ok = False
    for n, (a, adv) in loops.lists(loop).items():
        rep.count('lists walked', 1, '%s:%s' % (fn.name, n))
        if adv is False:
            rep.violation('%s:%s:walk' % (prog, fn.name), loop.header.term.loc(), 'a list over the %s does not go on in every round' % what)
        if any(isnext(fn, v) for v in a):
            rep.violation('%s:%s:first' % (prog, fn.name), loop.header.term.loc(), 'the first of the %s is left out' % what)
    return ok


def condition(fn, loop):
    r = set()
    for b in loop.body:
        t = b.term
        if t.op == 'br' and t.args and any(x not in loop.body for x in b.succs):
            d = fn.defs.get(t.args[0][1]) if t.args[0][0] == 'l' else None
            if d is not None and d.op == 'icmp':
                for a in d.args:
                    for o in lib.origins(fn, a, (), geps=False):
                        if o[0] == 'l':
                            r.add(o[1])
                    x = a
                    while x[0] == 'l' and x[1] in fn.defs and fn.defs[x[1]].op in ('add', 'sub', 'zext', 'sext', 'trunc'):
                        x = fn.defs[x[1]].args[0]
                    if x[0] == 'l':
                        r.add(x[1])
    return r


def subscript(fn, loop, name):
    """constants k such that the settings' vectors are indexed with name + k in the loop"""
    r = set()
    for b in loop.body:
        for i in b.instrs:
            if i.op == 'getelementptr' and len(i.args) == 2 and i.extra == 'ptr':
                m = loops.member(fn, i.args[0])
                k = loops.step(fn, i.args[1], name)
                if k is not None and m is not None and m[1] in GUARDS:
                    r.add(k)
    return r


def cuts(rep, prog, fn, loop, what):
    """ways out of the loop that are not the end of what it walks over"""
    own = set(loops.counters(loop)) | set(loops.lists(loop))
    for b in loop.body:
        t = b.term
        if not any(x not in loop.body for x in b.succs) or t.op != 'br' or not t.args:
            continue
        if not related(fn, t.args[0], own, 0, set()):
            rep.violation('%s:%s:cut' % (prog, fn.name), t.loc(), 'the loop over the %s can end before the last one' % what)


def related(fn, op, own, depth, seen):
    if op in seen or depth > 12:
        return False
    seen.add(op)
    if op[0] != 'l':
        return False
    if op[1] in own:
        return True
    d = fn.defs.get(op[1])
    if d is None or d.op == 'call':
        return False
    if d.op == 'phi' and d.type == 'ptr' and depth:
        return any(related(fn, v, own, depth + 1, seen) for v, _ in d.extra)
    return any(related(fn, a, own, depth + 1, seen) for a in d.args)


def numbers(rep, prog, fn):
    """pages are numbered from 1 to the number of pages: (first, last is the bound)"""
    for i in fn.calls('bc_strdup_printf'):
        if len(i.args) < 2:
            continue
        for l in loops.inner(fn, i.block)[:1]:
            for n, (a, st) in loops.counters(l).items():
                k = loops.step(fn, i.args[1], n)
                if k is None:
                    continue
                rep.count('page numbers examined', 1, '%s:%s' % (fn.name, i.line))
                init = {v[1] for v in a if v[0] == 'i'}
                if init and any(v + k != 1 for v in init):
                    rep.violation('%s:%s:number' % (prog, fn.name), i.loc(), 'the pages are not numbered from 1')
                for b in l.body:
                    t = b.term
                    if t.op == 'br' and t.args and t.args[0][0] == 'l' and any(x not in l.body for x in b.succs):
                        d = fn.defs.get(t.args[0][1])
                        if d is None or d.op != 'icmp' or not init:
                            continue
                        c = loops.step(fn, d.args[0], n)
                        p = d.extra
                        if c is None:
                            c = loops.step(fn, d.args[1], n)
                            p = {'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle', 'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge',
                                 'uge': 'ule'}.get(p, p)
                        if c is None or d.args[1][0] == 'i' and d.args[1][1] == 0:
                            continue
                        stay = t.extra[0] in [x.name for x in l.body]
                        if not stay:
                            p = {'slt': 'sge', 'sge': 'slt', 'sle': 'sgt', 'sgt': 'sle', 'ult': 'uge', 'uge': 'ult', 'ule': 'ugt',
                                 'ugt': 'ule', 'eq': 'ne', 'ne': 'eq'}[p]
                        # last n: n + c < bound -> bound - 1 - c ; written: + k
                        last = {'lt': -1 - c + k, 'le': -c + k}.get(p[1:] if p not in ('eq', 'ne') else p)
                        if p == 'ne':
                            last = -1 - c + k
                        if last is not None and last != 0:
                            rep.violation('%s:%s:last' % (prog, fn.name), t.loc(), 'the last page is not the number of pages')


def listfn(rep, prog, mod, name, fn, spec):
    need, pp, files, src = spec
    g = Lists(fn)
    Engine(fn, g, 200000).run()
    empty = set()
    for why, z, app, ins, tr, loop in g.exits:
        if z is not True or loop or app:
            continue
        rep.count('ways to list nothing', 1, '%s: %s' % (name, ' '.join(sorted('%s=%s' % x for x in why if x[0] != 'has'))))
        ok = {x[1] for x in why if x[0] == 'no'} & need
        if ok:
            empty |= ok if len(ok) == 1 else set()
            continue
        if pp and (('zero', pp) in why or name.startswith('pagination') and ('nonpos', pp) in why):
            continue
        if any(x[0] in ('no', 'zero', 'nonpos') for x in why):
            rep.violation('%s:%s:disabled' % (prog, name), ins.loc(), 'the rule %s lists no outputs under a condition that does not disable it (%s)' % (
                name, ', '.join(sorted('%s %s' % x for x in why if x[0] in ('no', 'zero', 'nonpos')))), tr)
    if pp:
        for why, z, app, ins, tr, loop in g.exits:
            if loop or app:
                rep.count('ways to list outputs', 1)
                if ('nonzero', pp) not in why:
                    rep.violation('%s:%s:enabled' % (prog, name), ins.loc(), 'the rule %s lists outputs although %s may be 0' % (name, pp), tr)
                    break
    appends = list(fn.calls(APPEND))
    rep.count('outputs appended', len(appends))
    for i in fn.calls(*NAMES):
        toks = tuple(t for t in (token(fn, a) for a in i.args[1:]) if t is not None)
        rep.count('file names examined', 1, '%s: %s' % (name, ' '.join(toks)))
        if files is not None and toks != files and not any('?' in t for t in toks):
            rep.violation('%s:%s:name' % (prog, name), i.loc(), 'the files of the rule %s are named by %s instead of %s' % (
                name, ' '.join(toks), ' '.join(files)))
    for l in loops.loops(fn):
        own = [i for i in appends if loops.inner(fn, i.block)[:1] and loops.inner(fn, i.block)[0] is l]
        if own:
            once(rep, prog, fn, l, 'outputs')
        whole(rep, prog, fn, l, 'outputs')
        cuts(rep, prog, fn, l, 'outputs')
    numbers(rep, prog, fn)
    return empty


def execfn(rep, prog, mod, name, fn, spec, empty):
    need, pp, files, src = spec
    w = Both(fn, ('l', fn.params[1][0]), 'built')
    Engine(fn, w, 400000).run()
    rep.count('outputs stepped over', w.steps)
    rep.count('builds of an output', w.handled)
    if 'skip' in w.bad:
        i, tr = w.bad['skip']
        rep.violation('%s:%s:skip' % (prog, name), i.loc(), 'the rule %s can go on to the next output without building one that is out of date' % name, tr)
    if 'stop' in w.bad:
        i, tr = w.bad['stop']
        rep.violation('%s:%s:stop' % (prog, name), i.loc(), 'the rule %s can succeed without having gone through all of its outputs' % name, tr)
    for ts, ins, tr in w.early:
        why = {x[1] for x in ts if x[0] == 'no'}
        rep.count('ways to build nothing', 1, '%s: %s' % (name, ' '.join(sorted(why))))
        if why and not why & empty:
            rep.violation('%s:%s:guard' % (prog, name), ins.loc(), 'the rule %s builds nothing under a condition under which its outputs are listed (%s)' % (
                name, ', '.join(sorted(why))), tr)
        elif not why and any(x[0] in ('zero', 'nonpos') for x in ts):
            if not (pp and ('zero', pp) in ts):
                rep.violation('%s:%s:guard' % (prog, name), ins.loc(), 'the rule %s builds nothing under a condition under which its outputs are listed' % name, tr)
    if not w.handled:
        rep.violation('%s:%s:nobuild' % (prog, name), (fn.file, 0, fn.name), 'the rule %s never builds its outputs' % name)
    for i in fn.calls(*LOOK):
        k = mod.string(i.args[LOOK[i.callee]])
        k = k.decode().rstrip('\0') if k else ''
        if k.endswith('per_page') and k != pp:
            rep.violation('%s:%s:setting' % (prog, name), i.loc(), 'the rule %s is listed by %s and built by %s' % (name, pp, k))
    for i in fn.calls(*NAMES):
        toks = tuple(t for t in (token(fn, a) for a in i.args[1:]) if t is not None)
        rep.count('file names examined', 1, '%s: %s' % (name, ' '.join(toks)))
        if files is not None and toks != files and not any('?' in t for t in toks):
            rep.violation('%s:%s:name' % (prog, name), i.loc(), 'the rule %s looks for files named by %s, and lists %s' % (name, ' '.join(toks), ' '.join(files)))
    for i in fn.calls('bc_trie_insert'):
        k = mod.string(i.args[1])
        if k and k.rstrip(b'\0') == b'MAKE_RULE':
            v = rawstr(fn, i.args[2])
            rep.count('names passed to blogc', 1, v)
            if v is not None and v != name:
                rep.violation('%s:%s:makerule' % (prog, name), i.loc(), 'the rule %s builds as %s' % (name, v))
    walked = False
    for l in loops.loops(fn):
        ls = loops.lists(l)
        if any(n in w.cur for n in ls):
            walked = True
            whole(rep, prog, fn, l, 'outputs')
            # numbers that go with the outputs
            for n, (a, st) in loops.counters(l).items():
                if None in st or st == {0}:
                    continue
                use = numbered(fn, l, n)
                if not use:
                    continue
                rep.count('counters examined', 1, '%s:%s' % (fn.name, n))
                if st != {1}:
                    rep.violation('%s:%s:count' % (prog, name), l.header.term.loc(), 'the number of an output does not go up by one with every output')
                for kind, k in use:
                    if any(v[0] == 'i' and v[1] + k != (1 if kind == '#' else 0) for v in a):
                        rep.violation('%s:%s:count' % (prog, name), l.header.term.loc(), 'the first output is taken for %s' % (
                            'another page' if kind == '#' else 'another tag'))
            for b in l.body:
                for i in b.instrs:
                    # which tag is built does not depend on the output
                    if i.op == 'call' and i.callee in ('bc_strdup', 'bc_strdup_printf') and i.args:
                        e = fn.defs.get(i.args[-1][1]) if i.args[-1][0] == 'l' else None
                        g = fn.defs.get(e.args[0][1]) if e is not None and e.op == 'load' and e.args[0][0] == 'l' else None
                        if g is not None and g.op == 'getelementptr':
                            c = g.args[1] if len(g.args) == 2 else None
                            g = g.args[0]
                        elif e is not None and e.op == 'load':
                            g, c = e.args[0], ('i', 0)
                        else:
                            continue
                        m = loops.member(fn, g)
                        if m and m[1] == 'tags' and c is not None and c[0] == 'i':
                            rep.violation('%s:%s:count' % (prog, name), i.loc(), 'every output is built for the same tag')
            if src:
                z = [n for n in ls if n not in w.cur]
                for n in z:
                    for v in ls[n][0]:
                        m = loops.member(fn, v)
                        rep.count('sources walked along with the outputs', 1, name)
                        if m and m[1] != src:
                            rep.violation('%s:%s:sources' % (prog, name), l.header.term.loc(), 'the outputs of the rule %s are built from %s' % (name, m[1]))
    rep.count('rules examined', 1, name)


def numbered(fn, loop, n):
    r = {('i', k) for k in subscript(fn, loop, n)}
    for b in loop.body:
        for i in b.instrs:
            if i.op == 'call' and i.callee == 'bc_strdup_printf' and len(i.args) > 1:
                k = loops.step(fn, i.args[1], n)
                if k is not None:
                    r.add(('#', k))
    return r


def rawstr(fn, op):
    for o in lib.origins(fn, op, lib.COPIES):
        x = fn.module.string(o)
        if x is not None:
            return x.decode().rstrip('\0')


class Table(Rule):
    """every entry of the table with a list function is handled. ts: ('of', symbol) ('did',) ('end', symbol)"""

    def __init__(s, mod, fn, loop, g, off, act):
        s.m, s.f, s.loop, s.g, s.off, s.act = mod, fn, loop, g, off, act
        s.bad = None
        s.early = None
        s.rounds = s.acts = 0

    def init(s, fn):
        return frozenset()

    def cell(s, op):
        d = s.f.defs.get(op[1]) if op[0] == 'l' else None
        k = 0
        while d is not None and d.op == 'getelementptr':
            m = ditypes.gepoff(s.m, d.extra, [('i', 0) if a[0] == 'l' else a for a in d.args[1:]])
            if m is None:
                return None
            k += m
            b = d.args[0]
            if b == ('g', s.g):
                return k
            d = s.f.defs.get(b[1]) if b[0] == 'l' else None
        if d is not None and d.op == 'phi' and any(v == ('g', s.g) for v, _ in d.extra):
            return k
        return None

    def field(s, op):
        if op == ('g', s.g):
            return 0
        if op[0] == 'gep' and op[1] == ('g', s.g):
            return 0
        return s.cell(op)

    def loaded(s, ts, ins, cx):
        k = s.field(ins.args[0])
        if k is None:
            return ts
        v = cx.val(('l', ins.res))
        if k == s.off['list']:
            return ts | {('of', v)}
        if k == s.off['name']:
            return frozenset(x for x in ts if x[0] != 'end') | {('end', v)}
        return ts

    def instr(s, ts, ins, cx):
        if ins.op == 'call' and ins.block in s.loop.body and s.act(s, ins, cx):
            s.acts += 1
            return ts | {('did',)}
        return ts

    def edge(s, ts, frm, to, cx):
        if to is s.loop.header:
            if frm in s.loop.body:
                s.rounds += 1
                ok = ('did',) in ts or any(x[0] in ('of', 'out') and cx.null(x[1]) is True for x in ts) or ('none',) in ts
                if not ok and s.bad is None:
                    s.bad = (frm.term, cx.trace())
            return frozenset()
        if any(x[0] == 'of' and cx.null(x[1]) is True for x in ts):
            ts = frozenset(x for x in ts if x[0] != 'of') | {('none',)}
        return ts

    def exit(s, ts, ins, cx):
        if s.f.rettype == 'void':
            return
        if any(x[0] == 'end' and cx.null(x[1]) is True for x in ts):
            return
        z = cx.null(cx.val(ins.args[0]))
        if s.f.rettype != 'ptr' and z is False:
            return
        if s.f.rettype == 'ptr' and z is True:
            return
        if not any(x[0] == 'end' for x in ts):
            return
        if s.early is None:
            s.early = (ins, cx.trace())


def entry(t, op):
    """the table entry an operand points at (offset in the entry), or None"""
    return t.field(op)


def tableloop(rep, prog, mod, fn, g, off, act, what):
    n = 0
    for l in loops.loops(fn):
        t = Table(mod, fn, l, g, off, act)
        if not any(i.op == 'load' and t.field(i.args[0]) == off['name'] for b in l.body for i in b.instrs):
            continue
        if not any(i.op == 'load' and t.field(i.args[0]) == off['list'] for b in l.body for i in b.instrs) and \
                not any(i.op == 'call' and act(t, i, None) for b in l.body for i in b.instrs):
            continue
        Engine(fn, t, 200000).run()
        n += 1
        rep.count('walks of the rule table', 1, '%s (%s)' % (fn.name, what))
        if t.bad:
            rep.violation('%s:%s:rule-skipped' % (prog, fn.name), t.bad[0].loc(), 'a rule with outputs is not %s' % what, t.bad[1])
        if t.early:
            rep.violation('%s:%s:rules-left' % (prog, fn.name), t.early[0].loc(), 'the walk over the rules can end, without a failure, before all were %s' % what, t.early[1])
        for v, (a, st) in loops.counters(l).items():
            if v not in tablesub(fn, l, g):
                continue
            if any(x[0] == 'i' and x[1] != 0 for x in a):
                first = max(x[1] for x in a if x[0] == 'i')
                rows = table(mod)[1]
                if any(r[1] for r in rows[:first]):
                    rep.violation('%s:%s:first' % (prog, fn.name), l.header.term.loc(), 'the first rules are not %s' % what)
            if None not in st and st != {1}:
                rep.violation('%s:%s:step' % (prog, fn.name), l.header.term.loc(), 'rules are stepped over')
    return n


def tablesub(fn, l, g):
    r = set()
    for b in l.body:
        for i in b.instrs:
            if i.op == 'getelementptr' and i.args[0] == ('g', g):
                for a in i.args[1:]:
                    for x in loops.counters(l):
                        if a[0] == 'l' and loops.step(fn, a, x) is not None:
                            r.add(x)
    return r


def analyse(rep, prog, mod, spec=SPEC):
    t = table(mod)
    if t is None:
        raise AnalysisBroken('no rule table')
    g, rows, off = t
    rep.count('rules in the table', len(rows))
    builders = {f for f in mod.fns if any(i.callee in ('bm_exec_blogc', 'bm_exec_native_cp') for i in mod.fns[f].calls())}
    for nm, ls, ex in rows:
        if ls is None:
            if ex in builders:
                rep.violation('%s:%s:unlisted' % (prog, nm), (mod.fns[ex].file, 0, ex), 'the rule %s builds files and lists none' % nm)
            continue
        sp = spec.get(nm)
        if sp is None:
            # a rule that is not in the manual pages of this version: what its two functions have in common
            rep.count('rules without a specification', 1, nm)
            sp = (GUARDS, None, None, None)
        empty = listfn(rep, prog, mod, nm, mod.fns[ls], sp)
        execfn(rep, prog, mod, nm, mod.fns[ex], sp, empty if nm in spec else GUARDS)
    for nm in spec:
        if not any(r[0] == nm and r[1] for r in rows):
            rep.violation('%s:%s:missing' % (prog, nm), ('src/blogc-make/rules.c', 0, ''), 'the documented rule %s does not list its outputs' % nm)

    def executes(t, i, cx):
        return i.callee == 'bm_rule_execute' and t.field(i.args[1]) == 0

    def lists(t, i, cx):
        c = i.extra['fnop']
        d = t.f.defs.get(c[1]) if c[0] == 'l' else None
        return d is not None and d.op == 'load' and t.field(d.args[0]) == off['list']
    # the full build: the rule "all" of the table
    full = [ex for nm, ls, ex in rows if nm == 'all']
    for ex in full:
        n = tableloop(rep, prog, mod, mod.fns[ex], g, off, executes, 'run by the full build')
        if not n:
            rep.count('full build not decided')
    lb = mod.fns.get('bm_rule_list_built_files')
    if lb is not None:
        if not tableloop(rep, prog, mod, lb, g, off, lists, 'asked for its outputs'):
            rep.count('list of built files not decided')
        collected(rep, prog, mod, lb)
    be = mod.fns.get('bm_rule_execute')
    if be is not None:
        execute(rep, prog, be, off)
    for nm, ls, ex in rows:
        f = mod.fns[ex]
        for i in f.calls('bm_rule_list_built_files'):
            w = Walk(f, ('l', i.res), 'removed')
            Engine(f, w, 200000).run()
            if nm != 'clean':
                continue
            rep.count('files considered by clean', w.steps)
            for k, (ins, tr) in w.bad.items():
                rep.violation('%s:clean:%s' % (prog, k), ins.loc(), 'clean can leave a file that exists and is listed', tr)
            for l in loops.loops(f):
                if any(n in w.cur for n in loops.lists(l)):
                    whole(rep, prog, f, l, 'files')
    # sources and slugs one to one
    cn = mod.fns.get('bm_ctx_new')
    if cn is not None:
        for i in cn.instrs():
            if i.op != 'store':
                continue
            m = ditypes.member_at(cn, i.args[1])
            d = cn.defs.get(i.args[0][1]) if i.args[0][0] == 'l' else None
            if m and m[1] in ('posts_fctx', 'pages_fctx') and d is not None and d.op == 'call' and d.callee == APPEND:
                for l in loops.inner(cn, i.block)[:1]:
                    once(rep, prog, cn, l, 'sources')
                    whole(rep, prog, cn, l, 'sources')
                    idx = {loops.member(cn, x.args[0])[1] for b in l.body for x in b.instrs if x.op == 'getelementptr' and
                           len(x.args) == 2 and x.extra == 'ptr' and loops.member(cn, x.args[0])}
                    rep.count('source lists examined', 1, m[1])
                    if idx and m[1][:-5] not in idx:
                        rep.violation('%s:bm_ctx_new:%s' % (prog, m[1]), i.loc(), '%s is made from %s' % (m[1], ', '.join(sorted(idx))))


def collected(rep, prog, mod, fn):
    """every element of what a rule lists is in the result"""
    apps = [i for i in fn.calls(APPEND)]
    joins = [i for i in fn.calls('bc_slist_append_list')]
    rets = [b.term for b in fn.blocks.values() if b.term.op == 'ret']
    ret = set()
    for r in rets:
        ret |= lib.origins(fn, r.args[0], (), geps=False)
    if joins:
        rep.count('list of built files joined as a whole', len(joins))
        return
    if not apps:
        rep.violation('%s:%s:collected' % (prog, fn.name), (fn.file, 0, fn.name), 'the outputs of the rules are not collected')
        return
    for i in apps:
        acc = lib.origins(fn, i.args[0], (), geps=False)
        rep.count('collections of outputs', 1)
        if ('l', i.res) not in ret or ('l', i.res) not in acc:
            rep.violation('%s:%s:lost' % (prog, fn.name), i.loc(), 'outputs that were collected are lost')
        for l in loops.inner(fn, i.block)[:1]:
            once(rep, prog, fn, l, 'outputs of a rule')
            whole(rep, prog, fn, l, 'outputs of a rule')
            cuts(rep, prog, fn, l, 'outputs of a rule')


class Exec(Rule):
    def __init__(s, fn, off):
        s.f, s.off = fn, off
        s.bad = None
        s.n = 0

    def init(s, fn):
        return frozenset()

    def member(s, ins):
        c = ins.extra['fnop']
        d = s.f.defs.get(c[1]) if c[0] == 'l' else None
        if d is not None and d.op == 'load':
            b, o = ditypes.base_off(s.f, d.args[0])
            return b, o
        return None, None

    def loaded(s, ts, ins, cx):
        b, o = ditypes.base_off(s.f, ins.args[0])
        if b == ('l', s.f.params[1][0]) and o == s.off['list']:
            return ts | {('of', cx.val(('l', ins.res)))}
        return ts

    def after(s, ts, ins, cx):
        b, o = s.member(ins)
        if o == s.off['list'] and b == ('l', s.f.params[1][0]) and ins.res:
            return ts | {('out', cx.val(('l', ins.res)))}
        if o == s.off['exec'] and b == ('l', s.f.params[1][0]):
            s.n += 1
            none = any(x[0] == 'of' and cx.null(x[1]) is True for x in ts)
            given = cx.val(ins.args[1])
            if not none and not any(x[0] == 'out' and x[1] == given for x in ts) and s.bad is None:
                s.bad = (ins, cx.trace())
        return ts

    def edge(s, ts, frm, to, cx):
        return ts


def execute(rep, prog, fn, off):
    e = Exec(fn, off)
    Engine(fn, e, 100000).run()
    rep.count('runs of a rule', e.n)
    if e.bad:
        rep.violation('%s:%s:outputs' % (prog, fn.name), e.bad[0].loc(), 'a rule is run without the outputs that it lists', e.bad[1])


def run(rep, tier):
    rep.rule("For each rule of the table: every way of the list function to list nothing is one of the documented conditions of the "
             "rule, it never lists when the rule is disabled, names its files by the documented settings, adds exactly one file in "
             "each round of its loops, starts with the first and does not stop before the last, and numbers pages from 1 to the "
             "number of pages. The build function goes through the same list: an output is left only when it is NULL or the rebuild "
             "decision says so, success means that the end of the list (or of the sources walked along) was reached, it builds "
             "nothing early only under a condition under which nothing is listed, uses the same page setting, passes its own name, "
             "and its counters of tags and pages move with the outputs. A rule that builds lists. The full build runs, and the list "
             "of built files asks, every entry with a list function; clean tries every listed file that exists; a rule is run with "
             "the outputs that it lists; sources are loaded one to one from the settings.")
    rep.assumption('the rebuild decision itself is C25; equal arguments give equal file names; the number of pages is the same when blogc is asked twice')
    for p, mod in lib.progs(['make']):
        analyse(rep, p, mod)
    rep.floor('rules examined', 7)
    rep.floor('outputs stepped over', 15)
    rep.floor('ways to list nothing', 8)
    rep.floor('walks of the rule table', 1)
    rep.floor('runs of a rule', 1)

    def ex(**kw):
        q = lib.Quiet()
        analyse(q, 'x', frontend.snippet(BASE % dict(GOOD, **kw)), {k: SPEC[k] for k in ('tags',)})
        return q.v

    def has(x, v):
        return any(x in k for k in v)
    rep.selftest('clean', ex() == [])
    rep.selftest('condition', has('disabled', ex(lguard='ctx->settings->pages == NULL')) and has('guard', ex(eguard='ctx->settings->pages == NULL')))
    rep.selftest('setting', has('enabled', ex(pp='"posts_sort_per_page"')) and has('setting', ex(epp='"atom_posts_per_page"')))
    rep.selftest('name', has('name', ex(prefix='"post_prefix"')))
    rep.selftest('rounds', has('once', ex(cond='i > 2')) and has('first', ex(first='1')) and has('cut', ex(extra='if (f == NULL) break;')))
    rep.selftest('skip', has('skip', ex(skip='|| !fctx->readable')))
    rep.selftest('stop', has('stop', ex(leave='1')))
    rep.selftest('counter', has('count', ex(inc='')))
    rep.selftest('make rule', has('makerule', ex(rule='index')))
    rep.selftest('full build', has('rule-skipped', ex(all='i > 3 || ')) and has('rules-left', ex(ret='return 0;')))
    rep.selftest('list', has('lost', ex(acc='bc_slist_append(NULL, l->data)')) or has('once', ex(acc='l->next ? rv : bc_slist_append(rv, l->data)')))
    rep.selftest('outputs', has('outputs', ex(given='NULL')))


GOOD = dict(lguard='ctx->settings->tags == NULL', eguard='ctx->settings->tags == NULL', pp='"posts_per_page"', epp='"posts_per_page"',
            prefix='"tag_prefix"', cond='f != NULL || f == NULL', first='0', extra='', skip='', leave='rv != 0', inc=', i++', rule='tags', all='',
            ret='if (rv != 0) return rv;', acc='bc_slist_append(rv, l->data)', given='outputs')
BASE = r"""
#include <stdlib.h>
#include <stdbool.h>
typedef struct _bc_slist_t { struct _bc_slist_t *next; void *data; } bc_slist_t;
typedef struct bc_trie bc_trie_t;
typedef struct { char *path; bool readable; } bm_filectx_t;
typedef struct { void *global; char **posts; char **pages; char **tags; char **copy; } bm_settings_t;
typedef struct { bm_settings_t *settings; char *dir; bc_slist_t *posts_fctx; } bm_ctx_t;
typedef struct { const char *name; const char *help; bc_slist_t *(*l)(bm_ctx_t*); int (*e)(bm_ctx_t*, bc_slist_t*, bc_trie_t*); } bm_rule_t;
bc_slist_t *bc_slist_append(bc_slist_t *l, void *d);
void bc_slist_free(bc_slist_t *l);
char *bc_strdup(const char *s);
bc_trie_t *bc_trie_new(void *f);
void bc_trie_insert(bc_trie_t *t, const char *k, void *d);
const char *bm_ctx_settings_lookup_str(bm_ctx_t *c, const char *k);
char *bm_generate_filename(const char *d, const char *p, const char *f, const char *t, const char *e);
void *bm_filectx_new(bm_ctx_t *c, const char *f, const char *s, void *x);
bool bm_rule_need_rebuild(bc_slist_t *s, void *a, void *b, void *c, bm_filectx_t *o, bool f);
int bm_exec_blogc(bm_ctx_t *c, bc_trie_t *v, bc_trie_t *l, bool li, void *le, void *t, bm_filectx_t *o, bc_slist_t *s, bool f);
int bm_rule_execute(bm_ctx_t *ctx, const bm_rule_t *rule, bc_trie_t *args);
static bc_slist_t *tags_list(bm_ctx_t *ctx)
{
    if (ctx == NULL || ctx->settings->posts == NULL || %(lguard)s) return NULL;
    if (strtol(bm_ctx_settings_lookup_str(ctx, %(pp)s), NULL, 10) == 0) return NULL;
    bc_slist_t *rv = NULL;
    for (size_t i = %(first)s; ctx->settings->tags[i] != NULL; i++) {
        char *f = bm_generate_filename(ctx->dir, bm_ctx_settings_lookup_str(ctx, "blog_prefix"), bm_ctx_settings_lookup_str(ctx, %(prefix)s),
            ctx->settings->tags[i], bm_ctx_settings_lookup_str(ctx, "html_ext"));
        %(extra)s
        if (%(cond)s) rv = bc_slist_append(rv, bm_filectx_new(ctx, f, NULL, NULL));
        free(f);
    }
    return rv;
}
static int tags_exec(bm_ctx_t *ctx, bc_slist_t *outputs, bc_trie_t *args)
{
    if (ctx == NULL || ctx->settings->posts == NULL || %(eguard)s) return 0;
    int rv = 0;
    size_t i = 0;
    bc_trie_t *v = bc_trie_new(free);
    bc_trie_insert(v, "FILTER_PER_PAGE", bc_strdup(bm_ctx_settings_lookup_str(ctx, %(epp)s)));
    bc_trie_insert(v, "MAKE_RULE", bc_strdup("%(rule)s"));
    for (bc_slist_t *l = outputs; l != NULL; l = l->next%(inc)s) {
        bm_filectx_t *fctx = l->data;
        if (fctx == NULL %(skip)s) continue;
        bc_trie_insert(v, "FILTER_TAG", bc_strdup(ctx->settings->tags[i]));
        if (bm_rule_need_rebuild(ctx->posts_fctx, NULL, NULL, NULL, fctx, false)) {
            rv = bm_exec_blogc(ctx, v, NULL, true, NULL, NULL, fctx, ctx->posts_fctx, false);
            if (%(leave)s) break;
        }
    }
    return rv;
}
static int help_exec(bm_ctx_t *ctx, bc_slist_t *outputs, bc_trie_t *args) { return 0; }
static bc_slist_t *other_list(bm_ctx_t *ctx) { return NULL; }
static int all_exec(bm_ctx_t *ctx, bc_slist_t *outputs, bc_trie_t *args);
const bm_rule_t rules[] = {
    {"all", "a", NULL, all_exec},
    {"tags", "b", tags_list, tags_exec},
    {"help", "c", NULL, help_exec},
    {"tags", "d", tags_list, tags_exec},
    {NULL, NULL, NULL, NULL},
};
static int all_exec(bm_ctx_t *ctx, bc_slist_t *outputs, bc_trie_t *args)
{
    for (size_t i = 0; rules[i].name != NULL; i++) {
        if (%(all)s rules[i].l == NULL) continue;
        int rv = bm_rule_execute(ctx, &rules[i], NULL);
        %(ret)s
    }
    return 0;
}
int bm_rule_execute(bm_ctx_t *ctx, const bm_rule_t *rule, bc_trie_t *args)
{
    bc_slist_t *outputs = NULL;
    if (rule->l != NULL) outputs = rule->l(ctx);
    return rule->e(ctx, %(given)s, args);
}
bc_slist_t *bm_rule_list_built_files(bm_ctx_t *ctx)
{
    bc_slist_t *rv = NULL;
    for (size_t i = 0; rules[i].name != NULL; i++) {
        if (rules[i].l == NULL) continue;
        bc_slist_t *o = rules[i].l(ctx);
        for (bc_slist_t *l = o; l != NULL; l = l->next) rv = %(acc)s;
        bc_slist_free(o);
    }
    return rv;
}
"""
