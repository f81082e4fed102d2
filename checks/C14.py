"""Comparison operators, ifdef/ifndef and variable scope of the templates."""
from engine import frontend, ir, lib, ditypes
from engine.frontend import AnalysisBroken
from engine.paths import Rule, Engine, Sym, TooBig

REL = {'==': '0', '!=': '-+', '<': '-', '>': '+', '<=': '-0', '>=': '0+'}
LIMIT = 60000


def enum(mod, name):
    """value of an enumerator"""
    for r, t in mod.mdtext.items():
        if '"%s"' % name in t:
            d = mod.md_get(r)
            if d and d['kind'] == 'DIEnumerator' and d.get('name', '').strip('"') == name:
                return int(d['value'])
    return None


def cmp_const(fn, ins):
    """(constant text, other operand, length or None) of a string comparison with a literal"""
    if ins.op != 'call' or ins.callee not in ('strcmp', 'strncmp', 'memcmp'):
        return None
    a, b = ins.args[0], ins.args[1]
    n = None
    if ins.callee != 'strcmp':
        if ins.args[2][0] != 'i':
            return None
        n = ins.args[2][1]
    sa, sb = fn.module.string(a), fn.module.string(b)
    if sa is not None and sb is None:
        return sa.decode('latin1'), b, n
    if sb is not None and sa is None:
        return sb.decode('latin1'), a, n
    return None


# ---- the parser: which token gives which operator value -----------------------------------

def leaves(fn, op, blk, seen, out):
    """(constant, block it comes from) that a value may hold"""
    if op[0] == 'i':
        out.append((op[1], blk))
        return
    if op[0] != 'l' or (op, blk) in seen:
        return
    seen.add((op, blk))
    d = fn.defs.get(op[1])
    if d is None:
        return
    if d.op == 'phi':
        for v, pb in d.extra:
            leaves(fn, v, fn.blocks[pb], seen, out)
    elif d.op == 'select':
        for v in d.args[1:]:
            leaves(fn, v, d.block, seen, out)
    elif d.op in ('zext', 'sext', 'trunc'):
        leaves(fn, d.args[0], blk, seen, out)


def tokens(mod, rep, prog):
    """{operator value: token} from the stores to the operator of a template node"""
    table = {}
    bad = []
    for fn in lib.own(mod):
        for i in fn.instrs():
            if i.op != 'store':
                continue
            m = ditypes.member_at(fn, i.args[1])
            if not m or m[1] != 'op' or 'template_node' not in m[0]:
                continue
            out = []
            leaves(fn, i.args[0], i.block, set(), out)
            for c, b in out:
                if c == 0:
                    continue
                g = lib.const_guards(fn, b)
                toks = []
                for v, k in g:
                    d = fn.defs.get(v[1]) if v[0] == 'l' else None
                    cc = cmp_const(fn, d) if d is not None and k == 0 else None
                    if cc and cc[0] in REL:
                        toks.append((cc[0], cc[2], d))
                if len({t[0] for t in toks}) != 1:
                    continue
                t, n, d = toks[0]
                rep.count('operator assignments', 1, '%s -> %d' % (t, c))
                if n is not None and n != len(t):
                    bad.append((d, t, 'only %d of its %d characters are compared' % (n, len(t))))
                elif n is not None and not any(k == len(t) and v != ('l', d.res) for v, k in g) and any(
                        o != t and o.startswith(t) for o in REL):
                    bad.append((d, t, 'its length is not checked, so a longer operator is taken for it'))
                if table.setdefault(t, c) != c:
                    bad.append((d, t, 'it has two operator values'))
    byval = {}
    for t, c in table.items():
        if c in byval:
            bad.append((None, t, 'it has the operator value of %s' % byval[c]))
        byval[c] = t
    for d, t, why in bad:
        rep.violation('%s:token:%s' % (prog, t), d.loc() if d is not None else ('src/blogc/template-parser.c', 0, 'blogc_template_parse'),
                      "operator '%s': %s" % (t, why))
    return table


# ---- the renderer: what each operator value selects ----------------------------------------

def headers(fn):
    """loops: header block -> set of blocks"""
    r = {}
    for b in fn.blocks.values():
        for x in b.succs:
            h = fn.blocks[x] if not hasattr(x, 'name') else x
            if fn.bdom(h, b):
                body = r.setdefault(h, {h})
                work = [b]
                while work:
                    y = work.pop()
                    if y in body:
                        continue
                    body.add(y)
                    work.extend(y.preds)
    return r


def member(fn, addr):
    m = ditypes.member_at(fn, addr)
    return m if m else (None, None, None)


class Names:
    """the parts of the renderer, by what they touch"""

    def __init__(s, mod, fn):
        s.mod, s.fn = mod, fn
        s.types, s.ops, s.nexts, s.datas, s.texts = set(), set(), set(), set(), {}
        for i in fn.instrs():
            if i.op != 'load':
                continue
            st, f, _ = member(fn, i.args[0])
            if st is None:
                # an element of the array of texts
                b, off = ditypes.base_off(fn, i.args[0])
                t = ditypes.typename(mod, ditypes.pointee(mod, ditypes.type_of(fn, b))) if off else None
                if t and 'template_node' in t and i.type == 'ptr':
                    s.texts[i.res] = off
                continue
            if 'template_node' in st:
                if f == 'type':
                    s.types.add(i.res)
                elif f == 'op':
                    s.ops.add(i.res)
                elif i.type == 'ptr':
                    s.texts[i.res] = s.index(i.args[0])
            elif 'slist' in st:
                if f == 'next':
                    s.nexts.add(i.res)
                elif f == 'data':
                    s.datas.add(i.res)
        s.untyped()
        s.loops = headers(fn)
        s.main = None
        if s.ops:
            b = next(fn.defs[x].block for x in sorted(s.ops))
            c = [h for h, body in s.loops.items() if b in body]
            s.main = max(c, key=lambda h: len(s.loops[h]), default=None)
        s.kinds = {k: enum(mod, 'BLOGC_TEMPLATE_NODE_' + k) for k in (
            'IF', 'IFDEF', 'IFNDEF', 'BLOCK', 'ENDBLOCK', 'VARIABLE', 'FOREACH')}

    def untyped(s):
        """accesses to a node through a cast leave no type behind: same list and same offset"""
        fn = s.fn
        s.nodelists = set()
        offs = {}
        for r in s.types | s.ops:
            b, off = ditypes.base_off(fn, fn.defs[r].args[0])
            offs[off] = s.types if r in s.types else s.ops
            for o in lib.origins(fn, b):
                if o[0] == 'l' and o[1] in s.datas:
                    s.nodelists |= lists(fn, fn.defs[o[1]].args[0])
        known = s.types | s.ops | set(s.texts)
        for i in fn.instrs():
            if i.op != 'load' or i.res in known:
                continue
            b, off = ditypes.base_off(fn, i.args[0])
            if off is None:
                continue
            for o in lib.origins(fn, b):
                if o[0] == 'l' and o[1] in s.datas and lists(fn, fn.defs[o[1]].args[0]) & s.nodelists:
                    if i.type == 'i32' and off in offs:
                        offs[off].add(i.res)
                    elif i.type == 'ptr':
                        s.texts[i.res] = off

    def index(s, addr):
        b, off = ditypes.base_off(s.fn, addr)
        return off

    def operand(s, op, seen=None):
        """offsets of the node texts a value was computed from"""
        r = set()
        for o in lib.origins(s.fn, op, lib.COPIES):
            if o[0] != 'l':
                continue
            if o[1] in s.texts:
                r.add(s.texts[o[1]])
                continue
            d = s.fn.defs.get(o[1])
            if d is not None and d.op == 'call' and d.callee == 'blogc_format_variable':
                r |= s.operand(d.args[0])
        return r


def exact(cx, v):
    if v is None:
        return None
    r = cx.rng(v)
    return r[0] if r[0] == r[1] else None


class Outcome(Rule):
    """ts: (phase, type symbol, texts order, sign, defined results, next loads)"""

    def __init__(s, n, value, found):
        s.n, s.value, s.found = n, value, found
        s.modes = [m for m in lib.mode_phis(n.fn)]

    def init(s, fn):
        return ('idle', None, None, frozenset(), 0)

    def partition(s, cx):
        if s.value and cx.st.ts[0] != 'cond':
            return None
        return lib.mode_partition(s.modes, cx), exact(cx, cx.st.ts[1])

    def assume(s, ins, cx):
        if ins.res in s.n.ops:
            return [('eq', s.value)]
        if ins.op == 'and' and len(ins.args) == 2:
            a, b = cx.val(ins.args[0]), cx.val(ins.args[1])
            ra, rb = cx.rng(a), cx.rng(b)
            if ra[0] == ra[1] and rb[0] == rb[1]:
                return [('eq', int(ra[0]) & int(rb[0]))]
        return ()

    def instr(s, ts, ins, cx):
        return ts

    def loaded(s, ts, ins, cx):
        ph, ty, sign, res, nx = ts
        if ins.res in s.n.ops and ph == 'idle':
            return ('cond', ty, None, res, 0)
        if ins.res in s.n.types and ph == 'idle':
            v = cx.val(('l', ins.res))
            return (ph, v, None, frozenset(), 0)
        if ins.res in s.n.nexts and ph == 'cond' and s.n.fn.defs[ins.res].block in s.n.loops[s.n.main]:
            return (ph, ty, sign, res, min(nx + 1, 2)) if s.isnode(ins) else ts
        return ts

    def isnode(s, ins):
        # the list that is walked is the one whose data has a node type (not sources or items)
        return bool(lists(s.n.fn, ins.args[0]) & s.n.nodelists)

    def after(s, ts, ins, cx):
        ph, ty, sign, res, nx = ts
        if ph == 'off' or ins.res is None:
            return ts
        v = cx.val(('l', ins.res))
        if ins.callee == 'blogc_format_variable':
            if nx:
                return ts
            return [([(v, 'eq', 0)], (ph, ty, sign, res | {(tuple(sorted(s.n.operand(ins.args[0]))), 'no')}, nx)),
                    ([(v, 'ne', 0)], (ph, ty, sign, res | {(tuple(sorted(s.n.operand(ins.args[0]))), 'yes')}, nx))]
        if ins.callee in lib.COPIES and ph == 'cond' and not nx:
            o = tuple(sorted(s.n.operand(ins.args[0])))
            if o and cx.null(cx.val(ins.args[0])) is False:
                return [([(v, 'ne', 0)], (ph, ty, sign, res | {(o, 'yes')}, nx))]
        if ins.callee in ('strcmp', 'strcoll') and ph == 'cond' and cmp_const(s.n.fn, ins) is None and nx == 0:
            a, b = s.n.operand(ins.args[0]), s.n.operand(ins.args[1])
            if len(a) == len(b) == 1 and a != b:
                flip = min(a) > min(b)
                return [([(v, p, 0)], (ph, ty, g, res, nx)) for p, g in (
                    ('slt', '+' if flip else '-'), ('eq', '0'), ('sgt', '-' if flip else '+'))]
        return ts

    def edge(s, ts, frm, to, cx):
        ph, ty, sign, res, nx = ts
        if to is s.n.main:
            if ph == 'cond':
                k = None
                if ty is not None:
                    r = cx.rng(ty)
                    k = [n for n in ('IF', 'IFDEF', 'IFNDEF') if r[0] <= s.n.kinds[n] <= r[1] and s.n.kinds[n] not in r[2]]
                s.found.append((tuple(k or ()), sign, res, nx, cx.trace()))
            return ('idle', None, None, frozenset(), 0)
        return ts


def lists(fn, op, seen=None):
    """the parameters and constants a list cursor starts from: through next loads"""
    seen = set() if seen is None else seen
    r = set()
    for o in lib.origins(fn, op, geps=True):
        if o in seen:
            continue
        seen.add(o)
        d = fn.defs.get(o[1]) if o[0] == 'l' else None
        if d is not None and d.op == 'load':
            st, f, _ = member(fn, d.args[0])
            if st and 'slist' in st and f == 'next':
                r |= lists(fn, d.args[0], seen)
                continue
        r.add(o)
    return {o for o in r if o[0] != 'null'}


def outcomes(n, value):
    found = []
    Engine(n.fn, Outcome(n, value, found), LIMIT).run()
    return found


def evaluation(rep, prog, mod, fn, table):
    n = Names(mod, fn)
    if n.main is None or None in n.kinds.values():
        return None
    where = None
    for r in n.ops:
        where = n.fn.defs[r].loc()
    for t, v in sorted(table.items()):
        for kinds, sign, res, nx, tr in outcomes(n, v):
            sel = nx == 1
            missing = any(x == 'no' for _, x in res)
            rep.count('outcomes of comparisons', 1)
            if missing:
                if sel:
                    rep.violation('%s:eval:%s:undefined' % (prog, t), where,
                                  "the content of '%s' is selected although an operand is not defined" % t, tr)
                continue
            if sign is None:
                if len({o for o, x in res if x == 'yes'}) >= 2:
                    rep.violation('%s:eval:%s:not-compared' % (prog, t), where,
                                  "the operands of '%s' are both defined, but not compared" % t, tr)
                continue
            want = sign in REL[t]
            if sel != want:
                rep.violation('%s:eval:%s:%s' % (prog, t, sign), where,
                              "'%s': the content is %s when the first operand is %s the second" % (
                                  t, 'selected' if sel else 'skipped',
                                  {'-': 'less than', '0': 'equal to', '+': 'greater than'}[sign]), tr)
    for kinds, sign, res, nx, tr in outcomes(n, 0):
        sel = nx == 1
        if not kinds or 'IF' in kinds and len(kinds) == 1:
            continue
        kinds = [k for k in kinds if k != 'IF']
        d = {x for _, x in res}
        defined = d == {'yes'}
        for k in kinds:
            rep.count('outcomes of %s' % k.lower(), 1)
            want = defined if k == 'IFDEF' else not defined
            if sel != want:
                rep.violation('%s:eval:%s:%s' % (prog, k.lower(), 'defined' if defined else 'undefined'), where,
                              "%s: the content is %s when the variable is %s" % (
                                  k.lower(), 'selected' if sel else 'skipped', 'defined' if defined else 'not defined'), tr)
    return n


# ---- skipping ---------------------------------------------------------------------------------

OPENING = ('IF', 'IFDEF', 'IFNDEF')


class Skip(Rule):
    """content that is not selected ends at its own else or endif, whatever is nested in it
    ts: (phase, mode, depth, kind); phase 'idle' | 'node' | 'free' | 'skip' | 'moved'
    Every kind of node is tried at the first look at the type of each node."""

    FOLD = 8

    def __init__(s, n, rep, prog):
        s.n, s.rep, s.prog = n, rep, prog
        s.modes = lib.mode_phis(n.fn)
        s.kinds = {k: enum(n.mod, 'BLOGC_TEMPLATE_NODE_' + k) for k in OPENING + ('ELSE', 'ENDIF', 'VARIABLE')}
        s.kinds = {k: v for k, v in s.kinds.items() if v is not None}
        s.skipped = set()

    def init(s, fn):
        return ('idle', None, 0, None)

    def partition(s, cx):
        return lib.mode_partition(s.modes, cx)

    def ends(s, mode, depth, kind):
        return depth == 0 and (kind == 'ENDIF' or kind == 'ELSE' and mode == 'if')

    def instr(s, ts, ins, cx):
        if ins.res not in s.n.types:
            return ts
        ph, mode, depth, kind = ts
        if ph == 'idle':
            return [('node', None, 0, k) for k in s.kinds]
        if ph == 'moved':
            s.decide(ts, False, ins, cx)
            depth += (kind in OPENING) - (kind == 'ENDIF')
            if s.ends(mode, depth - (kind in OPENING) + (kind == 'ENDIF'), kind):
                return ('free', None, 0, None)
            ph, kind = 'skip', None
        if ph == 'skip' and kind is None:
            # one else for each conditional
            return [('skip', mode, depth, k) for k in s.kinds
                    if not (k == 'ELSE' and depth == 0 and mode == 'else') and not (k in OPENING and depth == 2)]
        return ts

    def assume(s, ins, cx):
        if ins.res in s.n.types:
            ph, mode, depth, kind = cx.st.ts
            if kind is not None and ph in ('node', 'skip'):
                return [('eq', s.kinds[kind])]
        return ()

    def loaded(s, ts, ins, cx):
        if ins.res not in s.n.nexts or not lists(s.n.fn, ins.args[0]) & s.n.nodelists:
            return ts
        ph, mode, depth, kind = ts
        if ph == 'node':
            if kind in OPENING:
                return ('skip', 'if', 0, None)
            return ('skip', 'else', 0, None) if kind == 'ELSE' else ('free', None, 0, None)
        if ph == 'skip' and kind is not None:
            return ('moved', mode, depth, kind)
        return ts

    def decide(s, ts, stop, ins, cx):
        ph, mode, depth, kind = ts
        s.rep.count('nodes met while skipping', 1, '%s:%d:%s:%s' % (mode, depth, kind, stop))
        if stop == s.ends(mode, depth, kind):
            return
        s.rep.violation('%s:skip:%s:%s:%s' % (s.prog, mode, kind.lower(), 'early' if stop else 'late'), ins.loc(),
                        'while content is skipped after %s, %s of %s %s' % (
                            'a condition that does not hold' if mode == 'if' else 'the else of a condition that holds',
                            {'ELSE': 'the else', 'ENDIF': 'the endif'}.get(kind, 'a statement'),
                            'a nested conditional' if depth else 'the conditional itself',
                            'ends the skipping' if stop else 'does not end the skipping'), cx.trace())

    def edge(s, ts, frm, to, cx):
        if to is s.n.main:
            if ts[0] == 'moved' or ts[0] == 'skip' and ts[3] is not None:
                s.decide(ts, True, frm.term, cx)
            return ('idle', None, 0, None)
        return ts


# ---- scope -----------------------------------------------------------------------------------

OWN = {'entry': 'sources', 'listing': 'sources', 'listing_entry': 'listing_entries'}
LOCAL = {'blogc_format_variable': 2, 'blogc_split_list_variable': 2, 'blogc_get_variable': 2, 'blogc_format_date': 2}


class Scope(Rule):
    """ts: (where, kind, excluded kinds, source symbol)
    where: 'out' before any block or after an endblock, 'skip' after a skipped block, 'in' inside a block"""

    def __init__(s, n, rep, prog):
        s.n, s.rep, s.prog = n, rep, prog
        s.fn = n.fn
        s.modes = lib.mode_phis(n.fn)
        s.params = [('l', p) for p, t in n.fn.params]
        s.flags = [('l', p) for p, t in n.fn.params if t == 'i1']
        s.lists = {}
        s.inloop = n.loops[n.main]

    def init(s, fn):
        return ('out', None, frozenset(), None, None)

    def partition(s, cx):
        ty = cx.st.ts[4]
        return lib.mode_partition(s.modes, cx), tuple(cx.null(cx.val(p)) for p in s.flags), exact(cx, ty[1] if ty else None)

    def loaded(s, ts, ins, cx):
        w, kind, exc, src, ty = ts
        if ins.res in s.n.types:
            return (w, kind, exc, src, (ty is None, cx.val(('l', ins.res))))
        if ins.res in s.n.datas and w == 'new':
            l = s.lists.get(ins.res)
            if l is None:
                l = s.lists[ins.res] = lists(s.fn, ins.args[0])
            if len(l) == 1 and next(iter(l)) in s.params:
                v = cx.val(('l', ins.res))
                return (w, kind, exc, (s.params.index(next(iter(l))), v), ty)
        return ts

    def after(s, ts, ins, cx):
        w, kind, exc, src, ty = ts
        if ins.callee == 'bc_slist_length' and ins.args[0] in s.params:
            v, a = cx.val(('l', ins.res)), cx.val(ins.args[0])
            return [([(v, p, 0), (a, p, 0)], ts) for p in ('eq', 'ne')]
        cc = cmp_const(s.fn, ins)
        if cc is not None and w == 'new' and s.n.operand(cc[1]) and cc[2] is None:
            v = cx.val(('l', ins.res))
            t = cc[0]
            if kind is not None:
                return [([(v, 'eq' if kind == t else 'ne', 0)], ts)]
            if t in exc:
                return [([(v, 'ne', 0)], ts)]
            return [([(v, 'eq', 0)], (w, t, exc, src, ty)), ([(v, 'ne', 0)], (w, kind, exc | {t}, src, ty))]
        return ts

    def kindof(s, ty, cx):
        r = cx.rng(ty[1]) if ty is not None else None
        return r[0] if r is not None and r[0] == r[1] else None

    def instr(s, ts, ins, cx):
        if ins.op != 'call' or ins.callee not in LOCAL or ins.block not in s.inloop:
            return ts
        w, kind, exc, src, ty = ts
        k = LOCAL[ins.callee]
        if k >= len(ins.args):
            return ts
        a = cx.val(ins.args[k])
        s.rep.count('lookups checked', 1, '%s:%s in %s%s' % (ins.callee, ins.line, w, ' ' + kind if kind else ''))
        if cx.null(a) is True:
            if w == 'in' and kind in OWN and src is not None and cx.null(src[1]) is not True:
                s.rep.violation('%s:scope:hidden:%s:%s' % (s.prog, kind, ins.callee), ins.loc(),
                                "the variables of the source are not visible in its '%s' block" % kind, cx.trace())
            return ts
        if w == 'in':
            if kind not in OWN:
                if kind is not None:
                    s.rep.violation('%s:scope:%s:%s' % (s.prog, kind, ins.callee), ins.loc(),
                                    "the variables of a source are visible inside a '%s' block" % kind, cx.trace())
                return ts
            if src is None or a != src[1]:
                s.rep.violation('%s:scope:stale:%s:%s' % (s.prog, kind, ins.callee), ins.loc(),
                                "inside a '%s' block the variables do not come from the source of this block" % kind, cx.trace())
                return ts
            p = s.fn.params[src[0]][0]
            if src[0] != {'sources': 1, 'listing_entries': 2}[OWN[kind]]:
                s.rep.violation('%s:scope:list:%s:%s' % (s.prog, kind, ins.callee), ins.loc(),
                                "the source of a '%s' block is taken from the list '%s'" % (kind, p), cx.trace())
            return ts
        lst = [p for p, t in s.fn.params if t == 'i1']
        mode = ''
        if lst:
            z = cx.null(cx.val(('l', lst[0])))
            mode = ':listing' if z is False else ':entry' if z is True else ''
        s.rep.violation('%s:scope:%s:%s%s' % (s.prog, 'after-skipped-block' if w == 'skip' else 'outside', ins.callee, mode),
                        ins.loc(), 'the variables of a source are visible outside of the blocks%s' % (
                            ', after a block that was skipped' if w == 'skip' else ''), cx.trace())
        return ts

    def edge(s, ts, frm, to, cx):
        w, kind, exc, src, ty = ts
        k = s.kindof(ty, cx)
        if w == 'new':
            # what is known about the lists and the mode while the block is judged
            exc = exc | {(p, z) for p in s.params for z in [cx.null(cx.val(p))] if z is not None}
            ts = (w, kind, exc, src, ty)
        if to is s.n.main and w == 'new':
            s.included(k != s.n.kinds['ENDBLOCK'], kind, exc, src, cx)
        if k == s.n.kinds['BLOCK'] and w != 'new' and ty[0]:
            return ('new', None, frozenset(), None, ty)
        if to is s.n.main:
            if k == s.n.kinds['ENDBLOCK']:
                return ('skip' if w == 'new' else 'out', None, frozenset(), None, None)
            if w == 'new':
                return ('in', kind, frozenset(), src, None)
            return (w, kind, exc, src, None)
        return ts


    def included(s, yes, kind, exc, src, cx):
        if kind is None or not s.flags:
            return
        listing = None
        if (s.flags[0], True) in exc:
            listing = False
        elif (s.flags[0], False) in exc:
            listing = True
        empty = True if (s.params[1], True) in exc else False if (s.params[1], False) in exc else None
        s.rep.count('blocks judged', 1, '%s %s' % (kind, 'in' if yes else 'skip'))
        if kind == 'entry':
            ok = listing is (not yes)
        elif kind == 'listing_once':
            ok = listing is yes
        elif kind == 'listing':
            ok = listing is True and empty is False if yes else listing is False or empty is True
        elif kind == 'listing_empty':
            ok = listing is True and empty is True if yes else listing is False or empty is False
        elif kind == 'listing_entry':
            has = src is not None and cx.null(src[1]) is not True
            ok = listing is True and has if yes else listing is False or not has or cx.null(src[1]) is None
        else:
            return
        if not ok:
            s.rep.violation('%s:block:%s:%s' % (s.prog, kind, 'included' if yes else 'skipped'), s.n.main.instrs[0].loc(),
                            "a '%s' block may be %s %s" % (kind, 'included' if yes else 'skipped', {
                                (None, None): 'in any mode', (True, None): 'when listing', (False, None): 'when rendering an entry'}.get(
                                (listing, None)) + ('' if empty is None else ' without sources' if empty else ' with sources')), cx.trace())


def scope(rep, prog, n):
    Engine(n.fn, Scope(n, rep, prog), LIMIT).run()


# ---- lookup order --------------------------------------------------------------------------

class Lookup(Rule):
    """exit: the local value when there is one, else the global one"""

    def __init__(s, rep, prog, fn, g, l):
        s.rep, s.prog, s.fn, s.g, s.l = rep, prog, fn, g, l

    def init(s, fn):
        return (None, None, frozenset())

    def edge(s, ts, frm, to, cx):
        return ts[:2] + (ts[2] | {p for p in (s.g, s.l) if cx.null(cx.val(('l', p))) is True},)

    def after(s, ts, ins, cx):
        if ins.callee == 'bc_trie_lookup':
            a = cx.val(ins.args[0])
            r = cx.val(('l', ins.res))
            if a == cx.val(('l', s.l)):
                return (ts[0], r, ts[2])
            if a == cx.val(('l', s.g)):
                return (r,) + ts[1:]
        return ts

    def exit(s, ts, ins, cx):
        if ins.op != 'ret' or not ins.args:
            return
        g, l, none = ts
        v = cx.val(ins.args[0])
        s.rep.count('ways out of the lookup', 1)

        def absent(trie, res):
            return trie in none or res is not None and (cx.null(res) is True)
        if l is not None and v == l:
            if cx.null(v) is False or absent(s.g, g) or g == v:
                return
            why = 'a variable that is not in the source is not looked up globally'
        elif g is not None and v == g:
            if absent(s.l, l):
                return
            why = 'the global value is returned although the source may define the variable'
        elif cx.null(v) is True:
            if absent(s.l, l) and absent(s.g, g):
                return
            why = 'nothing is returned although the variable may be defined'
        else:
            return
        s.rep.violation('%s:lookup:%s' % (s.prog, s.fn.name), ins.loc(), why, cx.trace())


def roles(rep, prog, mod):
    """the global and the local argument keep their places through every caller"""
    role = {('blogc_render', 3): 'global'}
    for f in LOCAL:
        role[(f, 1)] = 'global'
        role[(f, 2)] = 'local'
    role = {k: r for k, r in role.items() if k[0] in mod.fns and k[1] < len(mod.fns[k[0]].params)}
    ch = True
    seen = set()
    while ch:
        ch = False
        for fn in lib.own(mod):
            ps = {('l', p): k for k, (p, t) in enumerate(fn.params)}
            for i in fn.instrs():
                if i.op != 'call' or i.callee is None:
                    continue
                here = {}
                for k, a in enumerate(i.args):
                    r = role.get((i.callee, k))
                    if r is None:
                        continue
                    if (fn.name, i) not in seen:
                        rep.count('arguments with a role', 1)
                    for o in lib.origins(fn, a):
                        if o[0] == 'null':
                            continue
                        if here.setdefault(o, r) != r:
                            rep.violation('%s:roles:same:%s' % (prog, fn.name), i.loc(),
                                          'the same variables are passed as global and as local')
                        if o in ps:
                            q = (fn.name, ps[o])
                            if q not in role:
                                role[q] = r
                                ch = True
                            elif role[q] != r:
                                rep.violation('%s:roles:%s:%s' % (prog, fn.name, fn.params[ps[o]][0]), i.loc(),
                                              "'%s' is used as %s variables here, and as %s variables elsewhere" % (
                                                  fn.params[ps[o]][0], r, role[q]))
                seen.add((fn.name, i))
    return role


def analyse(rep, prog, mod, skipping=None):
    table = tokens(mod, rep, prog)
    role = roles(rep, prog, mod)
    for fn in lib.own(mod):
        g = [k for (f, k), r in role.items() if f == fn.name and r == 'global']
        l = [k for (f, k), r in role.items() if f == fn.name and r == 'local']
        if fn.name == 'blogc_get_variable' and len(fn.params) >= 3:
            Engine(fn, Lookup(rep, prog, fn, fn.params[1][0], fn.params[2][0]), LIMIT).run()
        if fn.name == 'blogc_render':
            n = Names(mod, fn) if skipping else evaluation(rep, prog, mod, fn, table)
            if n is not None and not skipping:
                scope(rep, prog, n)
            if n is not None and skipping is not False:
                Engine(fn, Skip(n, rep, prog), LIMIT).run()
    return table


BASE = r"""#include <stdlib.h>
#include <string.h>
#include <stdbool.h>
typedef struct _bc_slist_t { struct _bc_slist_t *next; void *data; } bc_slist_t;
typedef struct _bc_trie_t { int n; } bc_trie_t;
typedef enum { BLOGC_TEMPLATE_NODE_IFDEF = 1, BLOGC_TEMPLATE_NODE_IFNDEF, BLOGC_TEMPLATE_NODE_IF, BLOGC_TEMPLATE_NODE_ENDIF,
  BLOGC_TEMPLATE_NODE_FOREACH, BLOGC_TEMPLATE_NODE_BLOCK, BLOGC_TEMPLATE_NODE_ENDBLOCK, BLOGC_TEMPLATE_NODE_VARIABLE,
  BLOGC_TEMPLATE_NODE_ELSE } node_type_t;
typedef struct { node_type_t type; int op; char *data[2]; } blogc_template_node_t;
void* bc_trie_lookup(bc_trie_t *t, const char *k);
char* bc_strdup(const char *s);
void bc_string_append(void *s, const char *v);
const char* blogc_get_variable(const char *name, bc_trie_t *global, bc_trie_t *local){
  const char *r = NULL; %(look)s return r; }
char* blogc_format_variable(const char *name, bc_trie_t *global, bc_trie_t *local, const char *f, bc_slist_t *v){
  return bc_strdup(blogc_get_variable(name, %(roles)s)); }
bc_slist_t* blogc_template_parse(const char *s, size_t n, void **e){
  blogc_template_node_t *t = malloc(sizeof(*t)); bc_slist_t *l = malloc(sizeof(*l)); int op = 0;
  if (n == 1) { if (0 == strncmp("<", s, 1)) op = 4; else if (0 == strncmp(">", s, 1)) op = 8; }
  else if (n == 2) { if (0 == strncmp("<=", s, 2)) op = %(le)s; else if (0 == strncmp(">=", s, 2)) op = 10; else if (0 == strncmp("==", s, 2)) op = 2;
    else if (0 == strncmp("!=", s, 2)) op = 1; }
  t->type = BLOGC_TEMPLATE_NODE_IF; t->op = op; l->data = t; return l; }
static bc_slist_t* skip(bc_slist_t *l){ size_t n = 1; do { l = l->next; switch (((blogc_template_node_t*) l->data)->type) {
  case BLOGC_TEMPLATE_NODE_IF: case BLOGC_TEMPLATE_NODE_IFDEF: case BLOGC_TEMPLATE_NODE_IFNDEF: n++; break;
  case BLOGC_TEMPLATE_NODE_ENDIF: n--; break; default: break; } } while (n > %(zero)s); return l; }
char* blogc_render(bc_slist_t *tmpl, bc_slist_t *sources, bc_slist_t *listing_entries, bc_trie_t *config, bool listing){
  bc_slist_t *tmp = tmpl; bool inside = false, yes = false, not = false; bc_trie_t *src = NULL; char *a, *b; void *str = NULL;
  while (tmp != NULL) { blogc_template_node_t *node = tmp->data;
    switch (node->type) {
    case BLOGC_TEMPLATE_NODE_BLOCK:
      inside = true; src = NULL;
      if (0 == strcmp("entry", node->data[0])) { if (%(mode)s) { while (node->type != BLOGC_TEMPLATE_NODE_ENDBLOCK) { tmp = tmp->next; node = tmp->data; } %(skip)s break; }
        src = %(list)s->data; }
      %(once)s
      break;
    case BLOGC_TEMPLATE_NODE_ENDBLOCK: %(end)s break;
    case BLOGC_TEMPLATE_NODE_VARIABLE: bc_string_append(str, blogc_format_variable(node->data[0], config, inside ? src : NULL, NULL, NULL)); break;
    case BLOGC_TEMPLATE_NODE_IFNDEF: not = true;
    case BLOGC_TEMPLATE_NODE_IF:
    case BLOGC_TEMPLATE_NODE_IFDEF:
      a = blogc_format_variable(node->data[0], config, inside ? src : NULL, NULL, NULL); yes = false;
      if (node->op != 0) { b = blogc_format_variable(node->data[1], config, inside ? src : NULL, NULL, NULL);
        if (%(both)s) { int c = strcmp(%(args)s);
          if (c != 0 && node->op & 1) yes = true; else if (c == 0 && node->op & 2) yes = true;
          else if (c %(lt)s 0 && node->op & 4) yes = true; else if (c > 0 && node->op & 8) yes = true; } }
      else yes = not ? a == NULL : a != NULL;
      %(reset)s
      if (!yes) { size_t n = 0; while (1) { tmp = tmp->next; node = tmp->data;
        if (node->type == BLOGC_TEMPLATE_NODE_IF || %(ndef)s node->type == BLOGC_TEMPLATE_NODE_IFDEF) n++;
        else if (node->type == BLOGC_TEMPLATE_NODE_ELSE %(else_)s) break;
        else if (node->type == BLOGC_TEMPLATE_NODE_ENDIF) { if (n == 0) break; n--; } } }
      break;
    case BLOGC_TEMPLATE_NODE_ELSE: tmp = skip(tmp%(one)s); break;
    default: break; }
    tmp = tmp->next; }
  return NULL; }
int main(int argc, char **argv){ blogc_render(blogc_template_parse(argv[1], argc, NULL), NULL, NULL, NULL, argc == 3); return 0; }"""
GOOD = dict(mode="listing", look='if (local != NULL) { r = bc_trie_lookup(local, name); if (r != NULL) return r; } if (global != NULL) r = bc_trie_lookup(global, name);',
            roles='global, local', le='6', skip='inside = false;', list='sources', once='', end='inside = false;',
            both='a != NULL && b != NULL', args='a, b', lt='<', reset='not = false;',
            ndef='node->type == BLOGC_TEMPLATE_NODE_IFNDEF ||', else_='&& n == 0', one='', zero='0')


def run(rep, tier):
    rep.rule("Operators: the value that the parser stores for each operator token is found from the comparisons that dominate the "
             "store; the renderer is interpreted for each of these values and each sign of the comparison of the two operands, and "
             "the content must be selected exactly when the relation of the token holds (operands told apart by the node text they "
             "come from), and skipped when an operand is not defined. ifdef and ifndef: selected exactly when the variable is "
             "defined, or is not, whatever the previous statements were. Scope: at every lookup of the renderer the local variables "
             "are NULL outside of the blocks, and inside a block the element of the list that the block belongs to, fetched for this "
             "block. Lookup: the local value wins, the global one is used only without it, and the two arguments keep their places "
             "through all callers. Skipping: every kind of node is tried at every step of the loops that skip content that is not selected; "
             "they stop exactly at the endif or else of the conditional they started with, to a nesting of two.")
    rep.assumption('the nodes of a template are balanced as the parser guarantees (C13); the name of a block is one of the five the parser accepts')
    for p, mod in lib.progs(['blogc']):
        t = analyse(rep, p, mod)
        rep.count('operators with a value', len(t))
    rep.floor('ways out of the lookup', 2)
    rep.floor('arguments with a role', 8)
    rep.floor('lookups checked', 10)
    rep.floor('outcomes of comparisons', 10)
    rep.floor('outcomes of ifdef', 2)
    rep.floor('outcomes of ifndef', 2)

    def ex(**kw):
        q = lib.Quiet()
        analyse(q, 'x', frontend.snippet(BASE % dict(GOOD, **kw)), any(k in kw for k in ('ndef', 'else_', 'one', 'zero')) if kw else None)
        return q.v

    def has(x, v):
        return any(x in k for k in v)
    rep.selftest('clean', ex() == [])
    rep.selftest('operator value', has('eval:<=', ex(le='4')) and has('token', ex(le='4')))
    rep.selftest('comparison', has('eval:<:0', ex(lt='<=')))
    rep.selftest('operands swapped', has('eval:<', ex(args='b, a')))
    rep.selftest('undefined operand', has('undefined', ex(both='a != NULL || b != NULL')) or has('eval', ex(both='a != NULL || b != NULL')))
    rep.selftest('carried over', has('eval:ifdef', ex(reset='')))
    rep.selftest('outside', has('scope:outside', ex(end='')))
    rep.selftest('skipped', ex(skip='') == [] and has('scope:after-skipped-block', ex(skip='src = bc_trie_lookup(config, "x");')))
    rep.selftest('mode', has('block:entry', ex(mode='sources == NULL')))
    rep.selftest('other list', has('scope:list', ex(list='listing_entries')))
    rep.selftest('other block', has('scope:listing_once', ex(once='if (0 == strcmp("listing_once", node->data[0])) src = sources->data;')))
    rep.selftest('lookup', has('lookup', ex(look='if (global != NULL) r = bc_trie_lookup(global, name); if (r == NULL && local != NULL) r = bc_trie_lookup(local, name);')))
    rep.selftest('nested else', has('skip:if:else:early', ex(else_='')) and has('skip:if:else:late', ex(else_='&& n == 1')))
    rep.selftest('nested ifndef', has('skip:if:endif:early', ex(ndef='')))
    rep.selftest('else too short', has('skip:else:endif', ex(zero='1')))
    rep.selftest('roles', has('roles', ex(roles='local, global')) or has('scope', ex(roles='local, global')))
