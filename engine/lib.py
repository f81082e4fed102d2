"""Shared queries over the IR."""
import collections
from . import ir, frontend
from .frontend import AnalysisBroken
from .ir import operands, walk

ALL = ('blogc', 'make', 'runserver', 'receiver')


def progs(names=ALL, mode='static', keep=(), inline=()):
    for n in names:
        yield n, ir.load(n, mode, keep, inline)


def own(mod):
    """defined functions of the repository, in a stable order"""
    return [mod.fns[k] for k in sorted(mod.fns)]


# ---- call graph -------------------------------------------------------------------------

def refs(mod, fn):
    """every function (defined or declared) the body mentions: direct callees, callbacks, tables"""
    out = set()
    seen = set()

    def g(name):
        if name in mod.fns or name in mod.decls:
            out.add(name)
        elif name in mod.globals and name not in seen:
            seen.add(name)
            init = mod.globals[name].init
            if init is not None:
                for x in walk(init):
                    if x[0] == 'g':
                        g(x[1])
    for i in fn.instrs():
        ops = list(operands(i))
        if i.op == 'call' and i.extra['name']:
            g(i.extra['name'])
        for a in ops:
            for x in walk(a):
                if x[0] == 'g':
                    g(x[1])
    return out


def callgraph(mod):
    if not hasattr(mod, '_cg'):
        mod._cg = {f: refs(mod, fn) for f, fn in mod.fns.items()}
    return mod._cg


def reachable(mod, roots):
    cg = callgraph(mod)
    seen, par = set(), {}
    work = [r for r in roots]
    seen.update(work)
    while work:
        f = work.pop()
        for c in sorted(cg.get(f, ())):
            if c not in seen:
                seen.add(c)
                par[c] = f
                work.append(c)
    return seen, par


def chain(par, f):
    r = [f]
    while f in par:
        f = par[f]
        r.append(f)
    return r[::-1]


def callers(mod, name):
    for fn in own(mod):
        for i in fn.calls(name):
            yield fn, i


# ---- slices -----------------------------------------------------------------------------

COPIES = {'bc_strdup': 0, 'bc_strndup': 0, 'strdup': 0, 'bc_str_strip': 0, 'bc_str_lstrip': 0, 'bc_str_rstrip': 0}


def origins(fn, op, copies=(), geps=True, seen=None):
    """base operands of a value: through phi, select, casts, pointer arithmetic and the copy functions"""
    if seen is None:
        seen = set()
    if op[0] == 'gep':
        if geps and op[1][0] != 'g':
            return origins(fn, op[1], copies, geps, seen)
        return {op}
    if op[0] == 'cast':
        return origins(fn, op[2], copies, geps, seen)
    if op[0] != 'l':
        return {op}
    if op in seen:
        return set()
    seen.add(op)
    d = fn.defs.get(op[1])
    if d is None:
        return {op}
    if d.op in ('phi',):
        r = set()
        for v, _ in d.extra:
            r |= origins(fn, v, copies, geps, seen)
        return r
    if d.op == 'select':
        return origins(fn, d.args[1], copies, geps, seen) | origins(fn, d.args[2], copies, geps, seen)
    if d.op in ('bitcast', 'inttoptr', 'ptrtoint', 'zext', 'sext', 'trunc', 'freeze'):
        return origins(fn, d.args[0], copies, geps, seen)
    if d.op == 'getelementptr' and geps:
        return origins(fn, d.args[0], copies, geps, seen)
    if d.op == 'call' and d.callee in copies:
        return origins(fn, d.args[copies[d.callee] if isinstance(copies, dict) else 0], copies, geps, seen)
    return {op}


def const_guards(fn, block):
    """constants c such that some value is known to equal c in the block: (operand, c) pairs from
    dominating switch cases and equality branches"""
    r = set()
    for b in fn.blocks.values():
        t = b.term
        if t.op == 'switch':
            bycase = collections.defaultdict(list)
            for v, lab in t.extra['cases']:
                bycase[lab].append(v)
            for lab, vs in bycase.items():
                tb = fn.blocks[lab]
                if len(vs) == 1 and tb.preds == [b] and lab != t.extra['default'] and fn.bdom(tb, block):
                    r.add((t.args[0], vs[0]))
        elif t.op == 'br' and t.args and t.args[0][0] == 'l':
            d = fn.defs.get(t.args[0][1])
            x = d.args if d is not None and d.op == 'icmp' and d.extra in ('eq', 'ne') else None
            if x is not None and x[0][0] in ('i', 'null'):
                x = [x[1], x[0]]
            if x is not None and x[1][0] in ('i', 'null'):
                lab = t.extra[0 if d.extra == 'eq' else 1]
                tb = fn.blocks[lab]
                if tb.preds == [b] and t.extra[0] != t.extra[1] and fn.bdom(tb, block):
                    r.add((x[0], x[1][1] if x[1][0] == 'i' else 0))
    return r


def where(ins):
    return ins.loc()


def fname(ins):
    """the source function an instruction comes from (before inlining)"""
    return ins.loc()[2]


class Quiet:
    """a report that only collects, for the positive examples"""
    def __init__(s):
        s.v, s.counts = [], {}

    def count(s, what, n=1, sample=None):
        s.counts[what] = s.counts.get(what, 0) + n

    def violation(s, key, *a):
        import re
        key = re.sub(r'\s+', '_', key)
        if key not in s.v:
            s.v.append(key)

    def floor(s, *a):
        pass

    rule = assumption = floor


# ---- deletion ---------------------------------------------------------------------------

DELETE = {'unlink': 0, 'rmdir': 0, 'remove': 0, 'unlinkat': 1}
LISTING = {'opendir', 'scandir', 'fdopendir', 'fts_open', 'nftw', 'ftw', 'nftw64', 'ftw64'}


def cyclic(mod):
    """functions on a call cycle"""
    cg = callgraph(mod)
    r = set()
    for f in mod.fns:
        seen, work = set(), [c for c in cg[f] if c in mod.fns]
        while work:
            c = work.pop()
            if c in seen:
                continue
            seen.add(c)
            work.extend(x for x in cg[c] if x in mod.fns)
        if f in seen:
            r.add(f)
    return r


def deleting(mod, name, memo=None):
    cg = callgraph(mod)
    seen, work = set(), [name]
    while work:
        f = work.pop()
        if f in seen:
            continue
        seen.add(f)
        if f in DELETE:
            return True
        work.extend(cg.get(f, ()))
    return False



def recursive_deleters(mod):
    """functions on a call cycle that list and delete"""
    return {f for f in cyclic(mod) if deleting(mod, f) and any(
        i.op == 'call' and (i.callee in DELETE or i.callee in LISTING) for i in mod.fns[f].instrs())}


# ---- automata -----------------------------------------------------------------------------

def mode_phis(fn):
    """integer phis that only ever hold constants (state variables of hand-written automata, flags)"""
    cand = {}
    for i in fn.instrs():
        if i.op in ('phi', 'select') and isinstance(i.type, str) and i.type.startswith('i'):
            cand[i.res] = i
    ch = True
    while ch:
        ch = False
        for r, i in list(cand.items()):
            vs = [v for v, _ in i.extra] if i.op == 'phi' else i.args[1:]
            for v in vs:
                if v[0] == 'i' or v[0] == 'l' and (v[1] in cand):
                    continue
                if v[0] == 'l' and v[1] in fn.defs and fn.defs[v[1]].op in ('zext', 'trunc', 'sext') and \
                        fn.defs[v[1]].args[0][0] == 'l' and fn.defs[v[1]].args[0][1] in cand:
                    continue
                if v[0] in ('undef', 'poison'):
                    continue
                del cand[r]
                ch = True
                break
    return sorted(cand)


def mode_partition(names, cx):
    """partition key that keeps the values of state variables apart"""
    env = cx.st.env
    return tuple((n, env[n][1]) for n in names if n in env and env[n][0] == 'c')
