"""Natural loops, induction variables and list cursors."""
from . import ditypes


class Loop:
    def __init__(s, fn, header):
        s.fn, s.header = fn, header
        s.latches, s.body = [], {header}

    def __repr__(s):
        return '<loop %s %s>' % (s.fn.name, s.header.name)


def loops(fn):
    if hasattr(fn, '_loops'):
        return fn._loops
    by = {}
    for b in fn.blocks.values():
        for t in b.succs or succs(fn, b):
            if fn.bdom(t, b):
                l = by.setdefault(t, Loop(fn, t))
                if b not in l.latches:
                    l.latches.append(b)
                work = [b]
                while work:
                    x = work.pop()
                    if x not in l.body:
                        l.body.add(x)
                        work.extend(x.preds)
    fn._loops = list(by.values())
    return fn._loops


def succs(fn, b):
    t = b.term
    if t.op == 'br':
        return [fn.blocks[x] for x in dict.fromkeys(t.extra)]
    if t.op == 'switch':
        return [fn.blocks[x] for x in dict.fromkeys([lab for _, lab in t.extra['cases']] + [t.extra['default']])]
    return []


def inner(fn, block):
    """loops around a block, innermost first"""
    return sorted((l for l in loops(fn) if block in l.body), key=lambda l: len(l.body))


def split(loop, phi):
    """(values from outside, values from the latches) of a header phi"""
    names = {b.name for b in loop.body}
    return ([v for v, pb in phi.extra if pb not in names], [v for v, pb in phi.extra if pb in names])


def leaves(loop, op, stop, seen=None):
    """values a latch value may have, through phi, select and casts inside the loop; stop: the header phi"""
    seen = set() if seen is None else seen
    if op in seen:
        return set()
    seen.add(op)
    if op[0] != 'l' or op[1] == stop:
        return {op}
    d = loop.fn.defs.get(op[1])
    if d is None:
        return {op}
    if d.op == 'phi' and d.block in loop.body:
        r = set()
        for v, _ in d.extra:
            r |= leaves(loop, v, stop, seen)
        return r
    if d.op == 'select':
        return leaves(loop, d.args[1], stop, seen) | leaves(loop, d.args[2], stop, seen)
    if d.op in ('zext', 'sext', 'trunc', 'freeze', 'bitcast'):
        return leaves(loop, d.args[0], stop, seen)
    return {op}


def step(fn, op, name):
    """k when the value is name + k"""
    k = 0
    for _ in range(20):
        if op == ('l', name):
            return k
        d = fn.defs.get(op[1]) if op[0] == 'l' else None
        if d is None:
            return None
        if d.op == 'add' and d.args[1][0] == 'i':
            k += d.args[1][1]
            op = d.args[0]
        elif d.op == 'add' and d.args[0][0] == 'i':
            k += d.args[0][1]
            op = d.args[1]
        elif d.op == 'sub' and d.args[1][0] == 'i':
            k -= d.args[1][1]
            op = d.args[0]
        elif d.op in ('zext', 'sext', 'trunc', 'freeze'):
            op = d.args[0]
        else:
            return None
    return None


def counters(loop):
    """header phis of integer type: name -> (initial values, set of steps, None for a step that is not known)"""
    r = {}
    for p in loop.header.phis():
        if not isinstance(p.type, str) or not p.type.startswith('i') or p.type == 'i1':
            continue
        a, b = split(loop, p)
        st = set()
        for v in b:
            for x in leaves(loop, v, p.res):
                st.add(step(loop.fn, x, p.res))
        r[p.res] = (a, st)
    return r


def member(fn, op):
    """(struct, field) when the operand is loaded from a struct member, with the load"""
    d = fn.defs.get(op[1]) if op[0] == 'l' else None
    if d is not None and d.op == 'load':
        m = ditypes.member_at(fn, d.args[0])
        if m:
            return m[0], m[1], d
    return None


def nextof(fn, op, name):
    """is the operand the next member of the list element in variable name"""
    m = member(fn, op)
    if m is None or m[1] != 'next':
        return False
    b, off = ditypes.base_off(fn, m[2].args[0])
    return b == ('l', name)


def lists(loop):
    """header phis that walk a list: name -> (initial values, True: always the next element, False: may stay, None: unknown)"""
    r = {}
    for p in loop.header.phis():
        if p.type != 'ptr':
            continue
        a, b = split(loop, p)
        lv = set()
        for v in b:
            lv |= leaves(loop, v, p.res)
        if any(nextof(loop.fn, x, p.res) for x in lv):
            r[p.res] = (a, True if all(nextof(loop.fn, x, p.res) for x in lv) else
                        False if all(nextof(loop.fn, x, p.res) or x == ('l', p.res) for x in lv) else None)
    return r
