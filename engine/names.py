"""Validated identifiers: a key is inserted only after every character of it was seen to belong to
[A-Z][A-Z0-9_]*."""
from .paths import Engine
from . import lib
from .chars import Chars, ALLC, cls

UP = frozenset(range(65, 91))
ID = UP | frozenset(range(48, 58)) | {95}


class Checked(Chars):
    """typestate: (spec states, (char result, class) or None).  sites: {instr: key operand}"""

    def __init__(s, fn, rep, key, site, report):
        s.f, s.rep, s.site, s.report = fn, rep, site, report
        s.key = lib.origins(fn, key)
        s.modes = lib.mode_phis(fn)
        s.chars = {i.res for i in fn.instrs() if i.op == 'load' and i.type == 'i8' and lib.origins(fn, i.args[0]) & s.key}
        # the same cell read again (array element) denotes the same key
        s.alias(fn, key)
        s.redef = {o[1] for o in s.key if o[0] == 'l' and o[1] in fn.defs and
                   (fn.defs[o[1]].op == 'call' or fn.defs[o[1]].op == 'load')}

    def alias(s, fn, key):
        cells = set()
        for o in s.key:
            d = fn.defs.get(o[1]) if o[0] == 'l' else None
            if d is not None and d.op == 'load':
                cells.add(s.cell(fn, d.args[0]))
        if not cells:
            return
        for i in fn.instrs():
            if i.op == 'load' and i.type == 'ptr' and s.cell(fn, i.args[0]) in cells:
                s.key = s.key | {('l', i.res)}
        s.chars = {i.res for i in fn.instrs() if i.op == 'load' and i.type == 'i8' and lib.origins(fn, i.args[0]) & s.key}
        s.bases = {c[0] for c in cells}

    @staticmethod
    def cell(fn, addr):
        if addr[0] == 'l':
            d = fn.defs.get(addr[1])
            if d is not None and d.op == 'getelementptr':
                return (d.args[0],) + tuple(d.args[1:])
        return (addr,)

    start = frozenset(['start'])

    def step(s, st, c):
        out = set()
        for x in st:
            for ch in c:
                if ch == 0:
                    out.add('end' if x in ('id', 'end') else 'empty' if x in ('start', 'empty') else 'bad')
                elif x == 'start':
                    out.add('id' if ch in UP else 'bad')
                elif x == 'id':
                    out.add('id' if ch in ID else 'bad')
                else:
                    out.add('bad' if x != 'empty' else 'empty')
        return frozenset(out)

    def consume(s, st, c, ins, cx):
        return s.step(st, c)

    def instr(s, ts, ins, cx):
        if ins.res in s.redef and ins.op == 'call':
            return (s.start, None)
        if ins is s.site:
            st, ch = s.flush(ts, ins, cx)
            s.rep.count('insertions of checked names followed')
            wrong = st - {'id', 'end'}
            if wrong:
                s.report(ins, sorted(wrong), cx)
            return (s.start, None)
        return ts


def check(fn, rep, site, key, report):
    c = Checked(fn, rep, key, site, report)
    if not c.chars:
        report(site, ['unchecked'], None)
        return
    Engine(fn, c).run()
