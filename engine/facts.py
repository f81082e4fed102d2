"""Path-sensitive knowledge about chosen values: a rule whose typestate is the set of facts
(label, 'zero'|'nonzero'|'neg'|'pos') established by branches since the value was computed,
plus events recorded by a subclass."""
from .paths import Rule, Engine, Sym, INF


class Known(Rule):
    def __init__(s, tracked, sink=None):
        """tracked: {ssa result: label}"""
        s.tracked = tracked
        s.bylabel = {}
        for r, l in tracked.items():
            s.bylabel.setdefault(l, []).append(r)
        s.sink = sink

    def init(s, fn):
        return frozenset()

    def event(s, ts, ins, cx):
        """subclass: add or remove facts at an instruction; None ends the path"""
        return ts

    def instr(s, ts, ins, cx):
        if ins.res is not None and ins.res in s.tracked:
            l = s.tracked[ins.res]
            ts = frozenset(x for x in ts if not (isinstance(x, tuple) and len(x) == 2 and x[0] == l))
        ts = s.event(ts, ins, cx)
        if ts is not None and s.sink:
            s.sink(ts, ins, cx)
        return ts

    def edge(s, ts, frm, to, cx):
        add = []
        for r, l in s.tracked.items():
            v = cx.st.env.get(r)
            if v is None:
                continue
            if v[0] == 's' and v[1] not in cx.st.facts and v[1] != '?':
                continue
            if v[1] == '?':
                continue
            z = cx.null(v)
            if z is True:
                add.append((l, 'zero'))
                continue
            if z is False:
                add.append((l, 'nonzero'))
            lo, hi, ex = cx.rng(v)
            if hi < 0:
                add.append((l, 'neg'))
            elif lo > 0:
                add.append((l, 'pos'))
            elif lo >= 0:
                add.append((l, 'nonneg'))
        return ts | frozenset(add) if add else ts


def run(fn, rule, limit=400000):
    return Engine(fn, rule, limit).run()
