"""Rules that watch a program look at text character by character.  The typestate is (state, pending) where
pending is the symbol of the character read last and the class it is known to belong to; the character is
consumed when the next one is read."""
from .paths import Rule, Engine, Sym
from . import lib

ALLC = frozenset(range(-128, 128))


def cls(rng):
    lo, hi, ex = rng
    lo, hi = max(lo, -128), min(hi, 255)
    r = set()
    for c in range(int(lo), int(hi) + 1):
        if c not in ex:
            r.add(c if c < 128 else c - 256)
    return frozenset(r)


def loads_of(fn, bases):
    """character loads from the given base operands"""
    return {i.res for i in fn.instrs() if i.op == 'load' and i.type == 'i8' and lib.origins(fn, i.args[0]) & bases}


class Chars(Rule):
    start = None

    def __init__(s, fn, chars, modes=None):
        s.f = fn
        s.chars = set(chars)
        s.modes = lib.mode_phis(fn) if modes is None else modes

    def init(s, fn):
        return (s.start, None)

    def partition(s, cx):
        return lib.mode_partition(s.modes, cx)

    def consume(s, state, c, ins, cx):
        """subclass: the state after a character of class c"""
        return state

    def narrowed(s, ts, cx):
        st, ch = ts
        if ch is not None and ch[0] in cx.st.facts:
            n = cls(cx.st.facts[ch[0]]) & ch[1]
            if n != ch[1]:
                return (st, (ch[0], n))
        return ts

    def edge(s, ts, frm, to, cx):
        return s.narrowed(ts, cx)

    def flush(s, ts, ins, cx):
        st, ch = ts
        if ch is None:
            return ts
        return (s.consume(st, ch[1], ins, cx), None)

    def loaded(s, ts, ins, cx):
        if ins.res not in s.chars:
            return ts
        v = cx.val(('l', ins.res))
        st, ch = ts
        if ch is not None and v == ('s', ch[0]):
            return ts
        st, _ = s.flush(ts, ins, cx)
        if st is None:
            return None
        if v[0] == 'c':
            c = v[1] if v[1] < 128 else v[1] - 256
            return (s.consume(st, frozenset([c]), ins, cx), None)
        return (st, (v[1], ALLC & cls(cx.st.facts[v[1]]) if v[1] in cx.st.facts else ALLC))
