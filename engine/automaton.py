"""Extraction of the automaton a byte loop implements: constant propagation of one loop iteration for every
reachable value of the loop-carried integers and every byte.  The position and the length stay unknown; a
branch on an unknown value takes both ways."""
from .ir import walk
from . import lib

UNK = None


class NotAnAutomaton(Exception):
    pass


def bits(t):
    return int(t[1:]) if isinstance(t, str) and t.startswith('i') and t[1:].isdigit() else 64


def trunc(v, t):
    return v & ((1 << bits(t)) - 1)


def signed(v, t):
    n = bits(t)
    v &= (1 << n) - 1
    return v - (1 << n) if v >> (n - 1) else v


class Byteloop:
    """text: name of the pointer parameter that is read byte by byte"""

    def __init__(s, fn, text):
        s.fn, s.mod, s.text = fn, fn.module, ('l', text)
        s.loops = set()
        for b in fn.blocks.values():
            for x in b.succs:
                if fn.bdom(x, b):
                    s.loops.add(x)
        if len(s.loops) != 1:
            raise NotAnAutomaton('%d loops' % len(s.loops))
        s.head = next(iter(s.loops))
        s.phis = [p for p in s.head.phis()]
        # positions: phis used in addresses, or compared with another non-constant value
        s.pos = set()
        used = set()
        for i in fn.instrs():
            if i.op == 'getelementptr':
                for a in i.args:
                    for x in walk(a):
                        if x[0] == 'l' and lib.origins(fn, i.args[0]) >= {s.text}:
                            used.add(x[1])
        for p in s.phis:
            if p.type == 'ptr' or p.res in used:
                s.pos.add(p.res)

    def const_table(s, addr, env):
        """byte of a constant table"""
        if addr[0] == 'l':
            d = s.fn.defs.get(addr[1])
            if d is not None and d.op == 'getelementptr' and d.args[0][0] == 'g':
                g = s.mod.globals.get(d.args[0][1])
                idx = [s.val(a, env) for a in d.args[1:]]
                if g is None or not g.const or any(x is UNK for x in idx):
                    return UNK
                return s.elem(g, d.extra, idx)
        return UNK

    def elem(s, g, ty, idx):
        n = idx[-1]
        if len(idx) > 2:
            # two dimensional
            t = g.type
            n = idx[1] * t[2][1] + idx[2] if isinstance(t[2], tuple) else UNK
        init = g.init
        if init[0] == 'str':
            if n is UNK or not 0 <= n < len(init[1]):
                raise NotAnAutomaton('table index %s out of range' % n)
            return init[1][n]
        if init[0] == 'agg':
            flat = flatten(init)
            if n is UNK or not 0 <= n < len(flat):
                raise NotAnAutomaton('table index %s out of range' % n)
            return flat[n]
        raise NotAnAutomaton('table')

    def val(s, op, env):
        if op[0] == 'i':
            return op[1]
        if op[0] == 'null':
            return 0
        if op[0] == 'l':
            return env.get(op[1], UNK)
        return UNK

    def eval(s, i, env, byte):
        op = i.op
        v = [s.val(a, env) for a in i.args]
        if op == 'load':
            if i.type == 'i8' and s.text in lib.origins(s.fn, i.args[0]):
                return 'BYTE'
            return s.const_table(i.args[0], env)
        if op in ('zext', 'sext', 'trunc'):
            if v[0] is UNK:
                return UNK
            if op == 'zext':
                return trunc(v[0], i.extra)
            if op == 'sext':
                return signed(v[0], i.extra)
            return trunc(v[0], i.type)
        if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'urem'):
            if v[0] is UNK or v[1] is UNK:
                if op == 'and' and (v[0] == 0 or v[1] == 0):
                    return 0
                return UNK
            a, b = trunc(v[0], i.type), trunc(v[1], i.type)
            if op == 'add':
                r = a + b
            elif op == 'sub':
                r = a - b
            elif op == 'mul':
                r = a * b
            elif op == 'and':
                r = a & b
            elif op == 'or':
                r = a | b
            elif op == 'xor':
                r = a ^ b
            elif op == 'shl':
                r = a << b
            elif op == 'lshr':
                r = a >> b
            elif op == 'ashr':
                r = signed(a, i.type) >> b
            elif op == 'udiv':
                r = a // b if b else 0
            else:
                r = a % b if b else 0
            return trunc(r, i.type)
        if op == 'icmp':
            if v[0] is UNK or v[1] is UNK:
                return UNK
            a, b = trunc(v[0], i.uid), trunc(v[1], i.uid)
            p = i.extra
            if p[0] == 's':
                a, b = signed(a, i.uid), signed(b, i.uid)
                p = 'u' + p[1:]
            return int({'eq': a == b, 'ne': a != b, 'ult': a < b, 'ule': a <= b, 'ugt': a > b, 'uge': a >= b}[p])
        if op == 'select':
            if v[0] is UNK:
                return UNK if v[1] != v[2] else v[1]
            return v[1] if v[0] else v[2]
        if op == 'call':
            if (i.callee or '').startswith('llvm.') or i.res is None:
                return UNK
            return UNK
        return UNK

    def run(s, blk, env, byte, prev):
        """follow the code from a block; yields ('need',) | ('head', values) | ('ret', value)"""
        work = [(blk, prev, dict(env), False, 0)]
        while work:
            b, pv, env, read, n = work.pop()
            if n > 200:
                raise NotAnAutomaton('path too long')
            if b is s.head and pv is not None:
                vals = tuple(s.val(v, env) if p.res not in s.pos else UNK
                             for p in s.phis for v, pb in p.extra if pb == pv.name)
                yield ('head', vals, read)
                continue
            if b is not s.head:
                new = {}
                for p in b.phis():
                    for v, pb in p.extra:
                        if pv is not None and pb == pv.name:
                            new[p.res] = s.val(v, env)
                env.update(new)
            stop = False
            for i in b.instrs:
                if i.op in ('phi', 'alloca', 'store', 'getelementptr') or i is b.term:
                    continue
                r = s.eval(i, env, byte)
                if r == 'BYTE':
                    if byte is None:
                        stop = True
                        break
                    read = True
                    r = byte
                if i.res is not None:
                    env[i.res] = r
            if stop:
                yield ('need', None, False)
                continue
            t = b.term
            if t.op == 'ret':
                yield ('ret', s.val(t.args[0], env), read)
            elif t.op == 'br' and not t.args:
                work.append((s.fn.blocks[t.extra[0]], b, env, read, n + 1))
            elif t.op == 'br':
                c = s.val(t.args[0], env)
                for k, lab in enumerate(t.extra):
                    if c is UNK or bool(c) == (k == 0):
                        work.append((s.fn.blocks[lab], b, dict(env), read, n + 1))
            elif t.op == 'switch':
                c = s.val(t.args[0], env)
                hit = False
                for cv, lab in t.extra['cases']:
                    if c is UNK or trunc(c, 'i64') == trunc(cv, 'i64'):
                        work.append((s.fn.blocks[lab], b, dict(env), read, n + 1))
                        hit = True
                if c is UNK or not hit:
                    work.append((s.fn.blocks[t.extra['default']], b, dict(env), read, n + 1))
            elif t.op == 'unreachable':
                pass

    def start(s):
        return [x for x in s.run(s.fn.entry, {}, None, None)]

    def envof(s, vals):
        return {p.res: v for p, v in zip(s.phis, vals) if v is not UNK}

    def end(s, vals):
        """what is returned when the text ends in this state"""
        return {x[1] for x in s.run(s.head, s.envof(vals), None, None) if x[0] == 'ret'}

    def step(s, vals, byte):
        """outcomes after reading the byte: set of ('head', vals) | ('ret', v)"""
        return {x[:2] for x in s.run(s.head, s.envof(vals), byte, None) if x[2]}


def flatten(init):
    if init[0] == 'agg':
        r = []
        for x in init[1]:
            r.extend(flatten(x))
        return r
    if init[0] == 'str':
        return list(init[1])
    if init[0] == 'i':
        return [init[1]]
    if init[0] == 'zero':
        return [0]
    raise NotAnAutomaton('initialiser')


# RFC 3629
def utf8_step(q, b):
    """states: '' accept; tuple of remaining byte ranges; None dead"""
    if q is None:
        return None
    if q == ():
        if b <= 0x7f:
            return ()
        if 0xc2 <= b <= 0xdf:
            return ((0x80, 0xbf),)
        if b == 0xe0:
            return ((0xa0, 0xbf), (0x80, 0xbf))
        if 0xe1 <= b <= 0xec or 0xee <= b <= 0xef:
            return ((0x80, 0xbf), (0x80, 0xbf))
        if b == 0xed:
            return ((0x80, 0x9f), (0x80, 0xbf))
        if b == 0xf0:
            return ((0x90, 0xbf), (0x80, 0xbf), (0x80, 0xbf))
        if 0xf1 <= b <= 0xf3:
            return ((0x80, 0xbf),) * 3
        if b == 0xf4:
            return ((0x80, 0x8f), (0x80, 0xbf), (0x80, 0xbf))
        return None
    lo, hi = q[0]
    return q[1:] if lo <= b <= hi else None
