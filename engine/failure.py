"""Failures that must not be lost.  A site is a call whose result tells whether it failed.  On every path from the
site, as soon as the result is known to mean failure (or stays untested), the path has to acknowledge the failure
before the function returns a value that means success."""
from .paths import Rule, Engine, Sym, INF
from . import lib, ditypes

EXITS = {'exit', '_exit', '_Exit', 'quick_exit', 'abort', 'pthread_exit'}
ERRS = {'bc_error_new', 'bc_error_new_printf', 'bc_error_parser'}
STDERR = {'fprintf': 0, 'vfprintf': 0, 'fputs': 1, 'fputc': 1, 'putc': 1, 'fwrite': 3, 'dprintf': 0}


def retkind(fn):
    """what a failing return value of the function looks like"""
    t = fn.rettype
    return None if t == 'void' else 'zero' if t in ('ptr', 'i1') else 'nonzero'


def returns(fn):
    return [i for i in fn.instrs() if i.op == 'ret']


def is_stream(mod, fn, op, name):
    for o in lib.origins(fn, op):
        if o[0] == 'l' and o[1] in fn.defs and fn.defs[o[1]].op == 'load' and fn.defs[o[1]].args[0] == ('g', name):
            continue
        return False
    return True


def reports(mod, fn, ins):
    """text of a message the instruction writes to stderr, or None"""
    if ins.op != 'call':
        return None
    if ins.callee in ('perror', 'syslog', 'warn', 'warnx', 'err', 'errx'):
        return 'error:'
    if ins.callee in STDERR and len(ins.args) > STDERR[ins.callee] and is_stream(mod, fn, ins.args[STDERR[ins.callee]], 'stderr'):
        f = {'fprintf': 1, 'vfprintf': 1}.get(ins.callee, 0)
        st = mod.string(ins.args[f])
        return st.decode('latin1') if st is not None else ''
    return None


def deep(mod, t):
    for _ in range(3):
        n = ditypes.pointee(mod, t) if t is not None else None
        if n is None:
            return t
        t = n
    return t


# errno values that a caller may tell apart and go on: interrupted or would block, reader gone, exists already, not there
TOLERATED = {'write': (4, 11, 32), 'send': (4, 11, 32), 'pwrite': (4, 11, 32), 'read': (4, 11), 'recv': (4, 11), 'mkdir': (17,),
             'symlink': (17,), 'link': (17,), 'unlink': (2,), 'remove': (2,), 'rmdir': (2,), 'opendir': (2,), 'open': (2, 4, 17),
             'fopen': (2, 4)}


class Handled(Rule):
    """sites: {result: (site instr, kind)} with kind zero|neg|nonzero|none; `ack` decides which instructions
    acknowledge; `lost(ins, site, how, cx)` reports"""

    def __init__(s, fn, sites, lost, retfail):
        s.f, s.mod, s.sites, s.lost, s.retfail = fn, fn.module, sites, lost, retfail
        s.errno = set()
        for i in fn.instrs():
            if i.op == 'load' and i.args[0][0] == 'l' and i.args[0][1] in fn.defs and \
                    fn.defs[i.args[0][1]].op == 'call' and fn.defs[i.args[0][1]].callee == '__errno_location':
                s.errno.add(i.res)
        s.silent = []
        s.errparams = {p for p, t in fn.params if t == 'ptr' and 'bc_error_t' in str(ditypes.typename(
            s.mod, deep(s.mod, ditypes.type_of(fn, ('l', p)))))}
        s.modes = lib.mode_phis(fn)

    def init(s, fn):
        return frozenset()

    def outcome(s, kind, v, cx):
        """'fail', 'ok' or None"""
        if v[0] == 's' and v[1] == '?':
            return None
        z = cx.null(v)
        lo, hi, ex = cx.rng(v)
        if kind == 'zero':
            return 'fail' if z is True else 'ok' if z is False else None
        if kind == 'nonzero':
            return 'ok' if z is True else 'fail' if z is False else None
        if kind == 'status':
            # 0 or -1
            if z is True or -1 in ex or lo >= 0:
                return 'ok'
            if z is False or hi < 0:
                return 'fail'
        if kind == 'neg':
            if hi < 0:
                return 'fail'
            if lo >= 0 or -1 in ex:
                return 'ok'
        if kind == 'eof':
            if lo == hi == -1:
                return 'fail'
            if lo >= 0 or -1 in ex:
                return 'ok'
        return None

    def resolve(s, ts, cx):
        out = set()
        ch = False
        for x in ts:
            if x[0] == 'pend':
                o = s.outcome(s.sites[x[1]][1], ('s', x[2]) if not isinstance(x[2], tuple) else x[2], cx)
                if o == 'ok':
                    ch = True
                    continue
                if o == 'fail':
                    ch = True
                    x = ('fail', x[1])
            out.add(x)
        if any(x[0] == 'fail' for x in out):
            if s.optout(cx):
                return frozenset(x for x in out if x[0] == 'pend')
            for r in s.errno:
                v = cx.st.env.get(r, ('s', Sym(r)))
                lo, hi, ex = cx.rng(v)
                if lo == hi and lo > 0 and v[0] == 's':
                    # a harmless error number was told apart
                    n = {x for x in out if x[0] != 'fail' or lo not in TOLERATED.get(s.sites[x[1]][0].callee, (4,))}
                    ch |= n != out
                    out = n
        return frozenset(out) if ch else ts

    def edge(s, ts, frm, to, cx):
        return s.resolve(ts, cx) if ts else ts

    def acks(s, ins, cx):
        return False

    def extra(s, ts, ins, cx):
        """subclass: further events"""
        return ts

    def instr(s, ts, ins, cx):
        if ins.res in s.sites or (ins.op == 'call' and ins.callee in EXITS):
            ts = s.resolve(ts, cx)
        if ins.op == 'call' and ins.callee in EXITS:
            v = cx.val(ins.args[0]) if ins.args else ('c', 1)
            if cx.null(v) is not False:
                s.finish(ts, ins, cx)
            return None
        if ts and s.acks(ins, cx):
            ts = frozenset(x for x in s.resolve(ts, cx) if x[0] == 'pend')
        return s.extra(ts, ins, cx)

    def after(s, ts, ins, cx):
        if ins.res not in s.sites:
            return ts
        out = set()
        for x in ts:
            if x[1] == ins.res:
                if x[0] == 'fail' or x[0] == 'pend' and s.sites[x[1]][1] != 'none' and not s.sites[x[1]][2:]:
                    out.add(('again', x[1]))
                continue
            out.add(x)
        v = cx.val(('l', ins.res))
        k = s.sites[ins.res][1]
        if k == 'always':
            out.add(('fail', ins.res))
        elif v[0] == 's':
            out.add(('pend', ins.res, v[1]))
        return frozenset(out)

    def exit(s, ts, ins, cx):
        if ins.op == 'ret':
            s.finish(ts, ins, cx)

    def optout(s, cx):
        """the caller passed no place for an error"""
        for p, t in s.f.params:
            if t == 'ptr' and cx.null(cx.val(('l', p))) is True and p in s.errparams:
                return True
        return False

    def finish(s, ts, ins, cx):
        if not ts:
            return
        if ins.op == 'ret' and ins.args and s.retfail:
            v = cx.val(ins.args[0])
            # the result itself is handed to the caller
            rest = set()
            for x in ts:
                if x[0] == 'pend' and v == ('s', x[2]):
                    s.silent.append(s.sites[x[1]][0])
                    continue
                rest.add(x)
            if not rest:
                return
            o = s.outcome(s.retfail, v, cx)
            if o == 'fail' or s.retfail == 'nonzero' and cx.rng(v)[1] < 0:
                if any(x[0] != 'pend' for x in rest):
                    s.silent += [s.sites[x[1]][0] for x in rest if x[0] != 'pend']
                return
            ts = s.resolve(frozenset(rest), cx)
        else:
            ts = s.resolve(ts, cx)
        for x in sorted(ts, key=repr):
            s.lost(ins, s.sites[x[1]][0], x[0], cx)
