"""Child processes: pipes, draining, reaping and status."""
from engine import frontend, ir, lib
from engine.paths import Rule, Engine, Sym
from engine.failure import reports, retkind, ERRS
from checks.C17 import STATUS, SETUP, Status, runs_commands, status_sites, taken

POLLS = {'poll', 'ppoll', 'select', 'pselect', 'epoll_wait'}
READS = {'read': 0, 'fread': None, 'readv': 0}
WRITES = {'write': 0, 'send': 0}
EXECS = {'execl', 'execlp', 'execle', 'execv', 'execvp', 'execvpe', 'execve', 'fexecve'}
EXITS = {'_exit', '_Exit', 'exit', 'quick_exit', 'abort'}
WAITS = {'waitpid': 1, 'wait': 0, 'wait4': 1}
PIPE_BUF = 4096
SIGPIPE = 13
EINTR = 4


class Child(Rule):
    """ts items:
    ('open', cell) ('eof', cell)        a pipe end this process holds
    ('dup', cell)                       the end became a standard stream of the child
    ('ready', cell)                     a poll happened since the last transfer on the end
    ('child',) ('parent', 'alive') ('parent', 'reaped') ('parent', 'waited', sym)
    ('pend', instr, sym, what...)       results not yet known
    ('sigpipe',)"""

    def __init__(s, mod, fn):
        s.mod, s.f = mod, fn
        # cells for errors that the caller gave
        s.errs = {('l', p) for p, t in fn.params if any(
            i.op == 'store' and i.args[1] == ('l', p) and i.args[0][0] == 'l' and i.args[0][1] in fn.defs and
            fn.defs[i.args[0][1]].callee in ERRS for i in fn.instrs() if i.op == 'store')}
        s.drained = set()    # ends of the children's output that this function reads
        s.pipes = {}         # alloca -> pipe call
        for i in fn.calls('pipe', 'pipe2'):
            for o in lib.origins(fn, i.args[0]):
                s.pipes[o] = i
        s.cells = {}         # load result -> cell
        s.bad = {}
        s.seen = set()
        s.errno = set()
        for i in fn.instrs():
            if i.op == 'load':
                c = s.cellof(i.args[0])
                if c is not None:
                    s.cells[i.res] = c
                d = fn.defs.get(i.args[0][1]) if i.args[0][0] == 'l' else None
                if d is not None and d.op == 'call' and d.callee == '__errno_location':
                    s.errno.add(i.res)
        for i in fn.calls('read'):
            s.drained |= {c for c in s.fdcells(i.args[0]) if c[1] == 0}
        s.status = set()
        for i in fn.calls(*WAITS):
            s.status |= lib.origins(fn, i.args[WAITS[i.callee]])
        s.polled = {}        # array alloca -> {index: cells}
        for i in fn.calls('poll', 'ppoll'):
            for o in lib.origins(fn, i.args[0]):
                s.polled[o] = {}
        for i in fn.instrs():
            if i.op == 'store':
                a = s.place(i.args[1])
                if a is not None and a[0] in s.polled and a[1] % 8 == 0:
                    s.polled[a[0]].setdefault(a[1] // 8, set()).update(s.fdcells(i.args[0]))

    def place(s, op):
        off = 0
        n = 0
        while op[0] == 'l' and n < 30:
            n += 1
            d = s.f.defs.get(op[1])
            if d is None:
                return None
            if d.op == 'alloca':
                return (op, off)
            if d.op != 'getelementptr':
                return None
            o = gep_offset(s.mod, d)
            if o is None:
                return None
            off += o
            op = d.args[0]
        return None

    def cellof(s, op):
        p = s.place(op)
        if p is not None and p[0] in s.pipes and p[1] in (0, 4):
            return (p[0][1], p[1] // 4)
        return None

    def fdcells(s, op):
        return {s.cells[o[1]] for o in lib.origins(s.f, op) if o[0] == 'l' and o[1] in s.cells}

    def one(s, op):
        c = s.fdcells(op)
        return next(iter(c)) if len(c) == 1 else None

    def viol(s, ins, what, msg, cx):
        s.bad.setdefault((ins.loc(), what), (ins, what, msg, cx.trace()))

    def init(s, fn):
        return frozenset()

    def loaded(s, ts, ins, cx):
        if ins.args[0] in s.errs:
            v = cx.val(('l', ins.res))
            if v[0] == 's' and v[1] != '?':
                return frozenset(x for x in ts if x[0] != 'errv') | {('errv', v)}
        return ts

    def assume(s, ins, cx):
        if ins.op == 'load' and ins.args[0] in s.errs:
            if ('err',) in cx.st.ts:
                return [('ne', 0)]
            for x in cx.st.ts:
                if x[0] == 'errv' and cx.null(x[1]) is not None:
                    return [('eq' if cx.null(x[1]) else 'ne', 0)]
            return ()
        if ins.res in s.cells:
            c = s.cells[ins.res]
            if ('open', c) in cx.st.ts or ('eof', c) in cx.st.ts:
                return [('sge', 0)]
        if ins.op == 'load' and s.polled:
            # poll() reports nothing for an end that was replaced by -1
            p = s.place(ins.args[0])
            if p is not None and p[0] in s.polled and p[1] % 8 >= 4:
                cs = s.polled[p[0]].get(p[1] // 8)
                if cs and not any(('open', c) in cx.st.ts or ('eof', c) in cx.st.ts or ('closed', c) in cx.st.ts for c in cs):
                    return [('eq', 0)]
        return ()

    def name(s, c):
        return '%s[%d]' % c

    def held(s, ts):
        return {x[1] for x in ts if x[0] in ('open', 'eof')}

    def guarded(s, ins, c):
        """the transfer happens only when the poll reported something for this end"""
        for o, ix in s.polled.items():
            want = {k for k, cs in ix.items() if c in cs}
            for b in s.f.blocks.values():
                t = b.term
                if t.op != 'br' or not t.args or t.extra[0] == t.extra[1]:
                    continue
                ls = loads_of(s.f, t.args[0])
                hit = False
                for l in ls:
                    p = s.place(l.args[0])
                    if p is not None and p[0] == o:
                        if want and not (p[1] % 8 >= 4 and p[1] // 8 in want):
                            continue
                        hit = True
                if not hit:
                    continue
                for lab in t.extra:
                    tb = s.f.blocks[lab]
                    if tb.preds == [b] and s.f.bdom(tb, ins.block):
                        return True
        return False

    def bounded(s, ts, ins, cx):
        v = cx.val(ins.args[2])
        lo, hi, ex = cx.rng(v)
        if 0 <= lo and hi <= PIPE_BUF:
            return True
        # min(x, constant)
        k = [o for o in lib.origins(s.f, ins.args[2], geps=False) if o[0] == 'i']
        return any(0 < o[1] <= PIPE_BUF for o in k) and capped(s.f, ins.args[2])

    def instr(s, ts, ins, cx):
        if ins.op == 'store' and ins.args[1] in s.errs:
            ts = frozenset(x for x in ts if x[0] not in ('err', 'errv'))
            d = s.f.defs.get(ins.args[0][1]) if ins.args[0][0] == 'l' else None
            return ts | {('err',)} if d is not None and d.op == 'call' and d.callee in ERRS else ts
        if ins.op == 'call' and any(a in s.errs for a in ins.args):
            ts = frozenset(x for x in ts if x[0] not in ('err', 'errv'))
        if ins.op == 'store':
            c = s.cellof(ins.args[1])
            if c is not None:
                v = cx.val(ins.args[0])
                if c in s.held(ts):
                    s.viol(ins, 'lost', 'the pipe end %s is overwritten while it is open' % s.name(c), cx)
                return frozenset(x for x in ts if len(x) < 2 or x[1] != c)
            return ts
        if ins.op == 'load' and any(lib.origins(s.f, ins.args[0]) == {o} for o in s.status):
            if ('parent', 'alive') in ts:
                s.viol(ins, 'status', 'the status of the child is used before the child was waited for', cx)
            return ts
        if ins.op != 'call':
            return ts
        n = ins.callee
        if n in ('pipe', 'pipe2'):
            s.seen.add(('pipes', ins.loc()))
            return ts
        if n == 'close':
            c = s.one(ins.args[0])
            if c is not None:
                if c not in s.held(ts):
                    if not any(x[0] == 'pend' for x in ts) or ('closed', c) in ts:
                        s.viol(ins, 'twice', 'the pipe end %s is closed although it is not open' % s.name(c), cx)
                cut = {('cut', c)} if ('open', c) in ts and ('rerr', c) not in ts and c in s.drained and ('child',) not in ts and any(
                    x[0] == 'parent' for x in ts) else set()
                return frozenset(x for x in ts if len(x) < 2 or x[1] != c) | {('closed', c)} | cut
            return ts
        if n in ('dup2', 'dup3'):
            c = s.one(ins.args[0])
            t = cx.val(ins.args[1])
            if c is not None and t[0] == 'c':
                s.seen.add(('redirections', ins.loc()))
                if (t[1] == 0) != (c[1] == 0):
                    s.viol(ins, 'direction', 'the %s end of a pipe becomes stream %d of the child' % ('read' if c[1] == 0 else 'write', t[1]), cx)
                if any(x[0] == 'dup' and x[1] == c for x in ts):
                    s.viol(ins, 'shared', 'the pipe end %s becomes two streams of the child' % s.name(c), cx)
                return ts | {('dup', c)}
            return ts
        if n == 'fork' or n == 'vfork':
            s.seen.add(('forks', ins.loc()))
            return ts
        if n in EXECS:
            if ('child',) in ts:
                d = {x[1] for x in ts if x[0] == 'dup'}
                for c in sorted(s.held(ts) - d):
                    s.viol(ins, 'inherit:' + s.name(c), 'the child keeps the end %s of a pipe that belongs to the parent' % s.name(c), cx)
            return ts
        if n in EXITS:
            if not ('child',) in ts:
                if ('parent', 'alive') in ts:
                    s.viol(ins, 'exit', 'the program ends without waiting for the child', cx)
                return None
            if n == 'exit':
                s.viol(ins, 'exit', 'the child leaves through exit() and flushes the buffers of the parent', cx)
            v = cx.val(ins.args[0]) if ins.args else ('c', 1)
            if cx.null(v) is not False:
                s.viol(ins, 'zero', 'the child reports success although the command could not be started', cx)
            return None
        if ('child',) in ts:
            return ts
        if n in POLLS:
            for x in sorted(x for x in ts if x[0] == 'open'):
                s.share(ts, ins, x[1], cx)
            return frozenset(x for x in ts if x[0] != 'ready') | {('ready', c) for c in s.held(ts)}
        if n in READS and READS[n] is not None or n in WRITES:
            c = s.one(ins.args[0])
            if c is None:
                return ts
            s.seen.add(('transfers', ins.loc()))
            if ('parent', 'alive') not in ts:
                return ts
            if n in READS:
                if ('open', (c[0], 1)) in ts:
                    s.viol(ins, 'eof', '%s is read while this process still holds the write end, so the end of the output is never seen' % s.name(c), cx)
            else:
                if ('sigpipe',) not in ts:
                    s.viol(ins, 'sigpipe', 'writing to a command that already ended kills this process (SIGPIPE is not ignored)', cx)
            others = {x[1] for x in ts if x[0] == 'open' and x[1][1] == 0 and x[1] != c}
            if others:
                if ('ready', c) not in ts or not s.guarded(ins, c):
                    s.viol(ins, 'block', '%s() on %s can block while the child waits for %s to be read' % (
                        n, s.name(c), ', '.join(sorted(map(s.name, others)))), cx)
                elif n in WRITES and not s.bounded(ts, ins, cx):
                    s.viol(ins, 'block', 'write() of more than PIPE_BUF bytes to %s can block while the child waits for %s to be read' % (
                        s.name(c), ', '.join(sorted(map(s.name, others)))), cx)
            return frozenset(x for x in ts if x != ('ready', c))
        if n in WAITS:
            s.seen.add(('waits', ins.loc()))
            for x in sorted(x for x in ts if x[0] == 'open'):
                s.viol(ins, 'wait', 'waiting for the child while the pipe end %s is still open' % s.name(x[1]), cx)
            if n == 'waitpid' and cx.val(ins.args[2]) != ('c', 0):
                s.viol(ins, 'options', 'waitpid() may return before the child ended', cx)
            return ts
        if n in ('sigaction', 'signal', 'sigprocmask', 'pthread_sigmask') and ins.args[0] == ('i', SIGPIPE):
            h = ins.args[1]
            if n == 'sigaction' and h[0] != 'null' and s.ignores(h):
                return ts | {('sigpipe',)}
            if n == 'signal' and cx.val(h) == ('c', 1) or h == ('inttoptr', 1):
                return ts | {('sigpipe',)}
            return frozenset(x for x in ts if x != ('sigpipe',))
        return ts

    def ignores(s, op):
        """a constant was stored as the handler of this action"""
        p = lib.origins(s.f, op)
        for i in s.f.instrs():
            if i.op == 'store' and lib.origins(s.f, i.args[1]) == p and s.place(i.args[1]) is not None and s.place(i.args[1])[1] == 0 and \
                    i.type != 'i32':
                return i.args[0][0] not in ('l', 'g')
        return False

    def share(s, ts, ins, c, cx):
        if c[1] == 0 and ('open', (c[0], 1)) in ts and ('parent', 'alive') in ts:
            s.viol(ins, 'eof', '%s is read while this process still holds the write end, so the end of the output is never seen' % s.name(c), cx)

    def after(s, ts, ins, cx):
        n = ins.callee
        if n in ('pipe', 'pipe2'):
            v = cx.val(('l', ins.res))
            a = {o[1] for o in lib.origins(s.f, ins.args[0])}
            if len(a) != 1:
                return ts
            a = next(iter(a))
            return [([(v, 'eq', -1)], ts), ([(v, 'eq', 0)], ts | {('open', (a, 0)), ('open', (a, 1))})]
        if n in ('fork', 'vfork'):
            v = cx.val(('l', ins.res))
            return [([(v, 'eq', -1)], ts), ([(v, 'eq', 0)], ts | {('child',)}), ([(v, 'sgt', 0)], ts | {('parent', 'alive')})]
        if n in READS and READS[n] is not None:
            c = s.one(ins.args[0])
            if c is not None and ('open', c) in ts and ('child',) not in ts:
                v = cx.val(('l', ins.res))
                return [([(v, 'eq', 0)], ts - {('open', c)} | {('eof', c)}), ([(v, 'slt', 0)], ts | {('rerr', c)}), ([(v, 'sgt', 0)], ts - {('rerr', c)})]
        if n in WAITS and ('parent', 'alive') in ts:
            v = cx.val(('l', ins.res))
            return [([(v, 'eq', -1)], ts - {('parent', 'alive')} | {('parent', 'failed')}),
                    ([(v, 'ne', -1)], ts - {('parent', 'alive')} | {('parent', 'reaped')})]
        return ts

    def edge(s, ts, frm, to, cx):
        if ('parent', 'failed') in ts:
            for r in s.errno:
                lo, hi, ex = cx.rng(cx.st.env.get(r, ('s', Sym(r))))
                if lo == hi == EINTR:
                    return ts - {('parent', 'failed')} | {('parent', 'alive')}
                if EINTR in ex:
                    return ts - {('parent', 'failed')} | {('parent', 'gone')}
        return ts

    def exit(s, ts, ins, cx):
        if ins.op != 'ret':
            return
        if ('child',) in ts:
            s.viol(ins, 'escape', 'the child returns into the code of the parent', cx)
            return
        for c in sorted(s.held(ts)):
            s.viol(ins, 'leak:' + s.name(c), 'the pipe end %s is still open when the function returns' % s.name(c), cx)
        if ('parent', 'alive') in ts:
            s.viol(ins, 'zombie', 'the child is not waited for', cx)
        if ('parent', 'failed') in ts:
            s.viol(ins, 'zombie', 'waiting was interrupted by a signal and not repeated', cx)
        if ins.args and cx.null(cx.val(ins.args[0])) is not False and any(x[0] == 'parent' for x in ts):
            for c in sorted(x[1] for x in ts if x[0] == 'cut'):
                s.viol(ins, 'undrained:' + s.name(c), 'the output of the child at %s is given up before its end, and the result can still mean success' % s.name(c), cx)
        if ('parent', 'gone') in ts and ins.args and cx.null(cx.val(ins.args[0])) is not False:
            s.viol(ins, 'unknown', 'waiting for the child failed, and the result can still mean success', cx)
        if ('parent', 'reaped') in ts and ins.args:
            v = cx.val(ins.args[0])
            if cx.null(v) is False:
                return
            src = lib.origins(s.f, ins.args[0])
            if cx.null(v) is True and s.status_zero(cx):
                return
            if any(b.term.op == 'br' and b.term.args and from_status(s.f, b.term.args[0], s.status, v, cx) for b in s.f.blocks.values()):
                # the outcome of a test of the status
                return
            if not from_status(s.f, ins.args[0], s.status, v, cx):
                s.viol(ins, 'status', 'the result does not depend on the status of the child', cx)

    def status_zero(s, cx):
        """the path has found the status to be zero"""
        for i in s.f.instrs():
            if i.op == 'load' and any(lib.origins(s.f, i.args[0]) == {o} for o in s.status):
                v = cx.st.env.get(i.res)
                if v is not None and cx.null(v) is True:
                    return True
        return False


def gep_offset(mod, d):
    from engine import ditypes
    return ditypes.gepoff(mod, d.extra, d.args[1:])


def loads_of(fn, op, depth=6):
    r = []
    work = [(op, depth)]
    seen = set()
    while work:
        o, k = work.pop()
        if o[0] != 'l' or k == 0 or o in seen:
            continue
        seen.add(o)
        d = fn.defs.get(o[1])
        if d is None:
            continue
        if d.op == 'load':
            r.append(d)
        elif d.op in ('icmp', 'and', 'or', 'sext', 'zext', 'trunc', 'xor', 'lshr', 'ashr', 'shl'):
            work += [(a, k - 1) for a in d.args]
    return r


def capped(fn, op):
    """phi or select of x and a constant that x was compared with"""
    for o in lib.origins(fn, op, geps=False):
        if o[0] != 'l':
            continue
        for u in fn.uses.get(o[1], ()):
            if u.op == 'icmp' and any(a[0] == 'i' and 0 < a[1] <= PIPE_BUF for a in u.args):
                return True
    return False


def from_status(fn, op, status, val, cx, seen=None):
    seen = seen if seen is not None else set()
    if op in seen:
        return False
    seen.add(op)
    if op[0] != 'l':
        return False
    d = fn.defs.get(op[1])
    if d is None:
        return False
    if d.op == 'load':
        return any(lib.origins(fn, d.args[0]) == {o} for o in status)
    if d.op == 'phi':
        # which incoming value this path chose
        return any(from_status(fn, a, status, val, cx, seen) for a in d.args)
    return any(from_status(fn, a, status, val, cx, seen) for a in d.args)


# ---- the decoding of wait statuses: abstract interpretation over bits with provenance

UNK = '?'


class Bits:
    """32 entries: 0, 1, ('in', i) or '?'"""
    def __init__(s, b):
        s.b = tuple(b)

    @staticmethod
    def const(c):
        return Bits([(c >> i) & 1 for i in range(32)])

    @property
    def value(s):
        if all(x in (0, 1) for x in s.b):
            v = sum(x << i for i, x in enumerate(s.b))
            return v - (1 << 32) if v >> 31 else v
        return None


def bit_eval(fn, arg):
    """possible results of a loop-free integer function for an abstract argument; None when it is not understood"""
    res = []

    def ev(op, env):
        if op[0] == 'i':
            return Bits.const(op[1])
        if op[0] == 'l' and op[1] in env:
            return env[op[1]]
        return Bits([UNK] * 32)

    def width(t):
        return int(t[1:]) if t and t.startswith('i') else 32

    def walk(block, prev, env, depth):
        if depth > 40:
            res.append(None)
            return
        env = dict(env)
        for i in block.instrs:
            if i.op == 'phi':
                for v, pb in i.extra:
                    if prev is not None and pb == prev.name:
                        env[i.res] = ev(v, env)
                continue
            if i.op == 'ret':
                res.append(ev(i.args[0], env))
                return
            if i.op == 'br':
                if not i.args:
                    return walk(fn.blocks[i.extra[0]], block, env, depth + 1)
                c = ev(i.args[0], env).b[0]
                if c != 0:
                    walk(fn.blocks[i.extra[0]], block, env, depth + 1)
                if c != 1:
                    walk(fn.blocks[i.extra[1]], block, env, depth + 1)
                return
            if i.op == 'switch':
                v = ev(i.args[0], env).value
                labs = [l for k, l in i.extra['cases'] if v is None or k == v]
                if v is None or not labs:
                    labs.append(i.extra['default'])
                for l in labs:
                    walk(fn.blocks[l], block, env, depth + 1)
                return
            if i.res is None:
                continue
            a = [ev(x, env) for x in i.args]
            env[i.res] = bit_op(i, a, width)
    walk(fn.entry, None, {fn.params[0][0]: arg}, 0)
    return res


def bit_op(i, a, width):
    op = i.op
    un = Bits([UNK] * 32)
    if op in ('and', 'or', 'xor'):
        out = []
        for x, y in zip(a[0].b, a[1].b):
            if op == 'and':
                out.append(0 if x == 0 or y == 0 else y if x == 1 else x if y == 1 else x if x == y else UNK)
            elif op == 'or':
                out.append(1 if x == 1 or y == 1 else y if x == 0 else x if y == 0 else x if x == y else UNK)
            else:
                out.append(y if x == 0 else x if y == 0 else x ^ y if x in (0, 1) and y in (0, 1) else UNK)
        return Bits(out)
    if op in ('shl', 'lshr', 'ashr'):
        n = a[1].value
        if n is None or not 0 <= n < 32:
            return un
        w = width(i.type)
        b = list(a[0].b[:w])
        if op == 'shl':
            b = [0] * n + b[:w - n]
        else:
            b = b[n:] + [0 if op == 'lshr' else b[-1]] * n
        return Bits(b[:w] + [b[w - 1] if op == 'ashr' else 0] * (32 - w))
    if op in ('trunc', 'zext', 'sext'):
        w = width(i.extra if op != 'trunc' else i.type)
        b = list(a[0].b[:w])
        return Bits(b + [b[-1] if op == 'sext' else 0] * (32 - w))
    if op in ('add', 'sub', 'mul'):
        x, y = a[0].value, a[1].value
        if x is not None and y is not None:
            return Bits.const(({'add': x + y, 'sub': x - y, 'mul': x * y}[op]) & 0xffffffff)
        if op == 'add' and all(p == 0 or q == 0 for p, q in zip(a[0].b, a[1].b)):
            return Bits([q if p == 0 else p for p, q in zip(a[0].b, a[1].b)])
        return un
    if op == 'icmp':
        w = 32
        x, y = a[0].value, a[1].value
        pr = i.extra
        if x is not None and y is not None:
            ux, uy = x & 0xffffffff, y & 0xffffffff
            r = {'eq': x == y, 'ne': x != y, 'slt': x < y, 'sle': x <= y, 'sgt': x > y, 'sge': x >= y,
                 'ult': ux < uy, 'ule': ux <= uy, 'ugt': ux > uy, 'uge': ux >= uy}[pr]
            return Bits.const(int(r))
        if pr in ('eq', 'ne'):
            if any(p in (0, 1) and q in (0, 1) and p != q for p, q in zip(a[0].b, a[1].b)):
                return Bits.const(int(pr == 'ne'))
        return un
    if op == 'select':
        c = a[0].b[0]
        if c in (0, 1):
            return a[1] if c else a[2]
        return Bits([x if x == y else UNK for x, y in zip(a[1].b, a[2].b)])
    return un


def decoding(rep, prog, mod):
    fn = mod.fns.get(STATUS)
    if fn is None or len(fn.params) != 1:
        return
    hi = [('in', k) for k in range(8, 16)] + [0] * 16
    loc = fn.entry.instrs[0].loc()
    for low in range(0, 128):
        for core in (0, 1):
            if low in (0, 127) and core:
                continue
            rep.count('classes of wait statuses decoded')
            arg = Bits([(low >> k) & 1 for k in range(7)] + [core] + (hi if low in (0, 127) else [0] * 24))
            for r in bit_eval(fn, arg):
                if low == 0:
                    # normal end: zero exactly for exit status zero
                    ok = r is not None and r.b[:8] == tuple(hi[:8]) and all(x == 0 for x in r.b[8:])
                elif low == 127:
                    ok = True        # stopped, not ended
                else:
                    ok = r is not None and any(x == 1 for x in r.b)
                if not ok:
                    rep.violation('%s:%s:%s' % (prog, STATUS, 'exit' if low == 0 else 'signal'), loc,
                                  'the result for a command that %s is not its %s' % (
                                      ('ended', 'exit status') if low == 0 else ('was killed by a signal', 'failure')))


class Command(Status):
    """only the status of commands is followed, not the messages"""

    def extra(s, ts, ins, cx):
        t = reports(s.mod, s.f, ins)
        if t is not None and 'warning' in t.lower():
            return frozenset(x for x in s.resolve(ts, cx) if x[0] == 'pend' or s.sites[x[1]][0].callee != 'system')
        return ts


def returned(rep, prog, mod):
    """the status of a command is handed up by every function that gets it"""
    fallible = runs_commands(mod)
    tk = taken(mod)
    threads = {o[1] for fn in lib.own(mod) for i in fn.calls('pthread_create') for o in lib.origins(fn, i.args[2]) if o[0] == 'g'}
    viol = {}
    while True:
        n = dict(fallible)
        indirect = {(mod.fns[f].rettype, len(mod.fns[f].params)): n[f] for f in tk if f in n}
        viol = {}
        for fn in lib.own(mod):
            if fn.name in threads:
                continue
            st = {k: v for k, v in status_sites(mod, fn, fallible, indirect).items() if v[0].callee not in SETUP and v[0].callee != 'system'}
            for i in fn.calls(STATUS):
                us = [u for u in fn.uses.get(i.res, ())] if i.res else []
                if us and not all(u.op == 'icmp' and any(a[0] == 'i' and a[1] for a in u.args) for u in us):
                    # a probe looks only at one particular status
                    st[i.res] = (i, 'nonzero')
            if not st:
                continue

            def lost(ins, site, how, cx, fn=fn):
                viol.setdefault((site.loc(), fn.name), (fn, ins, site, how, cx.trace()))
            r = Command(mod, fn, st, lost, (), rep)
            Engine(fn, r).run()
            if r.silent and retkind(fn) and fn.rettype != 'ptr' and fn.name != 'main':
                n[fn.name] = retkind(fn)
            for i, k in st.values():
                rep.count('calls that hand up the status of a command', 1, '%s:%s:%s' % (prog, lib.fname(i), i.callee))
        if n == fallible:
            break
        fallible = n
    for fn, ins, site, how, tr in viol.values():
        rep.violation('%s:%s:%s:lost' % (prog, fn.name, site.callee or 'indirect'), site.loc(),
                      'a command run by %s() %s, but %s (line %d) may return success' % (
                          site.callee or 'a rule', 'failed' if how != 'pend' else 'may have failed', fn.name, ins.line), tr)


def analyse(rep, prog, mod):
    if prog != 's':
        returned(rep, prog, mod)
    for fn in lib.own(mod):
        if not any(True for _ in fn.calls('fork', 'vfork')):
            continue
        r = Child(mod, fn)
        Engine(fn, r).run()
        for k, l in r.seen:
            rep.count(k, 1, '%s:%s:%d' % (prog, l[0], l[1]))
        for ins, what, msg, tr in r.bad.values():
            rep.violation('%s:%s:%s:%s' % (prog, lib.fname(ins), ins.callee or ins.op, what), ins.loc(), msg, tr)
    decoding(rep, prog, mod)


def run(rep, tier):
    rep.rule('In every function that forks, each pipe end and the child are followed on all paths: ends are closed exactly once, the child '
             'keeps only the ends that become its streams and never returns, nothing is read while the own write end is open, a transfer '
             'that can block while another stream of the child is unread needs a poll that reported this end (and a write at most PIPE_BUF '
             'bytes with SIGPIPE ignored), the child is waited for with all pipes closed or drained and interrupted waits are repeated, and '
             'the result depends on its status, both output streams are read to their end before success is possible, and every function that gets the status hands a failure up. The decoding of wait statuses is interpreted over bits for all signals and exit codes.')
    for prog, mod in lib.progs():
        analyse(rep, prog, mod)
    rep.floor('forks', 1)
    rep.floor('pipes', 1)
    rep.floor('transfers', 1)
    rep.floor('waits', 1)
    rep.floor('classes of wait statuses decoded', 128)
    m = frontend.snippet(r'''#include <unistd.h>
#include <signal.h>
#include <sys/wait.h>
void use(char*,long);
int bad(const char*in, unsigned long n){ int a[2],b[2],c[2]; if(pipe(a)<0||pipe(b)<0||pipe(c)<0) return 1; int p=fork(); if(p<0) return 1;
if(p==0){ close(b[0]); close(c[0]); dup2(a[0],0); dup2(b[1],1); dup2(c[1],2); execl("/bin/sh","sh",(char*)0); return 1; }
close(a[0]); close(b[1]); char buf[99]; long r; write(a[1],in,n); close(a[1]);
while((r=read(b[0],buf,99))>0) use(buf,r); while((r=read(c[0],buf,99))>0) use(buf,r); close(b[0]); close(c[0]); int st; waitpid(p,&st,0); return 0; }
int ok(void){ int a[2]; if(pipe(a)!=0) return 1; int p=fork(); if(p==-1){ close(a[0]); close(a[1]); return 1; }
if(!p){ close(a[0]); if(dup2(a[1],1)<0) _exit(2); execl("/bin/sh","sh",(char*)0); _exit(3); }
close(a[1]); char buf[99]; long r; while((r=read(a[0],buf,99))>0) use(buf,r); close(a[0]); int st; if(waitpid(p,&st,0)<0) return 1;
if(WIFEXITED(st)&&WEXITSTATUS(st)==0) return 0; return 2; }''')
    q = lib.Quiet()
    analyse(q, 's', m)
    rep.selftest('careless fork', {'s:bad:execl:inherit:a[1]', 's:bad:ret:escape', 's:bad:ret:leak:a[0]', 's:bad:read:eof', 's:bad:write:block', 's:bad:write:sigpipe',
                                   's:bad:read:block', 's:bad:ret:zombie', 's:bad:waitpid:wait'} <= set(q.v))
    m = frontend.snippet(r'''#include <stdlib.h>
int bc_compat_status_code(int w){ return w & 0x7f ? (w & 0x7f) + 128 : (w >> 8) & 0xff; }
int go(const char *c){ int st = system(c); return bc_compat_status_code(st); }
int odd(const char *c){ int r = go(c); return r & 1; }
int all(char **c){ int r = 0; for (int i = 0; c[i]; i++) r = go(c[i]); return r; }
int good(char **c){ int r = 0; for (int i = 0; c[i]; i++) { r = go(c[i]); if (r != 0) break; } return r == 127 ? 1 : r; }''')
    q2 = lib.Quiet()
    returned(q2, 't', m)
    rep.selftest('status handed up', set(q2.v) == {'t:odd:%s:lost' % STATUS, 't:all:%s:lost' % STATUS})
    rep.selftest('careful fork', not [x for x in q.v if ':ok:' in x and not x.endswith('zombie')])
