"""Temporary files and directories are removed, or handed to an owner that removes them, on every way out."""
from engine import frontend, ir, lib, facts, ditypes
from engine.paths import Sym, Rule, Engine

CREATE = {'mkdtemp': 'zero', 'mkstemp': 'neg', 'mkostemp': 'neg', 'mkstemps': 'neg', 'mkostemps': 'neg'}
EXITS = {'exit', '_exit', 'abort', '_Exit', 'quick_exit'}
EXECS = {'execl', 'execlp', 'execle', 'execv', 'execvp', 'execvpe', 'execve'}
OOM = {'bc_malloc', 'bc_realloc'}


def exiting(mod):
    """functions that may end the process (out of memory aside)"""
    r = set(EXITS)
    ch = True
    while ch:
        ch = False
        for fn in lib.own(mod):
            if fn.name in r or fn.name in OOM:
                continue
            if any(i.callee in r and not in_child(fn, i) for i in fn.calls()):
                r.add(fn.name)
                ch = True
    return r


def in_child(fn, ins):
    """the exit belongs to the child side of a fork"""
    for i in fn.calls('fork', 'vfork'):
        for v, c in lib.const_guards(fn, ins.block):
            if v == ('l', i.res) and c == 0:
                return True
    return False


class Temp(facts.Known):
    def __init__(s, fn, rep, prog, mod, producers, dels, exits):
        s.f, s.rep, s.prog, s.mod = fn, rep, prog, mod
        s.producers, s.dels, s.exits = producers, dels, exits
        s.removers = removers(mod, dels)
        tr = {}
        s.site = {}
        s.made = set()
        errs = {p for p, t in fn.params}
        for i in fn.instrs():
            if i.op == 'call' and i.res and (i.callee in CREATE or i.callee in producers):
                tr[i.res] = ('made', i.res)
                s.site[i.res] = i
                if i.callee in CREATE:
                    s.made |= lib.origins(fn, i.args[0])
                    s.made.add(('l', i.res)) if i.callee == 'mkdtemp' else None
                else:
                    s.made.add(('l', i.res))
            if i.op == 'load':
                b = lib.origins(fn, i.args[0], geps=False)
                if any(o[0] == 'l' and o[1] in errs and 'bc_error_t' in str(ditypes.typename(mod, deep(mod, ditypes.type_of(fn, o))))
                       for o in b):
                    tr[i.res] = ('err', i.res)
        super().__init__(tr)
        s.returns_it = False

    def names(s, op, cx):
        v = cx.val(op)
        if v[0] == 'c':
            return False
        if v[0] == 's':
            b = ('l', str(v[1]))
            if b in s.made:
                return True
            return bool(lib.origins(s.f, b, lib.COPIES) & s.made) if not str(v[1]).startswith('@') and str(v[1]) in s.f.defs else \
                bool(lib.origins(s.f, op, lib.COPIES) & s.made)
        return False

    def pending(s, ts):
        """creations on this path that are not known to have failed and were not removed"""
        r = []
        for x in ts:
            if x[0] == 'live':
                i = s.site[x[1]]
                bad = CREATE.get(i.callee, 'zero')
                if (('made', x[1]), bad) in ts:
                    continue
                if i.callee not in CREATE and any(isinstance(y[0], tuple) and y[0][0] == 'err' and y[1] == 'nonzero' for y in ts):
                    continue
                r.append(i)
        return r

    def event(s, ts, ins, cx):
        if ins.res in s.site:
            s.rep.count('creations followed', 1, '%s:%s' % (s.prog, lib.fname(ins)))
            # an error known before this point does not concern the new object
            return frozenset(x for x in ts if not (isinstance(x[0], tuple) and x[0][0] == 'err')
                             and x[0] not in ('flag', 'given')) | {('live', ins.res)}
        if ins.op == 'store' and any(x[0] == 'live' for x in ts):
            m = ditypes.member_at(s.f, ins.args[1])
            if m and m[1] == 'atom_template_tmp' and cx.null(cx.val(ins.args[0])) is False:
                ts = ts | {('flag', 1)}
            if m and m[1] == 'atom_template_fctx':
                d = s.f.defs.get(ins.args[0][1]) if ins.args[0][0] == 'l' else None
                if d is not None and d.op == 'call' and any(s.names(a, cx) for a in d.args):
                    ts = ts | {('given', 1)}
            return ts
        if ins.op == 'call':
            k = s.removers.get(ins.callee)
            if k is not None and k < len(ins.args) and s.names(ins.args[k], cx):
                s.rep.count('removals followed')
                ts = frozenset(x for x in ts if x[0] != 'live')
            if ins.callee in s.exits or ins.callee in EXECS and not in_child(s.f, ins):
                for i in s.pending(ts):
                    if in_child(s.f, ins):
                        continue
                    s.rep.violation('%s:exit:%s:%s:%s' % (s.prog, lib.fname(i), i.callee, ins.callee), ins.loc(),
                                    '%s() may end the process while the temporary object created at line %d still exists' % (
                                        ins.callee, i.line), cx.trace())
        return ts

    def exit(s, ts, ins, cx):
        if ins.op != 'ret':
            return
        s.rep.count('ways out checked')
        for i in s.pending(ts):
            if ins.args and ins.type == 'ptr' and s.names(ins.args[0], cx):
                s.returns_it = True
                continue
            if ('flag', 1) in ts and ('given', 1) in ts:
                s.rep.count('handed to the context with its flag')
                continue
            s.rep.violation('%s:left:%s:%s' % (s.prog, lib.fname(i), i.callee), i.loc(),
                            'the temporary object created here is left behind on a way out', cx.trace())


def deep(mod, ref):
    for _ in range(4):
        if isinstance(ref, tuple):
            ref = ref[1]
        p = ditypes.pointee(mod, ref)
        if p is None:
            return ref
        ref = p
    return ref


def removers(mod, dels):
    r = {'unlink': 0, 'rmdir': 0, 'remove': 0, 'unlinkat': 1}
    for d in dels:
        r[d] = 0
    ch = True
    while ch:
        ch = False
        for fn in lib.own(mod):
            if fn.name in r or len(fn.blocks) != 1:
                continue
            for i in fn.calls():
                if i.callee in r:
                    for k, (p, _) in enumerate(fn.params):
                        if i.args[r[i.callee]] == ('l', p):
                            r[fn.name] = k
                            ch = True
    return r


class Destructor(facts.Known):
    """the context gives up the template path only after removing a temporary template"""

    def __init__(s, fn, rep, prog, rem):
        s.f, s.rep, s.prog, s.rem = fn, rep, prog, rem
        super().__init__({i.res: ('flag', 1) for i in fn.instrs() if i.op == 'load' and
                          (ditypes.member_at(fn, i.args[0]) or ('', ''))[1] == 'atom_template_tmp'})

    def event(s, ts, ins, cx):
        if ins.op == 'call' and ins.callee in s.rem:
            return ts | {('removed', 1)}
        if ins.op == 'call' and ins.callee == 'bm_filectx_free' and s.is_template(ins.args[0]):
            s.rep.count('destructors checked', 1, '%s:%s' % (s.prog, lib.fname(ins)))
            if ('removed', 1) not in ts and (('flag', 1), 'zero') not in ts:
                s.rep.violation('%s:destructor:%s' % (s.prog, lib.fname(ins)), ins.loc(),
                                'forgets the path of the feed template without removing a temporary one', cx.trace())
        if ins.op == 'store' and (ditypes.member_at(s.f, ins.args[1]) or ('', ''))[1] == 'atom_template_tmp' \
                and ins.args[0] == ('i', 0) and ('removed', 1) not in ts and (('flag', 1), 'zero') not in ts:
            s.rep.violation('%s:flag:%s' % (s.prog, lib.fname(ins)), ins.loc(),
                            'forgets that the feed template is temporary without removing it', cx.trace())
        return ts

    def is_template(s, op):
        for o in lib.origins(s.f, op):
            d = s.f.defs.get(o[1]) if o[0] == 'l' else None
            if d is not None and d.op == 'load' and (ditypes.member_at(s.f, d.args[0]) or ('', ''))[1] == 'atom_template_fctx':
                return True
        return False


class Owner(facts.Known):
    """a context obtained from bm_ctx_new is released on every way out of the entry function"""

    def __init__(s, fn, rep, prog):
        s.f, s.rep, s.prog = fn, rep, prog
        super().__init__({i.res: ('ctx', i.res) for i in fn.calls('bm_ctx_new') if i.res})

    def event(s, ts, ins, cx):
        if ins.op == 'call' and ins.callee == 'bm_ctx_new' and ins.args[0] == ('null',):
            return ts | {('live', ins.res)}
        if ins.op == 'call' and ins.callee == 'bm_ctx_free':
            v = cx.val(ins.args[0])
            return frozenset(x for x in ts if not (x[0] == 'live' and v == ('s', x[1])))
        return ts

    def exit(s, ts, ins, cx):
        for x in ts:
            if x[0] == 'live' and (('ctx', x[1]), 'zero') not in ts:
                s.rep.violation('%s:context:%s' % (s.prog, s.f.name), s.f.defs[x[1]].loc(),
                                'the context (owner of the temporary feed template) is not released on a way out', cx.trace())


def scan(rep, prog, mod):
    dels = lib.recursive_deleters(mod)
    exits = exiting(mod)
    producers = set()
    done = set()
    while True:
        todo = [fn for fn in lib.own(mod) if fn.name not in done and
                any(i.callee in CREATE or i.callee in producers for i in fn.calls())]
        if not todo:
            break
        for fn in todo:
            done.add(fn.name)
            r = Temp(fn, rep, prog, mod, producers, dels, exits)
            facts.run(fn, r)
            if r.returns_it:
                producers.add(fn.name)
                done -= {c.name for c, _ in lib.callers(mod, fn.name)}
    for p in producers:
        rep.count('functions that return a temporary object', 1, '%s:%s' % (prog, p))
    rem = removers(mod, dels)
    for fn in lib.own(mod):
        if any(True for _ in fn.calls('bm_filectx_free')):
            facts.run(fn, Destructor(fn, rep, prog, rem))
        if any(i.args[0] == ('null',) for i in fn.calls('bm_ctx_new')):
            rep.count('owners of a context', 1, '%s:%s' % (prog, fn.name))
            facts.run(fn, Owner(fn, rep, prog))


def run(rep, tier):
    rep.rule('After mkdtemp/mkstemp succeeded, every way out of the function (return, or a call that may end the process) must '
             'have removed the object or returned its name; who receives the name takes over the obligation; storing it in the '
             'context together with the temporary flag hands it to the context destructor, which is checked to remove it, and the '
             'context is checked to be destroyed.')
    rep.assumption('out-of-memory exits of the allocator and signals are out of scope; a returned name is NULL when an error is set')
    for name in ('make', 'receiver', 'blogc', 'runserver'):
        scan(rep, name, ir.load(name))
    rep.floor('creations followed', 3, '(mkdtemp in the hook, mkstemp and its receiver in blogc-make)')
    rep.floor('destructors checked', 1)
    rep.floor('owners of a context', 1)
    m = frontend.snippet(r'''#include <stdlib.h>
#include <unistd.h>
int f(int c){ char d[]="/tmp/XXXXXX"; if(!mkdtemp(d)) return 1; if(c) return 2; if(c>3) exit(1); rmdir(d); return 0;}''')
    q = lib.Quiet()
    scan(q, 'x', m)
    rep.selftest('left on return', 'x:left:f:mkdtemp' in q.v)


