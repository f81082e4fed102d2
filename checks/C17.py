"""Every failure ends in a failing exit status."""
import re
from engine import frontend, ir, lib, ditypes, failure
from engine.paths import Engine, Sym
from engine.failure import Handled, reports, retkind, ERRS, EXITS

EXECS = {'execl', 'execlp', 'execle', 'execv', 'execvp', 'execvpe', 'execve'}
SETUP = {'socket': 'neg', 'bind': 'status', 'listen': 'status', 'pthread_create': 'nonzero', 'getaddrinfo': 'nonzero'}
SLEEP = {'sleep', 'usleep', 'nanosleep'}
STATUS = 'bc_compat_status_code'


def is_error(text):
    return re.search(r'\berror\b|\bfailed to\b|\bfatal\b', text.lower()) is not None and 'warning' not in text.lower()


def warning_types(mod):
    """error types that bc_error_print only prints as a warning"""
    fn = mod.fns.get('bc_error_print')
    r = set()
    if fn is None:
        return r
    for i in fn.instrs():
        t = reports(mod, fn, i)
        if t and 'warning' in t.lower():
            r |= {c for v, c in lib.const_guards(fn, i.block)}
    return r


def error_types(mod, name, memo={}):
    """constants given to the error constructors below a function"""
    r = set()
    reach, _ = lib.reachable(mod, [name])
    for f in reach:
        fn = mod.fns.get(f)
        if fn is None or f in ERRS:
            continue
        for i in fn.calls(*ERRS):
            r.add(i.args[0][1] if i.args[0][0] == 'i' else None)
    return r


def only_warns(mod, fn, ins, warn):
    """bc_error_print of an error that can only be of a warning type"""
    cells = lib.origins(fn, ins.args[0])
    srcs = set()
    for o in cells:
        d = fn.defs.get(o[1]) if o[0] == 'l' else None
        if d is None:
            return False
        if d.op == 'load':
            a = lib.origins(fn, d.args[0])
            for c in fn.calls():
                if c.callee in mod.fns and any(lib.origins(fn, x) & a for x in c.args):
                    srcs.add(c.callee)
        elif d.op == 'call' and d.callee in ERRS:
            if d.args[0][0] != 'i' or d.args[0][1] not in warn:
                return False
    srcs -= {'bc_error_print', 'bc_error_free'}
    t = set()
    for x in srcs:
        t |= error_types(mod, x)
    return bool(t) and t <= warn


class Status(Handled):
    def __init__(s, mod, fn, st, lost, warn, rep):
        super().__init__(fn, st, lost, retkind(fn))
        s.warn, s.rep = warn, rep
        s.ambiguous = False
        s.messages = set()

    def acks(s, ins, cx):
        # waiting for another attempt
        return ins.op == 'call' and ins.callee in SLEEP

    def extra(s, ts, ins, cx):
        if ins.op != 'call':
            return ts
        if ins.callee == 'bc_error_print':
            if not only_warns(s.mod, s.f, ins, s.warn):
                s.sites.setdefault('!%s' % id(ins), (ins, 'always'))
                return ts | {('fail', '!%s' % id(ins))}
            return ts
        if ins.callee in EXECS:
            s.sites.setdefault('!%s' % id(ins), (ins, 'always'))
            return ts | {('fail', '!%s' % id(ins))}
        t = reports(s.mod, s.f, ins)
        if t is not None and 'warning' in t.lower():
            # the outcome of an optional command
            return frozenset(x for x in s.resolve(ts, cx) if x[0] == 'pend' or s.sites[x[1]][0].callee != 'system')
        if t is not None and is_error(t):
            s.messages.add(ins.loc())
            s.sites.setdefault('!%s' % id(ins), (ins, 'always'))
            return ts | {('fail', '!%s' % id(ins))}
        return ts


    def finish(s, ts, ins, cx):
        if not ts and ins.op == 'ret' and ins.args and s.f.rettype == 'ptr' and cx.null(cx.val(ins.args[0])) is True:
            # nothing failed and the result is still NULL
            s.ambiguous = True
        super().finish(ts, ins, cx)


def status_sites(mod, fn, fallible, indirect):
    r = {}
    for i in fn.calls():
        if i.res is None:
            continue
        if i.callee in fallible:
            r[i.res] = (i, fallible[i.callee])
        elif i.callee in SETUP:
            r[i.res] = (i, SETUP[i.callee])
        elif i.callee is None and i.type in ('i32', 'i1', 'ptr'):
            k = indirect.get((i.type, len(i.args)))
            if k:
                r[i.res] = (i, k)
        elif i.callee == 'system':
            # a fixed command that discards its output only asks whether something is there
            t = mod.string(i.args[0])
            if t is not None and re.search(rb'(?<!2)> */dev/null', t):
                continue
            # commands whose outcome is tested as a whole (probes look at one particular status)
            if any(u.op == 'icmp' and ('i', 0) in u.args and ('l', i.res) in u.args for u in fn.instrs()) or not any(
                    ('l', i.res) in (u.args or ()) for u in fn.instrs()):
                r[i.res] = (i, 'nonzero')
    return r


def runs_commands(mod):
    """functions whose result is the status of a command"""
    r = {}
    for fn in lib.own(mod):
        if fn.name == STATUS:
            continue
        for i in failure.returns(fn):
            if i.args and any(o[0] == 'l' and o[1] in fn.defs and fn.defs[o[1]].op == 'call' and fn.defs[o[1]].callee == STATUS
                              for o in lib.origins(fn, i.args[0])):
                r[fn.name] = 'nonzero'
    return r


def taken(mod):
    t = set()
    for fn in lib.own(mod):
        for i in fn.instrs():
            for a in ir.operands(i):
                if i.op == 'call' and a is not None and i.callee and a == ('g', i.callee):
                    continue
                for x in ir.walk(a):
                    if x[0] == 'g' and x[1] in mod.fns:
                        t.add(x[1])
    for g in mod.globals.values():
        if g.init is not None:
            for x in ir.walk(g.init):
                if x[0] == 'g' and x[1] in mod.fns:
                    t.add(x[1])
    return t


def analyse(rep, prog, mod):
    warn = warning_types(mod)
    fallible = runs_commands(mod)
    tk = taken(mod)
    threads = set()
    for fn in lib.own(mod):
        for i in fn.calls('pthread_create'):
            threads |= {o[1] for o in lib.origins(fn, i.args[2]) if o[0] == 'g'}
    ambig = set()
    messages = set()
    while True:
        n = dict(fallible)
        indirect = {}
        for f in tk:
            if f in n and f in mod.fns:
                indirect[(mod.fns[f].rettype, len(mod.fns[f].params))] = n[f]
        viol = {}
        for fn in lib.own(mod):
            if fn.name in threads or fn.name == 'bc_error_print':
                continue
            st = status_sites(mod, fn, fallible, indirect)

            def lost(ins, site, how, cx, fn=fn):
                if how == 'pend' and site.callee not in fallible and site.callee not in SETUP and site.callee is not None and site.callee != 'system':
                    return
                viol.setdefault((site.loc(), fn.name), (fn, ins, site, how, cx.trace()))
            r = Status(mod, fn, st, lost, warn, rep)
            Engine(fn, r).run()
            messages |= r.messages
            if r.ambiguous:
                ambig.add(fn.name)
            if fn.name in ambig:
                # NULL does not tell the callers that something failed
                for x in r.silent:
                    viol.setdefault((x.loc(), fn.name), (fn, failure.returns(fn)[0], x, 'fail', None))
                continue
            if r.silent and retkind(fn) and fn.name not in ('main',):
                n[fn.name] = retkind(fn)
        if n == fallible:
            break
        fallible = n
    rep.count('functions whose result tells failure', len(fallible), prog + ':' + ','.join(sorted(fallible)))
    rep.count('error messages followed', len(messages))
    for fn in lib.own(mod):
        for i, k in status_sites(mod, fn, fallible, indirect).values():
            rep.count('calls whose failure must reach the exit status', 1, '%s:%s:%s' % (prog, lib.fname(i), i.callee))
    for fn, ins, site, how, tr in viol.values():
        what = site.callee or 'indirect call'
        t = reports(mod, fn, site)
        rep.violation('%s:%s:%s' % (prog, lib.fname(site), re.sub(r'[^a-z]+', '-', t.lower())[:40] if t else what), site.loc(),
                      ('an error is reported here' if t or what == 'bc_error_print' else 'a failure of %s() %s' % (what, 'is not tested' if how == 'pend' else 'is known'))
                      + ', but the function %s at line %d may still report success' % (fn.name, ins.line), tr)
    return viol


def run(rep, tier):
    rep.rule('Every error message, failed command and failed program start is followed along all paths: the function must return a value '
             'that means failure (non-zero, NULL or false) or exit with a non-zero status; its callers are checked in the same way, up to '
             'the exit status of the program. Messages marked as warnings and retry loops (that sleep) are excepted.')
    for prog, mod in lib.progs():
        analyse(rep, prog, mod)
    rep.floor('calls whose failure must reach the exit status', 10)
    rep.floor('error messages followed', 30)
    m = frontend.snippet(r'''#include <stdio.h>
#include <stdlib.h>
int cmd(const char*c);
int bad(int n){ int rv=0; for(int i=0;i<n;i++){ if(i==3){ fprintf(stderr,"x: error: three\n"); rv=1; continue; } rv=system(getenv("X")); if(rv!=0) return rv; } return rv; }
int bgr_shell(int n){ int rv=0; for(int i=0;i<n;i++){ if(i==3){ fprintf(stderr,"x: error: three\n"); rv=1; continue; } if(0!=system(getenv("X"))) return 1; } return rv; }
int lost(int n){ if(bgr_shell(n)) n=2; return 0; }''')
    q = lib.Quiet()
    analyse(q, 's', m)
    rep.selftest('forgotten status', {x.split(':')[1] for x in q.v} == {'bad', 'lost'})
