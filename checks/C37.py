"""No request and no client ends the web server: signals of closed connections, process exits, ways out of the accept loop."""
from engine import frontend, ir, lib, loops
from engine.paths import Rule, Engine, TooBig

DEADLY = {'exit', '_exit', '_Exit', 'quick_exit', 'abort', 'raise', 'kill', 'tgkill', 'killpg', 'pthread_kill', '__assert_fail', '__assert',
          'longjmp', 'siglongjmp', 'exit_group', 'err', 'errx', 'verr', 'verrx', 'llvm.trap', 'llvm.debugtrap', 'reboot', 'execv', 'execvp', 'execve',
          'execl', 'execlp', 'execle', 'pthread_exit_main_np', 'alarm', 'setitimer', 'setrlimit'}
ALLOC = {'malloc', 'calloc', 'realloc', 'strdup', 'strndup', 'reallocarray', 'aligned_alloc', 'bc_malloc', 'bc_realloc'}
WAITS = {'accept', 'accept4', 'pthread_create', 'pthread_join', 'pthread_detach', 'poll', 'ppoll', 'select', 'pselect', 'epoll_wait', '__errno_location',
         'pthread_attr_init', 'pthread_attr_setdetachstate', 'pthread_mutex_lock', 'pthread_mutex_unlock', 'pthread_cond_wait', 'sem_wait', 'sem_trywait'}
WRITES = {'write': 0, 'writev': 0, 'pwrite': 0, 'dprintf': 0, 'vdprintf': 0, 'fdopen': 0, 'sendfile': 0, 'splice': 2}
SENDS = {'send': 3, 'sendto': 3, 'sendmsg': 2}
SIGPIPE, IGN, NOSIGNAL = 13, 1, 0x4000


def address(op):
    """constant address, as in SIG_IGN"""
    for x in ir.walk(op):
        if x[0] == 'i':
            return x[1]
    return None


def starts(mod):
    """start routines of threads"""
    r = set()
    for fn in lib.own(mod):
        for i in fn.calls('pthread_create'):
            r |= {o[1] for o in lib.origins(fn, i.args[2]) if o[0] == 'g' and o[1] in mod.fns}
    return r


def no_memory(fn, block):
    """reached only when an allocation failed"""
    for b in fn.blocks.values():
        t = b.term
        if t.op != 'br' or len(t.extra) != 2 or t.extra[0] == t.extra[1]:
            continue
        d = fn.defs.get(t.args[0][1]) if t.args[0][0] == 'l' else None
        if d is None or d.op != 'icmp' or d.extra not in ('eq', 'ne') or d.args[1][0] != 'null':
            continue
        os = lib.origins(fn, d.args[0])
        if not os or not all(o[0] == 'l' and fn.defs.get(o[1]) is not None and fn.defs[o[1]].op == 'call' and
                             fn.defs[o[1]].callee in ALLOC for o in os):
            continue
        to = fn.blocks[t.extra[0 if d.extra == 'eq' else 1]]
        if to.preds == [b] and fn.bdom(to, block):
            return True
    return False


def deaths(rep, prog, mod, roots, what):
    seen, par = lib.reachable(mod, sorted(roots))
    for f in sorted(seen):
        if f not in mod.fns:
            continue
        fn = mod.fns[f]
        rep.count('functions that handle requests', 1, '%s:%s' % (prog, f))
        for i in fn.instrs():
            if i.op == 'call' and i.callee in DEADLY:
                rep.count('calls that end the process judged')
                if not no_memory(fn, i.block):
                    rep.violation('%s:%s:%s' % (prog, lib.fname(i), i.callee), i.loc(), '%s() can end or replace the whole server while %s' % (i.callee, what),
                                  lib.chain(par, f))
    return seen


class Pipe(Rule):
    """typestate: SIGPIPE ignored or blocked"""

    def __init__(s, prog, mod, servers, rep):
        s.prog, s.mod, s.servers, s.rep = prog, mod, servers, rep

    def init(s, fn):
        return frozenset()

    def instr(s, ts, i, cx):
        if i.op == 'store' and i.args[0][0] != 'l':
            # handlers written into an object
            return frozenset(x for x in ts if x[0] != 'h' or x[1] != cx.addr(i.args[1])) | {('h', cx.addr(i.args[1]), address(i.args[0]))}
        if i.op != 'call':
            return ts
        if i.callee in ('sigaction', 'signal', 'bsd_signal', 'sysv_signal') and i.args[0] == ('i', SIGPIPE):
            h = None
            if i.callee == 'sigaction':
                if i.args[1][0] == 'null':
                    return ts
                ad = cx.addr(i.args[1])
                for x in ts:
                    if x[0] == 'h' and x[1] == ad:
                        h = x[2]
            else:
                h = address(i.args[1])
            ts = ts - {('ign',)}
            # a handler that returns is as good as none
            if h == IGN or h is None and i.callee == 'signal' and i.args[1][0] == 'g' or h is None and i.callee == 'sigaction' and s.handler(i):
                ts = ts | {('ign',)}
        if i.callee == 'sigaddset' and i.args[1] == ('i', SIGPIPE) or i.callee == 'sigfillset':
            ts = ts | {('set', cx.addr(i.args[0]))}
        if i.callee in ('sigprocmask', 'pthread_sigmask') and i.args[0] in (('i', 0), ('i', 2)) and ('set', cx.addr(i.args[1])) in ts:
            ts = ts | {('ign',)}
        if i.callee in s.servers:
            s.rep.count('starts of the server judged')
            if ('ign',) not in ts:
                s.rep.violation('%s:%s:SIGPIPE' % (s.prog, lib.fname(i)), i.loc(), 'the server is started while a connection closed by the client '
                                'still kills the process (SIGPIPE is not ignored)', cx.trace())
        return ts

    def handler(s, i):
        """a function is installed (its address is stored in the object)"""
        fn = i.fn
        for j in fn.instrs():
            if j.op == 'store' and j.args[0][0] == 'g' and j.args[0][1] in s.mod.fns:
                base = next((x for x in ir.walk(i.args[1]) if x[0] == 'l'), None)
                d = fn.defs.get(j.args[1][1]) if j.args[1][0] == 'l' else None
                if j.args[1] == base or d is not None and d.op == 'getelementptr' and d.args[0] == base:
                    return True
        return False


def signals(rep, prog, mod, handling, routines):
    """sockets written without protection against SIGPIPE"""
    plain = []
    for f in sorted(handling):
        fn = mod.fns.get(f)
        for i in fn.instrs() if fn else ():
            if i.op != 'call':
                continue
            if i.callee in WRITES and i.args[WRITES[i.callee]] not in (('i', 1), ('i', 2)):
                rep.count('writes to connections')
                plain.append(i)
            elif i.callee in SENDS:
                rep.count('writes to connections')
                k = i.args[SENDS[i.callee]]
                if k[0] != 'i' or not k[1] & NOSIGNAL:
                    plain.append(i)
    if not plain:
        return
    for f in routines:
        fn = mod.fns[f]
        for i in fn.calls('pthread_sigmask'):
            if any(j.args[1] == ('i', SIGPIPE) and j.args[0] == i.args[1] for j in fn.calls('sigaddset')) and i.args[0] == ('i', 0) and \
                    fn.bdom(i.block, fn.blocks[next(iter(fn.blocks))]):
                return
    cg = lib.callgraph(mod)
    servers = {f for f in mod.fns if any(i.callee == 'pthread_create' for i in mod.fns[f].instrs() if i.op == 'call')}
    while True:
        new = {f for f in mod.fns if f != 'main' and f not in servers and cg[f] & servers}
        if not new:
            break
        servers |= new
    main = mod.fns['main']
    try:
        Engine(main, Pipe(prog, mod, servers | ({'pthread_create'} if 'main' in servers else set()), rep), 200000).run()
    except TooBig:
        rep.count('programs not decided (signals)')
    # nobody takes the protection away again
    seen, _ = lib.reachable(mod, sorted(servers | set(routines)))
    for f in sorted(x for x in seen if x in mod.fns):
        for i in mod.fns[f].calls('signal', 'sigaction'):
            if i.args[0] == ('i', SIGPIPE) and i.callee == 'signal' and address(i.args[1]) in (0, None) and i.args[1][0] != 'g':
                rep.violation('%s:%s:SIGPIPE default' % (prog, lib.fname(i)), i.loc(), 'the signal of a closed connection becomes deadly again while serving')


def sources(loop, op, seen=None):
    """what the value of a condition is made of"""
    seen = set() if seen is None else seen
    out = set()
    for x in ir.walk(op):
        if x[0] != 'l' or x in seen:
            continue
        seen.add(x)
        d = loop.fn.defs.get(x[1])
        if d is None:
            out.add(('param', x[1]))
        elif d.op == 'phi':
            for v, _ in d.extra:
                out |= sources(loop, v, seen)
            if d.block == loop.header:
                out.add(('count', d))
        elif d.op == 'call':
            if not (d.callee or '').startswith('llvm.'):
                out.add(('call', d))
        elif d.op == 'load':
            out.add(('load', d))
            for y in ir.walk(d.args[0]):
                if y[0] == 'l':
                    e = loop.fn.defs.get(y[1])
                    if e is not None and e.op == 'call' and e.callee != '__errno_location':
                        out.add(('call', e))
        else:
            for a in ir.operands(d):
                out |= sources(loop, a, seen)
    return out


def ways_out(rep, prog, mod):
    for fn in lib.own(mod):
        for c in fn.calls('accept', 'accept4'):
            ls = [l for l in loops.inner(fn, c.block) if any(i.op == 'call' and i.callee == 'pthread_create' for b in l.body for i in b.instrs)]
            if not ls:
                if any(fn.calls('pthread_create')):
                    rep.violation('%s:%s:no loop' % (prog, lib.fname(c)), c.loc(), 'only one connection is ever accepted')
                continue
            l = ls[-1]
            rep.count('accept loops')
            after = set()
            todo = [c.block]
            while todo:
                b = todo.pop()
                if b in l.body and b not in after:
                    after.add(b)
                    todo += [s for s in loops.succs(fn, b) if s is not l.header]
            for b in sorted(l.body, key=lambda b: b.name):
                outs = [s for s in loops.succs(fn, b) if s not in l.body]
                if not outs:
                    continue
                t = b.term
                rep.count('ways out of the accept loop judged')
                src = sources(l, t.args[0])
                calls = {x[1].callee for x in src if x[0] == 'call'}
                if calls & WAITS or calls & ALLOC:
                    continue
                why = None
                if calls:
                    why = 'the result of %s()' % sorted(str(x) for x in calls)[0]
                elif src and all(x[0] in ('count', 'param') for x in src) and any(x[0] == 'count' for x in src):
                    why = 'a count of connections'
                elif not src:
                    why = 'no condition'
                if why is not None:
                    rep.violation('%s:%s:leaves:%s' % (prog, lib.fname(t), why.split(' of ')[-1].rstrip('()')), t.loc(), 'the server stops accepting connections because of %s' % why)
            inside = {i.callee for b in l.body for i in b.instrs if i.op == 'call' and i.callee}
            deaths(rep, prog, mod, {f for f in inside if f in mod.fns}, 'a connection is accepted')
            for b in l.body:
                for i in b.instrs:
                    if i.op == 'call' and i.callee in DEADLY:
                        rep.violation('%s:%s:%s' % (prog, lib.fname(i), i.callee), i.loc(), '%s() can end the server while a connection is accepted' % i.callee)
                    if i.op == 'call' and i.callee in ('close', 'shutdown') and i.args[0] == c.args[0]:
                        rep.violation('%s:%s:listener' % (prog, lib.fname(i)), i.loc(), 'the listening socket is closed while the server goes on')


def analyse(rep, prog, mod):
    if not any(i.op == 'call' and i.callee in ('accept', 'accept4') for fn in mod.fns.values() for i in fn.instrs()):
        return
    r = starts(mod)
    rep.count('start routines', len(r))
    if not r:
        return
    handling = deaths(rep, prog, mod, r, 'a request is handled')
    signals(rep, prog, mod, handling, r)
    ways_out(rep, prog, mod)


GOOD = dict(ign='SIG_IGN', dead='', out='if(c==-1) break;', flag='')
BASE = r'''#include <stdlib.h>
#include <stdio.h>
#include <string.h>
#include <unistd.h>
#include <signal.h>
#include <pthread.h>
#include <sys/socket.h>
void *bc_malloc(size_t n){ void *p=malloc(n); if(p==NULL) abort(); return p; }
static void *work(void *a){ int fd=*(int*)a; free(a); char b[10]; ssize_t n=read(fd,b,10); %(dead)s if(n>0 && n!=write(fd,b,n)) fprintf(stderr,"x"); close(fd); return NULL; }
int bc_serve(int s){ pthread_t t; size_t done=0; while(1){ int c=accept(s,NULL,NULL); %(out)s int *p=bc_malloc(sizeof(int)); *p=c;
 if(pthread_create(&t,NULL,work,p)!=0) return 1; if(pthread_join(t,NULL)) return 1; done++; } return 0; }
int main(int argc,char **argv){ struct sigaction a; a.sa_handler=%(ign)s; sigemptyset(&a.sa_mask); a.sa_flags=0; sigaction(SIGPIPE,&a,NULL); return bc_serve(atoi(argv[1])); }'''


def run(rep, tier):
    rep.rule('In every program that accepts connections: nothing reachable from a start routine, or from inside of the accept loop, calls a function that ends or replaces the '
             'process, except where an allocation failed. Whatever writes to a connection does it with MSG_NOSIGNAL, or SIGPIPE is ignored, blocked or '
             'handled on every path of main to the server, and not made deadly again. The accept loop is left only on a condition made '
             'from the results of accepting, of starting or joining a thread, of waiting, or of a stop flag in memory.')
    rep.assumption('failing allocation, accept, pthread_create and pthread_join are failures of the system; crashes are covered by C21 to C23 and C36')
    for prog, mod in lib.progs():
        analyse(rep, prog, mod)
    rep.floor('start routines', 1)
    rep.floor('functions that handle requests', 10)
    rep.floor('accept loops', 1)
    rep.floor('ways out of the accept loop judged', 1)
    rep.floor('writes to connections', 1)

    def ex(**kw):
        q = lib.Quiet()
        analyse(q, 'x', frontend.snippet(BASE % dict(GOOD, **kw)))
        return q.v
    rep.selftest('clean', ex() == [])
    rep.selftest('SIGPIPE', ex(ign='SIG_DFL') != [])
    rep.selftest('exit in a worker', ex(dead='if(n<0) exit(1);') != [])
    rep.selftest('counted', ex(out='if(c==-1) break; if(done>5) return 0;') != [])
    rep.selftest('client', ex(out='if(c==-1) break; char x; if(recv(c,&x,1,MSG_PEEK)<=0) break;') != [])
