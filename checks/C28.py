"""Data shared between threads and signal handlers: locksets, lock pairing, handler bodies, thread arguments."""
from engine import frontend, ir, lib, ditypes, effects, resource
from engine.paths import Rule, Engine, Sym
from engine.ir import walk

LOCK = {'pthread_mutex_lock': 'x', 'pthread_rwlock_wrlock': 'x', 'pthread_rwlock_rdlock': 'r', 'pthread_spin_lock': 'x', 'mtx_lock': 'x'}
TRY = {'pthread_mutex_trylock': 'x', 'pthread_mutex_timedlock': 'x', 'pthread_rwlock_trywrlock': 'x', 'pthread_rwlock_tryrdlock': 'r',
       'pthread_spin_trylock': 'x', 'mtx_trylock': 'x'}
UNLOCK = {'pthread_mutex_unlock', 'pthread_rwlock_unlock', 'pthread_spin_unlock', 'mtx_unlock'}
SYNC = set(LOCK) | set(TRY) | UNLOCK | {
    'pthread_mutex_init', 'pthread_mutex_destroy', 'pthread_cond_wait', 'pthread_cond_signal', 'pthread_cond_broadcast',
    'pthread_cond_timedwait', 'pthread_once', 'sem_wait', 'sem_post', 'sem_init', 'pthread_rwlock_init', 'pthread_key_create',
    'pthread_getspecific', 'pthread_setspecific'}

# POSIX: functions that may be called from a signal handler
ASYNC_SAFE = set('''_Exit _exit abort accept access alarm bind cfgetispeed chdir chmod clock_gettime close connect creat dup dup2 execl
execle execv execve faccessat fchmod fchdir fcntl fdatasync fexecve fork fstat fsync ftruncate getegid geteuid getgid getpeername getpgrp
getpid getppid getsockname getsockopt getuid kill link listen longjmp lseek lstat memccpy memchr memcmp memcpy memmove memset mkdir mkfifo
mknod nanosleep open openat pause pipe poll pselect pthread_kill pthread_self pthread_sigmask raise read readlink recv recvfrom recvmsg
rename rmdir select sem_post send sendmsg sendto setgid setpgid setsid setsockopt setuid shutdown sigaction sigaddset sigdelset
sigemptyset sigfillset sigismember signal sigpause sigpending sigprocmask sigqueue sigset sigsuspend sleep sockatmark socket socketpair
stat stpcpy stpncpy strcat strchr strcmp strcpy strcspn strlen strncat strncmp strncpy strnlen strpbrk strrchr strspn strstr symlink
sysconf time timer_getoverrun timer_gettime timer_settime times umask uname unlink utime utimensat wait waitpid write
__errno_location'''.split())

# not safe to call from two threads at once
UNSAFE = set('''strtok gmtime localtime asctime ctime getpwnam getpwuid getgrnam getgrgid gethostbyname gethostbyaddr inet_ntoa getservbyname
getservbyport getprotobyname rand drand48 lrand48 ttyname tmpnam strsignal localeconv nl_langinfo setlocale getopt ecvt fcvt l64a crypt
hcreate hsearch ctermid cuserid getlogin getmntent ptsname getpwent getgrent gethostent mblen mbtowc wctomb'''.split())
PROCESS = set('chdir fchdir umask setuid setgid seteuid setegid setsid chroot setpriority'.split())
ENVW = {'setenv', 'putenv', 'unsetenv', 'clearenv'}
ENVR = {'getenv', 'secure_getenv'}


class Acc:
    """what a function touches, with the locks held meanwhile.
    A[f]: {(target, 'r'|'w'): (locks, instruction)}; targets: ('g', name), parameter index, ('e',) the environment"""

    def __init__(s, prog, mod, rep, started):
        s.prog, s.mod, s.rep = prog, mod, rep
        s.eff = effects.Effects(mod)
        s.shared = {g.name for g in mod.globals.values() if not g.const and not g.extern and not g.name.startswith('.str')}
        s.entryfns = started
        s.held = {}
        for fn in lib.own(mod):
            s.held[fn] = s.locksets(fn)
        s.A = {f: {} for f in mod.fns}
        s.reads = {}
        ch, n = True, 0
        while ch and n < 30:
            ch, n = False, n + 1
            for fn in lib.own(mod):
                new = s.scan(fn, None)
                if {k: v[0] for k, v in new.items()} != {k: v[0] for k, v in s.A[fn.name].items()}:
                    ch = True
                    s.A[fn.name] = new

    # ---- locks
    def lockname(s, fn, op):
        b, off = ditypes.base_off(fn, op)
        if b[0] == 'g':
            return '%s+%s' % (b[1], off) if off else b[1]
        m = ditypes.member_at(fn, op)
        return '%s.%s' % (m[0], m[1]) if m else '?'

    def locksets(s, fn):
        """{instruction: locks certainly held}"""
        if not any(i.callee in LOCK or i.callee in TRY or i.callee in UNLOCK for i in fn.calls()):
            return {}
        h = Held(s, fn)
        Engine(fn, h, 400000).run()
        return h.at

    # ---- targets
    def targets(s, fn, op, seen=None):
        """globals, parameters and (in start routines) parts of the argument a value may lead to"""
        r = set()
        s._tg(fn, op, r, set())
        return r

    def _tg(s, fn, op, out, seen):
        if op[0] == 'gep':
            return s._tg(fn, op[1], out, seen)
        if op[0] == 'cast':
            return s._tg(fn, op[2], out, seen)
        if op[0] == 'g':
            if op[1] in s.shared:
                out.add(('g', op[1]))
            return
        if op[0] != 'l' or op in seen:
            return
        seen.add(op)
        d = fn.defs.get(op[1])
        if d is None:
            for k, (p, t) in enumerate(fn.params):
                if p == op[1] and t == 'ptr':
                    out.add(k)
            return
        if d.op in ('phi', 'select'):
            for v in ([v for v, _ in d.extra] if d.op == 'phi' else d.args[1:]):
                s._tg(fn, v, out, seen)
        elif d.op in ('getelementptr', 'bitcast', 'inttoptr', 'ptrtoint', 'freeze'):
            s._tg(fn, d.args[0], out, seen)
        elif d.op == 'load':
            if d.type != 'ptr':
                return
            b, off = ditypes.base_off(fn, d.args[0])
            bd = fn.defs.get(b[1]) if b[0] == 'l' else None
            if bd is not None and bd.op == 'alloca':
                for i in fn.instrs():
                    if i.op == 'store' and ditypes.base_off(fn, i.args[1])[0] == b:
                        s._tg(fn, i.args[0], out, seen)
                return
            if fn.name in s.entryfns and b[0] == 'l' and fn.params and b[1] == fn.params[0][0]:
                out.add(('f', off))
                return
            s._tg(fn, d.args[0], out, seen)
        elif d.op == 'call':
            for t in s.eff.targets(d):
                for k in s.eff.ret[t]:
                    if k < len(d.args):
                        s._tg(fn, d.args[k], out, seen)
                for g in s.retglobals(t):
                    out.add(('g', g))
            if d.callee in effects.RET_EXT and d.callee not in s.mod.fns:
                s._tg(fn, d.args[effects.RET_EXT[d.callee]], out, seen)

    def retglobals(s, f):
        if not hasattr(s, '_rg'):
            s._rg = {}
        if f not in s._rg:
            s._rg[f] = set()
            fn = s.mod.fns[f]
            if fn.rettype == 'ptr':
                for i in fn.instrs():
                    if i.op == 'ret' and i.args:
                        s._rg[f] |= {t[1] for t in s.targets(fn, i.args[0]) if isinstance(t, tuple) and t[0] == 'g'}
        return s._rg[f]

    def touches(s, fn, i):
        """[(target, kind, locks inside the callee, where)]"""
        r = []
        if i.op in ('load', 'store'):
            a = i.args[1 if i.op == 'store' else 0]
            if i.uid and 'atomic' in i.uid:
                return r
            for t in s.targets(fn, a):
                r.append((t, 'w' if i.op == 'store' else 'r', frozenset(), i))
            return r
        if i.op != 'call':
            return r
        c = i.callee
        if c in SYNC or c is not None and c.startswith('llvm.dbg') or c is not None and c.startswith('llvm.lifetime'):
            return r
        if c in ENVW or c in ENVR:
            r.append((('e',), 'w' if c in ENVW else 'r', frozenset(), i))
        if c is not None and c not in s.mod.fns:
            if c in ('pthread_create',):
                return r
            w = effects.WRITE_EXT.get(c, ())
            for k, a in enumerate(i.args):
                for t in s.targets(fn, a):
                    r.append((t, 'w' if k in w else 'r', frozenset(), i))
            return r
        for t in s.eff.targets(i):
            for (tg, kind), (locks, ins) in s.A[t].items():
                if isinstance(tg, int):
                    if tg < len(i.args):
                        for x in s.targets(fn, i.args[tg]):
                            r.append((x, kind, locks, i))
                elif tg[0] in ('g', 'e'):
                    r.append((tg, kind, locks, ins))
        return r

    def scan(s, fn, only):
        out = {}
        for i in fn.instrs():
            if only is not None and i not in only:
                continue
            for t, kind, locks, ins in s.touches(fn, i):
                locks = locks | s.held[fn].get(i, frozenset())
                k = (t, kind)
                if k in out:
                    if not out[k][0] <= locks:
                        out[k] = (out[k][0] & locks, ins if not out[k][0] & locks or len(locks) < len(out[k][0]) else out[k][1])
                else:
                    out[k] = (locks, ins)
        return out

    # ---- after
    def after(s, is_start):
        """{function: accesses that may happen after one of the chosen calls made in it or below it}"""
        below = {f: False for f in s.mod.fns}
        ch = True
        while ch:
            ch = False
            for fn in lib.own(s.mod):
                if not below[fn.name] and any(is_start(i) or any(below[t] for t in s.eff.targets(i)) for i in fn.calls()):
                    below[fn.name] = ch = True
        memo = {}
        return s._after('main', is_start, below, memo) if 'main' in s.mod.fns else {}

    def _after(s, f, is_start, below, memo):
        if f in memo:
            return memo[f]
        memo[f] = {}
        fn = s.mod.fns[f]
        starts = [i for i in fn.calls() if is_start(i) or any(below[t] for t in s.eff.targets(i))]
        late = set()
        for c in starts:
            late |= following(c)
        out = s.scan(fn, late)
        for c in starts:
            if c in late:
                continue
            h = s.held[fn].get(c, frozenset())
            for t in s.eff.targets(c):
                if below[t]:
                    for (tg, kind), (locks, ins) in s._after(t, is_start, below, memo).items():
                        ks = [tg] if not isinstance(tg, int) else (s.targets(fn, c.args[tg]) if tg < len(c.args) else [])
                        for x in ks:
                            k = (x, kind)
                            if k not in out or not out[k][0] <= locks | h:
                                out[k] = ((locks | h) & (out[k][0] if k in out else locks | h), ins)
        memo[f] = out
        return out


def following(c):
    """instructions that may run after c, in the same function"""
    r = set(c.block.instrs[c.block.instrs.index(c) + 1:])
    seen, work = set(), list(c.block.succs)
    while work:
        b = work.pop()
        if b in seen:
            continue
        seen.add(b)
        r |= set(b.instrs)
        work.extend(b.succs)
    return r


class Held(Rule):
    """ts: held ('x'|'r', lock), ('pend', symbol, kind, lock)"""

    def __init__(s, acc, fn):
        s.a, s.f = acc, fn
        s.at = {}

    def init(s, fn):
        return frozenset()

    def bad(s, key, ins, msg, cx):
        s.a.rep.violation('%s:%s:%s' % (s.a.prog, lib.fname(ins), key), ins.loc(), msg, cx.trace())

    def instr(s, ts, ins, cx):
        locks = frozenset(x[1] for x in ts if x[0] in 'xr' and len(x) == 2)
        s.at[ins] = s.at[ins] & locks if ins in s.at else locks
        if ins.op != 'call':
            return ts
        c = ins.callee
        if c in LOCK:
            l = s.a.lockname(s.f, ins.args[0])
            s.a.rep.count('lock operations checked', 1, '%s:%s:%s' % (s.a.prog, lib.fname(ins), ins.line))
            if (LOCK[c], l) in ts and l != '?':
                s.bad('locked-twice', ins, 'takes %s while already holding it: the thread waits for itself' % l, cx)
            return ts | {(LOCK[c], l)}
        if c in UNLOCK:
            l = s.a.lockname(s.f, ins.args[0])
            s.a.rep.count('lock operations checked', 1, None)
            if not any(x[1] == l for x in ts if len(x) == 2):
                s.bad('not-held', ins, 'releases %s without holding it' % l, cx)
            return frozenset(x for x in ts if x[1] != l)
        if locks and (c == 'pthread_join' or c in ('sleep', 'usleep', 'system', 'accept')):
            s.bad('waits', ins, 'calls %s while holding %s' % (c, ', '.join(sorted(locks))), cx)
        if locks and c is not None and c in s.a.mod.fns:
            inner = s.a.takes(c)
            for l in sorted(locks & inner):
                s.bad('locked-twice', ins, 'calls %s, which takes %s, while holding it' % (c, l), cx)
        return ts

    def after(s, ts, ins, cx):
        if ins.op == 'call' and ins.callee in TRY:
            return ts | {('pend', cx.val(('l', ins.res)), TRY[ins.callee], s.a.lockname(s.f, ins.args[0]))}
        return ts

    def edge(s, ts, frm, to, cx):
        for x in list(ts):
            if x[0] == 'pend':
                z = cx.null(x[1])
                if z is True:
                    ts = ts - {x} | {(x[2], x[3])}
                elif z is False:
                    ts = ts - {x}
        return ts

    def exit(s, ts, ins, cx):
        for x in ts:
            if len(x) == 2:
                s.bad('still-held', ins, 'returns while holding %s' % x[1], cx)


def takes(s, f):
    if not hasattr(s, '_takes'):
        s._takes = {}
    if f not in s._takes:
        s._takes[f] = set()
        fn = s.mod.fns[f]
        r = set()
        for i in fn.calls():
            if i.callee in LOCK:
                r.add(s.lockname(fn, i.args[0]))
            elif i.callee in s.mod.fns:
                r |= s.takes(i.callee)
        s._takes[f] = r
    return s._takes[f]


Acc.takes = takes


class Handed(Rule):
    """after a thread was started with an object, its creator leaves the object alone"""

    def __init__(s, acc, fn, create):
        s.a, s.f, s.c = acc, fn, create
        s.objs = {o for o in resource.direct(fn, create.args[3]) if o[0] in 'lg'}

    def init(s, fn):
        return ()

    def base(s, op):
        b, _ = ditypes.base_off(s.f, op)
        return b in s.objs or any(o in s.objs for o in resource.direct(s.f, b))

    def instr(s, ts, ins, cx):
        if not ts:
            return ts
        if ins.res is not None and ('l', ins.res) in s.objs and ins.op == 'call':
            return ()
        if ins.op == 'call' and ins.callee in ('pthread_join',):
            return ()
        hit = None
        if ins.op == 'store' and s.base(ins.args[1]):
            hit = 'writes'
        elif ins.op == 'load' and s.base(ins.args[0]):
            hit = 'reads'
        elif ins.op == 'call' and ins is not s.c and ins.callee not in SYNC and not (ins.callee or '').startswith('llvm.'):
            if any(a[0] in 'lg' and s.base(a) for a in ins.args):
                hit = 'passes on'
        if hit and cx.null(ts[1]) is not False:
            s.a.rep.violation('%s:%s:argument-used' % (s.a.prog, lib.fname(ins)), ins.loc(),
                              '%s the object that was handed to the thread started at line %s' % (hit, s.c.line), cx.trace())
            return ()
        return ts

    def after(s, ts, ins, cx):
        if ins is s.c:
            return ('handed', cx.val(('l', ins.res)) if ins.res else ('s', Sym('?')))
        return ts


def starts(mod):
    r = []
    for fn in lib.own(mod):
        for i in fn.calls('pthread_create', 'thrd_create'):
            k = 2 if i.callee == 'pthread_create' else 1
            r.append((fn, i, [o[1] for o in lib.origins(fn, i.args[k]) if o[0] == 'g' and o[1] in mod.fns]))
    return r


def handlers(mod):
    """[(function, registering call, handler names)]"""
    r = []
    for fn in lib.own(mod):
        for i in fn.calls('signal', 'sigset', 'bsd_signal'):
            hs = [o[1] for o in lib.origins(fn, i.args[1]) if o[0] == 'g' and o[1] in mod.fns]
            if hs:
                r.append((fn, i, hs))
        for i in fn.calls('sigaction'):
            if i.args[1] == ('null',):
                continue
            bs = {ditypes.base_off(fn, o)[0] for o in lib.origins(fn, i.args[1])}
            hs = set()
            for st in fn.instrs():
                if st.op == 'store' and ditypes.base_off(fn, st.args[1])[0] in bs:
                    hs |= {o[1] for o in lib.origins(fn, st.args[0]) if o[0] == 'g' and o[1] in mod.fns}
            if hs:
                r.append((fn, i, sorted(hs)))
    return r


def incycle(i):
    seen, work = set(), list(i.block.succs)
    while work:
        b = work.pop()
        if b is i.block:
            return True
        if b not in seen:
            seen.add(b)
            work.extend(b.succs)
    return False


def reach(acc, roots):
    """[(function name, call)] library calls and the functions visited from the roots, following callbacks"""
    seen, work, ext = set(), list(roots), {}
    while work:
        f = work.pop()
        if f in seen:
            continue
        seen.add(f)
        for i in acc.mod.fns[f].calls():
            ts = acc.eff.targets(i)
            work.extend(ts)
            if i.callee is not None and i.callee not in acc.mod.fns:
                ext.setdefault(i.callee, i)
                if i.callee not in ('pthread_create', 'thrd_create', 'sigaction', 'signal'):
                    for a in i.args:
                        for o in lib.origins(acc.mod.fns[f], a):
                            if o[0] == 'g' and o[1] in acc.mod.fns:
                                work.append(o[1])
    return seen, ext


def borrowed(acc, fn, create):
    """{offset in the argument: targets of the creator its content leads to}"""
    r = {}
    objs = [o for o in resource.direct(fn, create.args[3]) if o[0] == 'l']
    for o in objs:
        d = fn.defs.get(o[1])
        if d is None or d.op not in ('call', 'alloca'):
            r.setdefault(None, set()).update(acc.targets(fn, o))
            continue
        content(acc, fn, o, None, r, set())
    return r


def content(acc, fn, o, top, r, seen):
    if o in seen:
        return
    seen.add(o)
    for st in fn.instrs():
        if st.op == 'store':
            b, off = ditypes.base_off(fn, st.args[1])
            if b != o and not (b[0] == 'l' and b in {x for x in lib.origins(fn, o)}):
                bd = fn.defs.get(b[1]) if b[0] == 'l' else None
                # a store through a pointer loaded from the object
                if not (bd is not None and bd.op == 'load' and ditypes.base_off(fn, bd.args[0])[0] == o):
                    continue
                if top is None:
                    off = ditypes.base_off(fn, bd.args[0])[1]
            t = off if top is None else top
            v = st.args[0]
            r.setdefault(t, set()).update(acc.targets(fn, v))
            for x in resource.direct(fn, v):
                xd = fn.defs.get(x[1]) if x[0] == 'l' else None
                if xd is not None and xd.op in ('call', 'alloca'):
                    if xd.op == 'alloca':
                        r.setdefault(t, set()).add(('a', x[1]))
                    content(acc, fn, x, t, r, seen)
        elif st.op == 'call' and (st.callee or '').startswith(('llvm.memcpy', 'memcpy', 'llvm.memmove', 'memmove')):
            b, off = ditypes.base_off(fn, st.args[0])
            bd = fn.defs.get(b[1]) if b[0] == 'l' else None
            if b == o or bd is not None and bd.op == 'load' and ditypes.base_off(fn, bd.args[0])[0] == o:
                t = top
                if top is None and b != o:
                    t = ditypes.base_off(fn, bd.args[0])[1]
                r.setdefault(t, set()).update(acc.targets(fn, st.args[1]))


def tname(t):
    return t[1] if t[0] == 'g' else 'the environment'


def analyse(rep, prog, mod):
    st, hd = starts(mod), handlers(mod)
    entries = sorted({e for _, _, es in st for e in es})
    hs = sorted({h for _, _, x in hd for h in x})
    acc = Acc(prog, mod, rep, set(entries))
    rep.count('functions explored', len(mod.fns), prog)
    rep.count('threads started', len(st), prog)
    rep.count('signal handlers', len(hs), None)
    ctxs = []
    if st:
        create = {i for _, i, _ in st}
        ctxs.append(('the main thread', acc.after(lambda i: i in create), False))
        for e in entries:
            multi = sum(1 for _, i, es in st if e in es) > 1 or any(incycle(i) for _, i, es in st if e in es) or \
                any(incycle(c) for fn, i, es in st if e in es for _, c in lib.callers(mod, fn.name))
            ctxs.append((e, acc.A[e], multi))
    # ---- shared variables
    names = sorted({k[0] for _, a, _ in ctxs for k in a if isinstance(k[0], tuple) and k[0][0] in ('g', 'e')}, key=repr)
    for t in names:
        users = [(n, kind, a[(t, kind)], m) for n, a, m in ctxs for kind in 'wr' if (t, kind) in a]
        if len({u[0] for u in users}) < 2 and not any(u[3] for u in users):
            continue
        rep.count('shared variables checked', 1, '%s:%s' % (prog, tname(t)))
        if atomic(mod, t):
            continue
        for x in users:
            for y in users:
                if x[1] != 'w' or x is y and not x[3] or x[0] == y[0] and not x[3]:
                    continue
                if x[2][0] & y[2][0]:
                    continue
                # blame the access that holds less
                w = x if len(x[2][0]) <= len(y[2][0]) else y
                o = y if w is x else x
                rep.violation('%s:race:%s' % (prog, tname(t)), w[2][1].loc(),
                              '%s %s %s (in %s) while holding %s; %s %s it (line %s) while holding %s' % (
                                  w[0], 'writes' if w[1] == 'w' else 'reads', tname(t), lib.fname(w[2][1]), locks(w[2][0]), o[0],
                                  'writes' if o[1] == 'w' else 'reads', o[2][1].line, locks(o[2][0])))
    # ---- library functions with hidden state
    used = {}
    for n, a, m in ctxs:
        roots = [n] if n in mod.fns else ['main']
        if roots[0] not in mod.fns:
            continue
        _, ext = reach(acc, roots)
        rep.count('library functions reached from threads', len(ext), None)
        for c, i in ext.items():
            used.setdefault(c, []).append((n, i, m))
    for c, us in sorted(used.items()):
        th = [u for u in us if u[0] in mod.fns]
        if not th:
            continue
        if c in UNSAFE and (len(us) > 1 or th[0][2]):
            rep.violation('%s:unsafe:%s' % (prog, c), th[0][1].loc(), '%s keeps hidden state, and %s may call it while another '
                          'thread does' % (c, th[0][0]))
        if c in PROCESS:
            rep.violation('%s:process-state:%s' % (prog, c), th[0][1].loc(), '%s changes the whole process from %s' % (c, th[0][0]))
    # ---- thread arguments
    for fn, i, es in st:
        rep.count('thread arguments checked', 1, '%s:%s:%s' % (prog, lib.fname(i), i.line))
        Engine(fn, Handed(acc, fn, i), 400000).run()
        late = acc.scan(fn, following(i))
        for k, v in allocas(acc, fn, following(i)).items():
            late[k] = v
        lent = borrowed(acc, fn, i)
        for off, tg in sorted(lent.items(), key=repr):
            for e in es:
                for kind in 'rw':
                    mine = acc.A[e].get((('f', off), kind))
                    if mine is None:
                        continue
                    for t in sorted(tg, key=repr):
                        for k2 in 'rw':
                            if kind == k2 == 'r':
                                continue
                            o = late.get((t, k2))
                            if o is not None and not (o[0] & mine[0]):
                                rep.violation('%s:%s:shared-argument:%s' % (prog, lib.fname(i), field(fn, i, off)), o[1].loc(),
                                              '%s keeps using what %s still owns: member %s of its argument is %s at line %s, and '
                                              'it is %s here without a common lock' % (
                                                  e, fn.name, field(fn, i, off), 'changed' if kind == 'w' else 'read',
                                                  mine[1].line, 'changed or released' if k2 == 'w' else 'read'))
    # ---- handlers
    for h in hs:
        seen, ext = reach(acc, [h])
        rep.count('functions reached from handlers', len(seen) + len(ext), None)
        for c, i in sorted(ext.items()):
            if c.startswith('llvm.') or c in ASYNC_SAFE:
                continue
            rep.violation('%s:%s:handler-calls:%s' % (prog, h, c), i.loc(), '%s is not safe in a signal handler (reached from %s)'
                          % (c, h))
        regs = [i for _, i, x in hd if h in x]
        for (t, kind), (lk, ins) in sorted(acc.A[h].items(), key=repr):
            if not (isinstance(t, tuple) and t[0] == 'g'):
                continue
            rep.count('variables of handlers checked', 1, '%s:%s' % (prog, t[1]))
            if sigsafe(mod, t[1]):
                continue
            if kind == 'w':
                rep.violation('%s:%s:handler-writes:%s' % (prog, h, t[1]), ins.loc(), '%s is written in a signal handler and is not a '
                              'volatile sig_atomic_t' % t[1])
                continue
            for fn in lib.own(mod):
                if fn.name in seen:
                    continue
                for i in fn.instrs():
                    if i.op == 'store' and ('g', t[1]) in acc.targets(fn, i.args[1]) and not before(fn, i, regs):
                        rep.violation('%s:%s:handler-reads:%s' % (prog, h, t[1]), i.loc(), '%s is read in a signal handler, is not a '
                                      'volatile sig_atomic_t, and is written while the handler is installed' % t[1])
    return acc


def before(fn, i, regs):
    mine = [r for r in regs if r.fn is fn]
    return bool(mine) and not any(i in following(r) for r in mine)


def allocas(acc, fn, late):
    out = {}
    for i in late:
        a = i.args[1] if i.op == 'store' else i.args[0] if i.op == 'load' else None
        if a is None:
            continue
        b, _ = ditypes.base_off(fn, a)
        if b[0] == 'l' and b[1] in fn.defs and fn.defs[b[1]].op == 'alloca':
            k = (('a', b[1]), 'w' if i.op == 'store' else 'r')
            h = acc.held[fn].get(i, frozenset())
            out[k] = (h & out[k][0] if k in out else h, i)
    return out


def field(fn, i, off):
    for st in fn.instrs():
        if st.op == 'store':
            b, o = ditypes.base_off(fn, st.args[1])
            if o == off and b in resource.direct(fn, i.args[3]):
                m = ditypes.member_at(fn, st.args[1])
                if m:
                    return m[1]
    return 'at offset %s' % off


def locks(l):
    return ', '.join(sorted(l)) if l else 'no lock'


def accesses(mod, g):
    for fn in lib.own(mod):
        for i in fn.instrs():
            if i.op in ('load', 'store') and ditypes.base_off(fn, i.args[1 if i.op == 'store' else 0])[0] == ('g', g):
                yield i


def sigsafe(mod, g):
    """every access is volatile (and one word) or atomic"""
    a = list(accesses(mod, g))
    t = mod.globals[g].type
    return bool(a) and isinstance(t, str) and t in ('i8', 'i16', 'i32') and all(
        i.uid and ('volatile' in i.uid or 'atomic' in i.uid) for i in a) or \
        bool(a) and all(i.uid and 'atomic' in i.uid for i in a)


def atomic(mod, t):
    return t[0] == 'g' and sigsafe(mod, t[1])


BASE = r'''#include <stdlib.h>
#include <string.h>
#include <stdbool.h>
#include <stdio.h>
#include <unistd.h>
#include <time.h>
#include <pthread.h>
#include <signal.h>
typedef struct { char *name; int n; } conf;
typedef struct { conf *c; char *a; } job;
static pthread_mutex_t m = PTHREAD_MUTEX_INITIALIZER;
static bool on; static void (*old)(int);
static volatile sig_atomic_t sig;
%(glob)s
void* bc_malloc(size_t n){ void *p=malloc(n); if(!p) exit(1); return p;}
char* bc_strdup(const char *s){ char *r=bc_malloc(strlen(s)+1); strcpy(r,s); return r;}
static void onsig(int s){ %(hand)s }
static void *work(void *a){ job *j=a; pthread_mutex_lock(&m); on=true; %(quit)s pthread_mutex_unlock(&m);
  puts(j->c->name); puts(j->a); %(thr)s free(j->c->name); free(j->c); free(j); return NULL; }
void bm_ctx_reload(conf **c){ free((*c)->name); (*c)->name=bc_strdup("n"); }
int bm_run(conf **c, char *a){ struct sigaction s; %(pre)s s.sa_handler=onsig; sigemptyset(&s.sa_mask); s.sa_flags=0; sigaction(SIGINT,&s,NULL); %(post)s
 job *j=bc_malloc(sizeof(job)); %(hand2)s j->a=a; pthread_t t; if(pthread_create(&t,NULL,work,j)!=0){ free(j->c->name); free(j->c); free(j); return 1; }
 %(late)s while(1){ pthread_mutex_lock(&m); bool b=on; %(loop)s pthread_mutex_unlock(&m); if(b||sig) break; bm_ctx_reload(c); sleep(1); }
 return 0; }
int main(int c, char **v){ conf *x=bc_malloc(sizeof(conf)); x->name=bc_strdup("q"); int r=bm_run(&x, v[1]); free(x->name); free(x); return r; }'''
GOOD = dict(glob='', hand='sig=s;', quit='', thr='', pre='old=NULL;', post='', late='', loop='',
            hand2='j->c=bc_malloc(sizeof(conf)); j->c->name=bc_strdup((*c)->name);')


def run(rep, tier):
    rep.rule('Every variable that two threads may touch at the same time (start routines are found by the calls that start threads; '
             'a start routine started in a loop runs beside itself) has a lock held at each of its accesses, or only atomic ones. '
             'Accesses of the main thread count from the moment a thread exists. What a start routine reaches through its argument '
             'and its creator still reaches after starting it is only read, or used under a common lock. Locks are released on '
             'every path, taken once and not held while waiting. Handlers and everything they call use only functions that are '
             'allowed there, write only volatile sig_atomic_t variables, and read nothing else that changes while they are '
             'installed. Library functions with hidden state are not reached by threads that run beside each other.')
    rep.assumption('the C library\'s own stdio and allocator locking; strerror and getenv as in glibc')
    for name, mod in lib.progs():
        analyse(rep, name, mod)
    rep.floor('threads started', 2)
    rep.floor('signal handlers', 1)
    rep.floor('shared variables checked', 2)
    rep.floor('thread arguments checked', 2)

    def ex(**kw):
        q = lib.Quiet()
        analyse(q, 'x', frontend.snippet(BASE % dict(GOOD, **kw)))
        return q.v
    rep.selftest('clean', ex() == [])
    rep.selftest('no lock', ex(loop='pthread_mutex_unlock(&m); bool z=on; pthread_mutex_lock(&m); if(z) b=z;') == ['x:race:on'])
    rep.selftest('kept', ex(quit='if(j->a[0]) return NULL;') == ['x:work:still-held'])
    rep.selftest('twice', 'x:work:locked-twice' in ex(quit='pthread_mutex_lock(&m);'))
    rep.selftest('handler', ex(hand='puts("x"); sig=s;') == ['x:onsig:handler-calls:puts'])
    rep.selftest('handler write', any('handler-writes:on' in x for x in ex(hand='on=true;')))
    rep.selftest('handler read', ex(hand='sig=s; if(old) old(s);', post='old=SIG_DFL;') == ['x:onsig:handler-reads:old'] and
                 ex(hand='sig=s; if(old) old(s);') == [])
    rep.selftest('borrowed', ex(hand2='j->c=*c;', thr='return NULL;') == ['x:bm_run:shared-argument:c'])
    rep.selftest('shallow', any('shared-argument' in x for x in ex(hand2='j->c=bc_malloc(sizeof(conf)); *j->c=**c;')))
    rep.selftest('late', ex(late='j->a=NULL;') == ['x:bm_run:argument-used'])
    rep.selftest('hidden', ex(thr='time_t q=0; puts(asctime(gmtime(&q)));', late='time_t q=0; puts(asctime(gmtime(&q)));') ==
                 ['x:unsafe:asctime', 'x:unsafe:gmtime'])
    rep.selftest('counter', ex(glob='static int n;', thr='n++;', late='n=3;') == ['x:race:n'])
