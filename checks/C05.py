"""No file-system effect and no program start reachable in blogc-runserver; in blogc only the -o output."""
from engine import frontend, ir, lib

EFFECTS = set('''creat mkstemp mkostemp mkstemps mkostemps mktemp tmpfile tmpnam tempnam mkdtemp truncate ftruncate rename renameat
renameat2 unlink unlinkat remove rmdir link linkat symlink symlinkat chmod fchmod fchmodat chown fchown lchown fchownat
utime utimes utimensat futimens futimes mknod mknodat mkfifo mkfifoat mkdirat fallocate posix_fallocate setxattr
lsetxattr fsetxattr removexattr copy_file_range mount umount umount2 chroot pivot_root shm_open shm_unlink sem_open
sem_unlink mq_open dlopen'''.split())
PROGS = set('''system popen execl execle execlp execv execve execvp execvpe fexecve execveat posix_spawn posix_spawnp fork
vfork clone'''.split())
OPENS = {'open': 1, 'open64': 1, 'openat': 2, 'openat64': 2}
FOPENS = {'fopen': 1, 'fopen64': 1, 'freopen': 1, 'freopen64': 1, 'fdopen': 1}


def write_open(mod, fn, i):
    if i.callee in OPENS:
        f = i.args[OPENS[i.callee]]
        fl = lib.origins(fn, f)
        return any(x[0] != 'i' or (x[1] & 3) != 0 or (x[1] & (0o100 | 0o1000 | 0o2000)) for x in fl)
    if i.callee in FOPENS:
        for x in lib.origins(fn, i.args[FOPENS[i.callee]]):
            s = mod.string(x)
            if s is None or not s.startswith(b'r') or b'+' in s:
                return True
    return False


def scan(rep, prog, mod, allowed):
    seen, par = lib.reachable(mod, ['main'])
    rep.count('programs')
    for f in sorted(seen):
        if f not in mod.fns:
            rep.count('external functions classified', 1, f)
            continue
        fn = mod.fns[f]
        rep.count('functions reachable from main')
        for i in fn.instrs():
            if i.op != 'call' or i.callee is None:
                continue
            rep.count('call sites inspected')
            bad = None
            if i.callee in EFFECTS:
                bad = 'changes the file system'
            elif i.callee in PROGS:
                bad = 'starts a program'
            elif i.callee == 'mkdir' or i.callee in OPENS or i.callee in FOPENS:
                rep.count('open and mkdir sites', 1, '%s:%s:%s' % (prog, lib.fname(i), i.callee))
                if i.callee == 'mkdir' or write_open(mod, fn, i):
                    if not allowed(mod, fn, i):
                        bad = 'writes to the file system'
            if bad:
                rep.violation('%s:%s:%s' % (prog, lib.fname(i), i.callee), i.loc(),
                              '%s() %s; reachable: %s' % (i.callee, bad, ' -> '.join(lib.chain(par, f))))
        # address of an effect function taken (callback)
        for i in fn.instrs():
            for a in ir.operands(i):
                for x in ir.walk(a):
                    if x[0] == 'g' and x[1] in EFFECTS | PROGS:
                        rep.violation('%s:%s:&%s' % (prog, lib.fname(i), x[1]), i.loc(),
                                      'address of %s() taken' % x[1])


def output_only(mod, fn, i):
    """the path is (a copy of) the value of option -o"""
    if i.callee in ('fdopen', 'openat', 'openat64', 'freopen'):
        return False
    if fn.name != 'main':
        return False
    org = lib.origins(fn, i.args[0], lib.COPIES)
    org = {x for x in org if x[0] not in ('null', 'undef')}
    # the loads argv[i]; each copy call feeding the path has to sit in the branch of option 'o'
    copies = [x for x in through_copies(fn, i.args[0])]
    if not copies:
        return False
    for c in copies:
        if not any(k == ord('o') for _, k in lib.const_guards(fn, c.block)):
            # a copy of a copy is fine when what it copies is the option value
            inner = through_copies(fn, c.args[0])
            if not inner or not all(any(k == ord('o') for _, k in lib.const_guards(fn, d.block)) for d in inner):
                return False
    return True


def through_copies(fn, op, seen=None):
    """the copying calls a value may come from"""
    r = []
    for x in lib.origins(fn, op):
        if x[0] == 'null' or x[0] == 'undef':
            continue
        d = fn.defs.get(x[1]) if x[0] == 'l' else None
        if d is not None and d.op == 'call' and d.callee in lib.COPIES:
            r.append(d)
        else:
            return []
    return r


def run(rep, tier):
    rep.rule('Every function reachable from main (direct calls, callbacks, thread entries, tables) is scanned; a call that '
             'creates, changes or removes a file or starts a program is a violation. In blogc the only write-open and mkdir '
             'allowed take the value of option -o as path.')
    rep.assumption('library functions outside the effect table have no such effect; an option value is identified by the '
                   'branch on its letter')
    scan(rep, 'runserver', ir.load('runserver'), lambda *a: False)
    scan(rep, 'blogc', ir.load('blogc'), output_only)
    rep.floor('programs', 2)
    rep.floor('functions reachable from main', 40)
    rep.floor('open and mkdir sites', 3, '(open in runserver and file.c; fopen and mkdir of the output)')
    # positive example
    m = frontend.snippet('#include <stdio.h>\n#include <stdlib.h>\nstatic void h(const char *p){FILE *f=fopen(p,"a");if(f)fclose(f);}\n'
                         'int main(int c,char**v){h(v[1]);system(v[2]);return 0;}')
    t = lib.Quiet()
    scan(t, 'x', m, output_only)
    rep.selftest('append-open and system', len(t.v) == 2)
