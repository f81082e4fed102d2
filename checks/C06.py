"""No request leaks anything: ownership of every socket, stream, directory and heap block acquired while serving."""
import importlib.util, os
from engine import frontend, ir, lib, ditypes, resource
from engine.paths import Rule, Engine, Sym

_s = importlib.util.spec_from_file_location('c03', os.path.join(os.path.dirname(__file__), 'C03.py'))
c03 = importlib.util.module_from_spec(_s)
_s.loader.exec_module(c03)


def starters(mod):
    """[(function, pthread_create call, start routine names)]"""
    r = []
    for fn in lib.own(mod):
        for i in fn.calls('pthread_create'):
            r.append((fn, i, [o[1] for o in lib.origins(fn, i.args[2]) if o[0] == 'g']))
    return r


def handed(mod, owner, fn, i):
    """(is the argument of the new thread owned, {offset: (kind, name)} owned things stored in it)"""
    got, ent = False, {}
    for o in resource.direct(fn, i.args[3]):
        if o[0] != 'l':
            continue
        d = fn.defs.get(o[1])
        if d is None or d.op != 'call' or not owner.acquired(fn, d):
            continue
        got = True
        for s in fn.instrs():
            if s.op != 'store':
                continue
            b, off = ditypes.base_off(fn, s.args[1])
            if b != o or off is None:
                continue
            for v in resource.direct(fn, s.args[0]):
                e = fn.defs.get(v[1]) if v[0] == 'l' else None
                if e is not None and e.op == 'call' and owner.acquired(fn, e):
                    m = ditypes.member_at(fn, s.args[1])
                    ent[off] = (owner.acquired(fn, e), m[1] if m else 'offset %d' % off)
    return got, ent


class Slot(Rule):
    """a worker slot is used again only when its last thread has been joined, and is marked as used once it is"""

    def __init__(s, fn, rep):
        s.f, s.rep = fn, rep
        s.flags = set()
        s.detach = any(i.callee == 'pthread_attr_setdetachstate' for i in fn.calls())

    def init(s, fn):
        return frozenset()

    def cell(s, op, cx):
        """(slot, field): the slot is named by the index its cells are reached with, so parallel arrays are one slot"""
        k = cx.addr(op)
        if k is None:
            return None
        v = k[1]
        e = cx.st.expr.get(v[1]) if v[0] == 's' else None
        if e is not None and e[0] == 'gep':
            if len(e) == 4:
                return ('cell', e[3], (e[1], k[2]))
        return ('cell', v, (None, k[2]))

    def bad(s, key, ins, msg, cx):
        s.rep.violation('%s:%s' % (lib.fname(ins), key), ins.loc(), msg, cx.trace())

    def loaded(s, ts, ins, cx):
        k = s.cell(ins.args[0], cx)
        v = cx.val(('l', ins.res))
        if k is None or v[0] != 's' or v[1] == '?':
            return ts
        return ts | {('ld', v, k[1], k[2])}

    def instr(s, ts, ins, cx):
        if ins.op == 'store':
            k = s.cell(ins.args[1], cx)
            if k is None:
                return ts
            v = cx.val(ins.args[0])
            z = cx.null(v)
            r = set()
            for x in ts:
                if x[0] == 'ld' and x[2] == k[1] and x[3] == k[2]:
                    continue
                if x[0] == 'used' and x[1] == k[1] and (k[2] in x[2] or not x[2]) and z is False:
                    continue
                if x[0] == 'joined' and x[1] == k[1] and z is False:
                    continue
                r.add(x)
            return frozenset(r)
        if ins.op != 'call':
            return ts
        if ins.callee in ('pthread_join', 'pthread_detach', 'pthread_tryjoin_np', 'pthread_timedjoin_np'):
            v = cx.val(ins.args[0])
            add = {('joined', x[2]) for x in ts if x[0] == 'ld' and x[1] == v}
            if ins.callee == 'pthread_detach':
                return frozenset(x for x in ts if not (x[0] == 'used' and any(a[1] == x[1] for a in add)))
            return ts | add
        if ins.callee == 'pthread_create':
            k = s.cell(ins.args[0], cx)
            if k is None or s.detach and ins.args[1] != ('null',):
                return ts
            if k[1][0] == 's' and k[1][1] in cx.eng.allocas and s.f.defs.get(str(k[1][1])) is not None and not ins.block.succs:
                return ts
            s.rep.count('worker slots checked', 1, '%s:%s' % (lib.fname(ins), ins.line))
            free = ('joined', k[1]) in ts
            if free:
                return ts
            for x in ts:
                if x[0] == 'ld' and x[2] == k[1] and x[3] != k[2] and cx.null(x[1]) is True:
                    return ts
            s.bad('slot-reused', ins, 'starts a thread in a worker slot whose previous thread was not joined and which is not '
                  'known to be unused', cx)
        if ins.callee in ('accept', 'accept4'):
            for x in ts:
                if x[0] == 'used':
                    s.bad('slot-unmarked', ins, 'waits for the next connection although the slot of the last thread does not '
                          'record that it is in use: the thread is never joined', cx)
        return ts

    def after(s, ts, ins, cx):
        if ins.callee == 'pthread_create':
            k = s.cell(ins.args[0], cx)
            v = cx.val(('l', ins.res)) if ins.res else None
            if k is None or v is None or s.detach and ins.args[1] != ('null',):
                return ts
            offs = frozenset(x[3] for x in ts if x[0] == 'ld' and x[2] == k[1] and x[3] != k[2])
            # the mark set when the slot was first used still stands when the thread was joined
            flagged = any(x[0] == 'ld' and x[2] == k[1] and x[3] != k[2] and cx.null(x[1]) is False for x in ts)
            ts = frozenset(x for x in ts if not (x[0] == 'joined' and x[1] == k[1]))
            if flagged:
                return ts
            return [([(v, 'eq', 0)], ts | {('used', k[1], offs)}), ([(v, 'ne', 0)], ts)]
        return ts

    def edge(s, ts, frm, to, cx):
        if not ts:
            return ts
        lv = resource.live_syms(cx.eng, cx.st, to)
        r = set()
        for x in ts:
            if x[0] == 'ld' and (x[1][1] not in lv and x[2][0] == 's' and x[2][1] not in lv):
                continue
            if x[0] == 'ld' and cx.null(x[1]) is None and x[1][1] not in lv:
                continue
            if x[0] in ('joined',) and x[1][0] == 's' and x[1][1] not in lv:
                continue
            r.add(x)
        return frozenset(r)


def analyse(rep, mod):
    owner = resource.Owner(mod)
    st = starters(mod)
    names = set()
    entry = {}
    for fn, i, routines in st:
        rep.count('connections handed to a thread', 1, '%s:%s' % (lib.fname(i), i.line))
        names.add(fn.name)
        got, ent = handed(mod, owner, fn, i)
        for r in routines:
            names.add(r)
            if got and r in mod.fns:
                entry.setdefault(r, {}).update(ent)
                for k, n in sorted(ent.values()):
                    rep.count('things a request is handed', 1, '%s:%s %s' % (r, k, n))
    reach, _ = lib.reachable(mod, sorted(names))
    todo = [fn for fn in lib.own(mod) if fn.name in reach]
    for fn in todo:
        rep.count('functions explored', 1, fn.name)
        arg = 0 if fn.name in entry and fn.params else None
        r = resource.Leak(fn, rep, owner, entry.get(fn.name, {}), arg)
        Engine(fn, r, 400000).run()
    for fn, i, routines in st:
        Engine(fn, Slot(fn, rep), 400000).run()
    return owner


BASE = r'''#include <stdlib.h>
#include <string.h>
#include <stdbool.h>
#include <stdio.h>
#include <unistd.h>
#include <pthread.h>
#include <sys/socket.h>
typedef struct { int fd; char *ip; } req;
typedef struct { pthread_t t; bool used; } slot;
void* bc_malloc(size_t n){ void *p=malloc(n); if(!p) exit(1); return p;}
char* bc_strdup(const char *s){ char *r=bc_malloc(strlen(s)+1); strcpy(r,s); return r;}
static void *h(void *a){ req *r=a; int fd=r->fd; char *ip=r->ip; %(first)s
 char *x=bc_strdup(ip); if(x[0]=='q'){ %(quit)s } write(fd,x,1); free(x); free(ip); close(fd); return NULL; }
int bc_run(int s, size_t n){ slot t[8]; for(int i=0;i<8;i++) t[i].used=false; size_t c=0;
 while(1){ int fd=accept(s,NULL,NULL); if(fd==-1) break; req *r=bc_malloc(sizeof(req)); r->fd=fd; r->ip=bc_strdup("x");
  %(join)s
  if(pthread_create(&t[c].t,NULL,h,r)!=0){ %(fail)s return 1; }
  %(mark)s c++; if(c>=8) c=0; } close(s); return 0; }
int main(void){ return bc_run(3,8); }'''
GOOD = dict(first='free(a);', quit='free(x); free(ip); close(fd); return NULL;',
            join='if(t[c].used) pthread_join(t[c].t,NULL);', fail='close(fd); free(r->ip); free(r);', mark='t[c].used=true;')


def run(rep, tier):
    rep.rule('Everything acquired (heap blocks, streams, directories, file descriptors; the project\'s own allocating functions are '
             'found by summaries) in a function the request threads or the accept loop reach is followed along every path until it '
             'is released, stored into something that lives on, returned, or handed to the new thread; what is handed to the '
             'thread is an obligation of its start routine. A worker slot is reused only after its thread was joined, and is '
             'marked as used once a thread runs in it.')
    rep.assumption('pthread_create takes the argument over exactly when it succeeds; allocation failure ends the process')
    mod = ir.load('runserver')
    if not starters(mod):
        raise frontend.AnalysisBroken('no thread is started')
    analyse(rep, mod)
    rep.floor('connections handed to a thread', 1)
    rep.floor('things a request is handed', 1)
    rep.floor('acquisitions followed', 8)
    rep.floor('worker slots checked', 1)

    def ex(**kw):
        q = lib.Quiet()
        analyse(q, frontend.snippet(BASE % dict(GOOD, **kw)))
        return q.v
    rep.selftest('clean', ex() == [])
    rep.selftest('argument kept', any('leak:heap' in x for x in ex(first='')))
    rep.selftest('early return', ex(quit='free(x); close(fd); return NULL;') != [] and len(ex(quit='return NULL;')) >= 3)
    rep.selftest('early return, socket', ex(quit='free(x); free(ip); return NULL;') == ['h:leak:fd:load'])
    rep.selftest('creation failure', {'bc_run:leak:fd:accept', 'bc_run:leak:heap:bc_strdup'} <= set(ex(fail='free(r);')))
    rep.selftest('no join', ex(join='') == ['bc_run:slot-reused'])
    rep.selftest('no mark', 'bc_run:slot-unmarked' in ex(mark=''))
