"""blogc opens the output file only after everything was read and rendered without error."""
from engine import frontend, ir, lib, ditypes
from engine.paths import Rule, Engine
from engine.failure import deep
from checks.C05 import write_open, OPENS, FOPENS

TOUCH = {'creat', 'truncate', 'ftruncate', 'rename', 'renameat', 'unlink', 'remove', 'link', 'symlink'}
RENDER = 'blogc_render'
WRITES = {'fprintf': (0, 1), 'vfprintf': (0, 1), 'fputs': (1, 0), 'fwrite': (3, 0), 'fputc': (1, 0), 'putc': (1, 0),
          'write': (0, 1), 'dprintf': (0, 1)}


def is_touch(mod, fn, i):
    return i.op == 'call' and (i.callee in TOUCH or (i.callee in OPENS or i.callee in FOPENS) and write_open(mod, fn, i))


def takes_error(mod, name):
    """index of the parameter through which the function stores an error, or None"""
    fn = mod.fns.get(name)
    if fn is None:
        return None
    for k, (p, t) in enumerate(fn.params):
        if t == 'ptr':
            ty = ditypes.type_of(fn, ('l', p))
            if ty is not None and 'bc_error_t' in str(ditypes.typename(mod, deep(mod, ty))) and \
                    ditypes.pointee(mod, ditypes.pointee(mod, ty)) is not None and name not in ('bc_error_print', 'bc_error_free'):
                return k
    return None


class Order(Rule):
    """items: ('dirty', cell, site) an error may have been stored; ('read', cell, sym, site) the stored error was read;
    'rendered'; 'touched'"""

    def __init__(s, mod, fn, rep, prog):
        s.mod, s.f, s.rep, s.prog = mod, fn, rep, prog
        s.seen = set()
        s.bad = {}
        s.err = {}

    def init(s, fn):
        return frozenset()

    def cells(s, op):
        return frozenset(lib.origins(s.f, op))

    def viol(s, ins, what, msg, cx):
        s.bad.setdefault((ins.loc(), what), (ins, what, msg, cx.trace()))

    def instr(s, ts, ins, cx):
        if ins.op == 'load':
            out = set()
            hit = False
            for x in ts:
                if isinstance(x, tuple) and x[0] == 'dirty' and s.cells(ins.args[0]) == x[1]:
                    hit = True
                out.add(x)
            if hit:
                s.err[ins.res] = s.cells(ins.args[0])
            return ts
        if ins.op != 'call':
            return ts
        if is_touch(s.mod, s.f, ins):
            s.seen.add(('opens of the output', ins.loc()))
            for x in sorted((x for x in s.pending(ts, cx)), key=repr):
                s.viol(ins, 'error', 'the output is opened while the error that %s() may have stored (line %d) has not been excluded' % (
                    x[2][2], x[2][1]), cx)
            if 'rendered' not in ts:
                s.viol(ins, 'order', 'the output is opened on a path on which nothing has been rendered', cx)
            return ts | {'touched'}
        if ins.callee == RENDER:
            for x in sorted((x for x in s.pending(ts, cx)), key=repr):
                s.viol(ins, 'render', 'rendering goes on while the error that %s() may have stored (line %d) has not been excluded' % (
                    x[2][2], x[2][1]), cx)
            ts = ts | {'rendered'}
            if 'touched' in ts:
                s.viol(ins, 'late', 'rendering happens after the output was opened', cx)
            return ts
        k = takes_error(s.mod, ins.callee) if ins.callee else None
        if k is not None:
            s.seen.add(('operations that can fail', ins.loc()))
            if 'touched' in ts:
                s.viol(ins, 'late', '%s() can still fail after the output was opened' % ins.callee, cx)
            c = s.cells(ins.args[k])
            if c == {('null',)}:
                s.viol(ins, 'dropped', 'errors of %s() are not looked at' % ins.callee, cx)
                return ts
            # an operation that starts while the cell may hold an error hides it for good
            ts = frozenset(('lost',) + x[1:] if isinstance(x, tuple) and x[1] == c else x for x in ts)
            return ts | {('dirty', c, (ins.loc()[0], ins.loc()[1], ins.callee))}
        return ts

    def pending(s, ts, cx):
        return [x for x in ts if isinstance(x, tuple)]

    def edge(s, ts, frm, to, cx):
        # a load of the cell whose value is known to be NULL clears it
        t = frm.term
        if not any(isinstance(x, tuple) for x in ts):
            return ts
        clear = set()
        for i in frm.instrs:
            if i.res in s.err and i.op == 'load':
                v = cx.val(('l', i.res))
                if cx.null(v) is True:
                    # nothing may store to the cell between the load and the end of the block
                    rest = frm.instrs[frm.instrs.index(i) + 1:]
                    if not any(r.op == 'call' and r.callee and takes_error(s.mod, r.callee) is not None for r in rest):
                        clear.add(s.err[i.res])
        # values read earlier
        if t.op == 'br' and t.args and t.args[0][0] == 'l':
            d = s.f.defs.get(t.args[0][1])
            if d is not None and d.op == 'icmp':
                for a in d.args:
                    if a[0] == 'l' and a[1] in s.err and cx.null(cx.val(a)) is True:
                        clear.add(s.err[a[1]])
        if clear:
            ts = frozenset(x for x in ts if not (isinstance(x, tuple) and x[0] == 'dirty' and x[1] in clear))
        return ts


def analyse(rep, prog, mod):
    main = mod.fns.get('main')
    if main is None:
        return
    roots = {'main'}
    # functions other than main that open for writing would be called from a state this rule cannot see
    for fn in lib.own(mod):
        if fn.name != 'main':
            for i in fn.calls():
                if is_touch(mod, fn, i):
                    rep.violation('%s:%s:%s' % (prog, lib.fname(i), i.callee), i.loc(), 'the output is opened outside of the entry function')
    r = Order(mod, main, rep, prog)
    Engine(main, r).run()
    for k, _ in r.seen:
        rep.count(k)
    for ins, what, msg, tr in r.bad.values():
        rep.violation('%s:%s:%s:%s' % (prog, lib.fname(ins), ins.callee, what), ins.loc(), msg, tr)
    streams = [i for i in main.calls() if is_touch(mod, main, i)]
    for i in main.calls(*WRITES):
        st, data = WRITES[i.callee]
        if not any(o == ('l', t.res) for o in lib.origins(main, i.args[st]) for t in streams):
            continue
        rep.count('writes to the output')
        for d in i.args[data:] if i.callee in ('fprintf', 'vfprintf', 'dprintf') else [i.args[data]]:
            if mod.string(d) is not None:
                continue
            for o in lib.origins(main, d):
                x = main.defs.get(o[1]) if o[0] == 'l' else None
                if not (x is not None and x.op == 'call' and x.callee == RENDER) and o[0] not in ('null', 'undef'):
                    rep.violation('%s:%s:data' % (prog, lib.fname(i)), i.loc(), 'what is written to the output is not the result of the rendering')


def run(rep, tier):
    rep.rule('On every path of main to an open (or truncation, renaming, removal) of the output: the error cell of every operation that '
             'can store an error was read and found NULL since, the rendering was called, and no operation that can store an error '
             'follows. What is written is the result of the rendering.')
    rep.assumption('an operation that can fail is a function with a bc_error_t** parameter; which file is opened is covered by C05')
    analyse(rep, 'blogc', ir.load('blogc'))
    rep.floor('operations that can fail', 3)
    rep.floor('opens of the output', 1)
    rep.floor('writes to the output', 1)
    m = frontend.snippet(r'''#include <stdio.h>
typedef struct { int type; char *msg; } bc_error_t;
char *blogc_render(void*);
void *blogc_template_parse_from_file(const char*f, bc_error_t **err){ if(f) return (void*)f; *err=(bc_error_t*)f; return 0; }
int main(int argc,char**argv){ bc_error_t *err=0; void*l=blogc_template_parse_from_file(argv[1],&err);
FILE *fp=fopen(argv[2],"w"); if(err!=0) return 1; char*o=blogc_render(l); fprintf(fp,"%s",o); return 0; }''')
    q = lib.Quiet()
    analyse(q, 's', m)
    rep.selftest('output opened too early', {'s:main:fopen:error', 's:main:fopen:order', 's:main:blogc_render:late'} <= set(q.v))
    m = frontend.snippet(r'''#include <stdio.h>
typedef struct { int type; char *msg; } bc_error_t;
char *blogc_render(void*);
void *blogc_template_parse_from_file(const char*f, bc_error_t **err){ if(f) return (void*)f; *err=(bc_error_t*)f; return 0; }
int main(int argc,char**argv){ bc_error_t *err=0; int rv=0; void*l=blogc_template_parse_from_file(argv[1],&err); if(err!=0) rv=1;
if(rv==0){ char*o=blogc_render(l); FILE *fp=fopen(argv[2],"w"); fputs(o,fp);} return rv; }''')
    q = lib.Quiet()
    analyse(q, 's', m)
    rep.selftest('output opened in time', not q.v)
