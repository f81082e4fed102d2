"""Every text put into a shell command is one literal word."""
from engine import frontend, ir, lib, flow, shell, names
from engine.paths import Engine
from engine.chars import Chars

PROGS = ('make', 'receiver', 'blogc', 'blogc-embedded', 'runserver')
SHELLS = (b'sh', b'/bin/sh', b'bash', b'/bin/bash', b'dash', b'/usr/bin/sh', b'/usr/bin/env')
EXECV = {'execv', 'execvp', 'execve', 'execvpe'}
EXECL = {'execl', 'execlp', 'execle'}


def sinks(mod):
    """(fn, call, operand) of every text interpreted by a shell"""
    for fn in lib.own(mod):
        for i in fn.calls():
            if i.callee in ('system', 'popen'):
                yield fn, i, i.args[0]
            elif i.callee in EXECL:
                st = [mod.string(a) for a in i.args]
                if st[0] in SHELLS and b'-c' in st:
                    yield fn, i, i.args[st.index(b'-c') + 1]
            elif i.callee in EXECV | {'posix_spawn', 'posix_spawnp'}:
                arr = i.args[1] if i.callee in EXECV else i.args[4]
                b, _ = __import__('engine.ditypes', fromlist=['x']).base_off(fn, arr)
                cells = {}
                for s in fn.instrs():
                    if s.op == 'store':
                        sb, off = __import__('engine.ditypes', fromlist=['x']).base_off(fn, s.args[1])
                        if sb == b:
                            cells[off] = s.args[0]
                if mod.string(cells.get(8, ('?',))) == b'-c' and 16 in cells:
                    yield fn, i, cells[16]


class Quote(Chars):
    """the quoting function byte by byte.  state: (shell state, decoded since the last character, wrote quotes)"""
    start = ('u', (), False)

    def __init__(s, fn, rep, prog):
        s.f, s.rep, s.prog = fn, rep, prog
        p = fn.params[0][0]
        s.p = p
        s.chars = {i.res for i in fn.instrs() if i.op == 'load' and i.type == 'i8' and ('l', p) in lib.origins(fn, i.args[0])}
        s.addr = {i.res: i.args[0] for i in fn.instrs() if i.res in s.chars}
        s.b = {('l', i.res) for i in fn.calls('bc_string_new')}
        s.modes = lib.mode_phis(fn)

    def v(s, kind, ins, msg, cx):
        s.rep.violation('%s:quote:%s' % (s.prog, kind), ins.loc(), msg, cx.trace())

    def consume(s, state, c, ins, cx):
        q, dec, w = state
        s.rep.count('character classes of the quoting function')
        if c == {0} and not dec:
            return (q, (), w)
        if dec != ('CH',) and not (len(c) == 1 and dec == (next(iter(c)),)):
            s.v('class', ins, 'the quoting function does not write %s as itself' % (
                'the character %r' % chr(next(iter(c)) & 255) if len(c) == 1 else 'some characters'), cx)
        if q not in ('s', 'u'):
            s.v('state', ins, 'the quoting function leaves a character in the middle of an escape', cx)
        return (q, (), w)

    def write(s, ts, text, ins, cx):
        (q, dec, w), ch = ts
        for c in text:
            if q == 'u':
                if c == 39:
                    q, w = 's', True
                elif c == 92:
                    q = 'b'
                elif c == 34:
                    q = 'd'
                elif c in shell.SAFE_LIT:
                    dec += (c,)
                else:
                    s.v('raw', ins, 'the quoting function writes %r outside quotes' % chr(c), cx)
            elif q == 's':
                if c == 39:
                    q = 'u'
                else:
                    dec += (c,)
            elif q == 'b':
                dec += (c,)
                q = 'u'
            elif q == 'd':
                if c == 34:
                    q = 'u'
                elif c in (36, 96, 92, 33):
                    s.v('raw', ins, 'the quoting function writes %r inside double quotes' % chr(c), cx)
                else:
                    dec += (c,)
        if len(dec) > 3:
            dec = dec[:4]
        return ((q, dec, w), ch)

    def instr(s, ts, ins, cx):
        if ins.op == 'call' and ins.callee in shell.APPEND and lib.origins(s.f, ins.args[0], geps=False) <= s.b:
            if ins.callee == 'bc_string_append':
                t = s.f.module.string(ins.args[1])
                if t is None:
                    s.v('text', ins, 'the quoting function appends text unexamined', cx)
                    return ts
                return s.write(ts, t, ins, cx)
            if ins.callee == 'bc_string_append_c':
                v = ins.args[1]
                if v[0] == 'i':
                    return s.write(ts, bytes([v[1] & 255]), ins, cx)
                o = lib.origins(s.f, v)
                (q, dec, w), ch = s.narrowed(ts, cx)
                if ch is not None and any(x[0] == 'l' and x[1] in s.chars for x in o):
                    if not (q == 's' and 39 not in ch[1] or q == 'u' and {c & 255 for c in ch[1]} <= shell.SAFE_LIT):
                        s.v('raw', ins, 'the quoting function writes a character with a meaning to the shell unescaped', cx)
                    return ((q, dec + ('CH',), w), ch)
                s.v('text', ins, 'the quoting function appends an unknown character', cx)
                return ts
            s.v('text', ins, 'the quoting function appends text unexamined', cx)
        return ts

    def exit(s, ts, ins, cx):
        if ins.op != 'ret':
            return
        (q, dec, w), _ = s.flush(ts, ins, cx)
        s.rep.count('ways out of the quoting function')
        if q != 'u' or not w:
            s.v('open', ins, 'the quoting function returns a text that is not closed', cx)


def trie_names(mod, fl, rep, prog):
    """callback for Compose: why may the keys of this trie be arbitrary?"""
    inserts = []
    for fn in lib.own(mod):
        if fn.name.startswith('bc_'):
            continue
        for i in fn.calls('bc_trie_insert'):
            inserts.append((fn, i, fl.roots(fn, i.args[0])))

    memo = {}

    def why(fn, op):
        rt = fl.roots(fn, op)
        k = (fn.name, op)
        if k in memo:
            return memo[k]
        res = None
        real = {r for r in rt if r[0] is not None}
        for f, i, r in inserts:
            if not (r & real):
                continue
            if all(mod.string(o) is not None and set(mod.string(o)) <= names.ID for o in lib.origins(f, i.args[1], geps=False)):
                rep.count('literal variable names')
                continue
            if all(mod.string(o[1]) is not None for o in fl.roots(f, i.args[1])):
                continue
            bad = []
            names.check(f, rep, i, i.args[1], lambda ins, w, cx: bad.append((ins, w)))
            if bad:
                res = '%s inserted at %s:%d is not checked completely: %s' % (
                    'name', bad[0][0].loc()[0], bad[0][0].line, ', '.join(bad[0][1]))
        memo[k] = res
        return res
    return why


def analyse(rep, mod, prog):
    fl = flow.Flow(mod, stop=('bc_trie_new',), copies={})
    comp = shell.Compose(mod, fl, rep, prog, trie_names(mod, fl, rep, prog))
    n = 0
    for fn, i, op in sinks(mod):
        n += 1
        rep.count('commands handed to a shell', 1, '%s:%s' % (prog, lib.fname(i)))
        end = comp.text(frozenset('u'), fn, op, i)
        if end - {'u', 'c'}:
            comp.bad('unterminated', fn, i, 'the command ends inside a quotation')
    return n


def run(rep, tier):
    rep.rule('For every text that system(), popen() or sh -c interprets, its composition (formats, appends to string builders along '
             'the control flow, callbacks over variable maps, results of functions, struct fields, parameters at every call site) is '
             'replayed over the lexical states of the shell. Outside text may enter only as the result of bc_shell_quote in unquoted '
             'state, as a number, as a literal, as a checked [A-Z][A-Z0-9_]* name, or as a mkdtemp name; the text must end unquoted. '
             'bc_shell_quote itself is explored per character class: what it writes decodes to exactly that character.')
    rep.assumption('POSIX shell lexing; commands that are words of their own (program names found in PATH) are literals')
    qdone = set()
    for prog in PROGS:
        mod = ir.load(prog)
        analyse(rep, mod, prog)
        fn = mod.fns.get(shell.QUOTE)
        if fn is None:
            raise frontend.AnalysisBroken('no function bc_shell_quote in ' + prog)
        if prog == 'make':
            q = Quote(fn, rep, prog)
            if not q.chars:
                rep.violation('%s:quote:chars' % prog, (fn.name, 0, fn.name, ()), 'the quoting function does not look at the characters')
            Engine(fn, q).run()
    rep.floor('commands handed to a shell', 6)
    rep.floor('quoted pieces interpolated', 6)
    rep.floor('ways out of the quoting function', 1)
    m = frontend.snippet(r'''#include <stdlib.h>
#include <stdbool.h>
char* bc_strdup_printf(const char*,...); char* bc_shell_quote(const char*);
typedef struct {char*str; size_t len; size_t allocated_len;} bc_string_t; bc_string_t* bc_string_new(void);
bc_string_t* bc_string_append(bc_string_t*,const char*); char* bc_string_free(bc_string_t*,bool);
void f(char*a){ char*c=bc_strdup_printf("x '%s'",a); system(c);}
void g(char*a){ char*c=bc_strdup_printf("x \"%s\"",bc_shell_quote(a)); system(c);}
void h(char*a){ bc_string_t*s=bc_string_new(); bc_string_append(s,"y "); if(a) bc_string_append(s,"'"); bc_string_append(s,bc_shell_quote(a));
 system(bc_string_free(s,false));}''')
    q = lib.Quiet()
    analyse(q, m, 'x')
    rep.selftest('raw text, quoting inside quotes, builder state', {'x:f:text', 'x:g:quoted-inside', 'x:h:quoted-inside'} <= set(q.v))
