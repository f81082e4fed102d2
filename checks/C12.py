"""Text is checked as UTF-8 before it is used, and the check is RFC 3629."""
from engine import frontend, ir, lib, facts, flow, automaton, ditypes
from engine.paths import Rule, Engine, Sym

VALID = {'bc_utf8_validate': 0, 'bc_utf8_validate_str': 0}
READ = 'bc_file_get_contents'
PARSERS = {'blogc_source_parse': 0, 'blogc_template_parse': 0, 'bc_config_parse': 0, 'bm_settings_parse': 0}
PROGS = ('blogc', 'make', 'receiver', 'runserver')


def dfa(rep, mod):
    fn = mod.fns.get('bc_utf8_validate')
    if fn is None:
        raise frontend.AnalysisBroken('no function bc_utf8_validate')
    try:
        a = automaton.Byteloop(fn, fn.params[0][0])
        starts = {x[1] for x in a.start() if x[0] == 'head'}
        # the start block is entered through the header; the empty text
        seen = {}
        work = []
        for x in starts:
            seen[(x, ())] = b''
            work.append((x, ()))
        while work:
            h, q = work.pop()
            w = seen[(h, q)]
            if len(seen) > 5000:
                raise automaton.NotAnAutomaton('too many states')
            rep.count('pairs of decoder and RFC 3629 states')
            for v in a.end(h):
                if v is automaton.UNK:
                    raise automaton.NotAnAutomaton('result not constant')
                if bool(v) != (q == ()):
                    rep.violation('utf8:accept' if v else 'utf8:reject', (fn.name, 0, fn.name, ()),
                                  'the validator %s the byte sequence %s' % (
                                      'accepts' if v else 'rejects', ' '.join('%02x' % c for c in w) or '(empty)'))
                    return
            for b in range(256):
                rep.count('transitions compared')
                q2 = automaton.utf8_step(q, b)
                for o in a.step(h, b):
                    if o[0] == 'ret':
                        if o[1] is automaton.UNK:
                            raise automaton.NotAnAutomaton('result not constant')
                        if o[1] or q2 is not None:
                            rep.violation('utf8:early', (fn.name, 0, fn.name, ()), 'the validator decides too early on the bytes %s' % (
                                ' '.join('%02x' % c for c in w + bytes([b]))))
                            return
                        continue
                    k = (o[1], q2)
                    if k not in seen:
                        seen[k] = w + bytes([b])
                        work.append(k)
        rep.count('automata compared')
    except automaton.NotAnAutomaton as e:
        rep.count('validator loop not in the form of an automaton: not decided (%s)' % e)


class Bom(Rule):
    """a non-zero skip is three bytes and only after ef bb bf was seen in a text of at least three"""

    def __init__(s, fn, rep):
        s.f, s.rep = fn, rep
        s.modes = lib.mode_phis(fn)

    def partition(s, cx):
        return lib.mode_partition(s.modes, cx)

    def exit(s, ts, ins, cx):
        if ins.op != 'ret':
            return
        s.rep.count('ways out of the byte order mark test')
        v = cx.val(ins.args[0])
        p = Sym(s.f.params[0][0])
        known = set()
        for k, w in cx.st.mem.items():
            if k[1] == ('s', p) and w[0] == 's':
                lo, hi, ex = cx.rng(w)
                if lo == hi and int(lo) & 255 == {0: 0xef, 1: 0xbb, 2: 0xbf}.get(k[2]):
                    known.add(k[2])
        if v[0] != 'c':
            s.rep.violation('bom:length', ins.loc(), 'the number of bytes skipped is not constant', cx.trace())
        elif v[1] == 0:
            if known == {0, 1, 2}:
                s.rep.violation('bom:kept', ins.loc(), 'a byte order mark is not skipped', cx.trace())
        elif v[1] != 3 or known != {0, 1, 2}:
            s.rep.violation('bom:wrong', ins.loc(), 'skips bytes that are not the byte order mark ef bb bf', cx.trace())


class Reader(facts.Known):
    """a text asked for as UTF-8 is returned only after it was validated"""

    def __init__(s, fn, rep):
        s.f, s.rep = fn, rep
        tr = {i.res: ('valid', i.res) for i in fn.calls() if i.callee in VALID and i.res}
        s.utf8 = fn.params[1][0]
        for i in fn.instrs():
            if i.op == 'load' and (ditypes.member_at(fn, i.args[0]) or ('', ''))[:2] == ('bc_string_t', 'len'):
                tr[i.res] = 'len'
        super().__init__(tr)

    def edge(s, ts, frm, to, cx):
        ts = super().edge(ts, frm, to, cx)
        for i in s.f.instrs():
            if i.op in ('zext', 'trunc') and i.args[0][0] == 'l' and i.args[0][1] == s.utf8 or i.res == s.utf8:
                pass
        v = cx.val(('l', s.utf8))
        z = cx.null(v)
        if z is True:
            ts = ts | {('raw', 1)}
        return ts

    def event(s, ts, ins, cx):
        if ins.op == 'call' and (ins.callee or '').startswith('bc_string_append'):
            return frozenset(x for x in ts if not (isinstance(x[0], tuple) and x[0][0] == 'valid') and x[0] != 'len') | {('some', 1)}
        if ins.op == 'call' and ins.callee == 'bc_utf8_skip_bom':
            s.rep.count('byte order mark tests placed')
            if ('some', 1) in ts and ('len', 'zero') not in ts:
                s.rep.violation('reader:bom-inside', ins.loc(), 'a byte order mark is removed in the middle of the text', cx.trace())
        return ts

    def exit(s, ts, ins, cx):
        if ins.op != 'ret':
            return
        if cx.null(cx.val(ins.args[0])) is True:
            return
        s.rep.count('ways out of the reader checked')
        v = cx.val(('l', s.utf8))
        if ('raw', 1) in ts or cx.null(v) is True:
            return
        if not any(isinstance(x[0], tuple) and x[0][0] == 'valid' and x[1] == 'nonzero' for x in ts):
            s.rep.violation('reader:unchecked', ins.loc(), 'returns a text that was to be UTF-8 without a positive validation', cx.trace())


class Options(facts.Known):
    """command-line definitions are split only after validation of the same text"""

    def __init__(s, fn, rep, prog, site, text):
        s.f, s.rep, s.prog, s.site = fn, rep, prog, site
        s.texts = text
        tr = {}
        for i in fn.calls():
            if i.callee in VALID and i.res and lib.origins(fn, i.args[0]) & text:
                tr[i.res] = 'valid'
        super().__init__(tr)

    def event(s, ts, ins, cx):
        if ins is s.site:
            s.rep.count('definitions on the command line checked', 1, s.prog)
            if ('valid', 'nonzero') not in ts:
                s.rep.violation('%s:option:%s' % (s.prog, lib.fname(ins)), ins.loc(),
                                'a variable from the command line is stored without its text being validated as UTF-8', cx.trace())
            return frozenset()
        return ts


def options(rep, prog, mod):
    fn = mod.fns.get('main')
    if fn is None:
        return
    for i in fn.calls('bc_trie_insert'):
        if all(mod.string(o) is not None for o in lib.origins(fn, i.args[1], geps=False)):
            continue
        text = set()
        for o in lib.origins(fn, i.args[1]):
            d = fn.defs.get(o[1]) if o[0] == 'l' else None
            if d is not None and d.op == 'load':
                for q in lib.origins(fn, d.args[0]):
                    qd = fn.defs.get(q[1]) if q[0] == 'l' else None
                    if qd is not None and qd.op == 'call' and qd.callee == 'bc_str_split':
                        text |= lib.origins(fn, qd.args[0])
            elif d is not None and d.op == 'call' and d.callee in ('bc_strndup', 'bc_strdup'):
                text |= lib.origins(fn, d.args[0])
            else:
                text.add(o)
        text = {t for t in text if t[0] != 'null'}
        facts.run(fn, Options(fn, rep, prog, i, text))


def readers(rep, prog, mod):
    fl = flow.Flow(mod, stop=(READ, 'bc_stdin_read'))
    for fn in lib.own(mod):
        for i in fn.calls():
            if i.callee not in PARSERS or PARSERS[i.callee] >= len(i.args):
                continue
            if fn.name in PARSERS:
                continue
            rep.count('texts handed to a parser', 1, '%s:%s in %s' % (prog, i.callee, lib.fname(i)))
            for f, o in fl.roots(fn, i.args[PARSERS[i.callee]]):
                if f is None:
                    continue
                d = mod.fns[f].defs.get(o[1])
                if d is not None and d.op == 'call' and d.callee == READ:
                    for u in lib.origins(mod.fns[f], d.args[1]):
                        if u[0] != 'i' or u[1] == 0:
                            rep.violation('%s:raw:%s' % (prog, lib.fname(d)), d.loc(),
                                          'a text that is parsed by %s is read without being checked as UTF-8' % i.callee)
                elif d is not None and d.op == 'call':
                    rep.violation('%s:source:%s:%s' % (prog, lib.fname(i), d.callee), i.loc(),
                                  'a text that is parsed comes from %s(), which does not check it as UTF-8' % d.callee)


def run(rep, tier):
    rep.rule('(1) The decoder loop is abstracted to its transition function (constant propagation of one iteration for each byte '
             'and each reachable value of the loop-carried state, tables read from the initialiser) and its product with the RFC 3629 '
             'automaton is explored: every reachable pair must agree on acceptance. (2) Byte order mark: a non-zero skip is 3 and '
             'implies the facts ef, bb, bf. (3) A reader asked for UTF-8 returns a text only with a positive validation after the last '
             'append. (4) Every text that reaches a parser comes from a reading call with the UTF-8 flag set; a definition on the '
             'command line is stored only under a positive validation of the same text.')
    rep.assumption('file lists on standard input hold file names, which need not be UTF-8')
    mod = ir.load('blogc')
    dfa(rep, mod)
    for n, f in (('bc_utf8_skip_bom', Bom), (READ, Reader)):
        fn = mod.fns.get(n)
        if fn is None:
            raise frontend.AnalysisBroken('no function ' + n)
        Engine(fn, f(fn, rep)).run()
    if not any(True for _ in mod.fns[READ].calls('bc_utf8_skip_bom')):
        rep.violation('reader:bom', (READ, 0, READ, ()), 'the reader does not skip a byte order mark')
    for prog in PROGS:
        m = ir.load(prog)
        readers(rep, prog, m)
        options(rep, prog, m)
    options(rep, 'blogc-embedded', ir.load('blogc-embedded'))
    rep.floor('ways out of the reader checked', 1)
    rep.floor('texts handed to a parser', 3)
    rep.floor('definitions on the command line checked', 1)
    m = frontend.snippet(r'''#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>
bool bc_utf8_validate(const uint8_t*s, size_t n){ int need=0; for(size_t i=0;i<n;i++){ uint8_t c=s[i];
 if(need){ if((c&0xc0)!=0x80) return false; need--; } else if(c<0x80) ; else if(c>=0xc0&&c<0xe0) need=1; else if(c>=0xe0&&c<0xf0) need=2; else if(c<0xf5&&c>=0xf0) need=3; else return false;}
 return need==0;}
size_t bc_utf8_skip_bom(const uint8_t*s, size_t n){ if(n<3) return 0; if(s[0]==0xef&&s[1]==0xbb) return 3; return 0;}''')
    q = lib.Quiet()
    dfa(q, m)
    Engine(m.fns['bc_utf8_skip_bom'], Bom(m.fns['bc_utf8_skip_bom'], q)).run()
    rep.selftest('overlong forms accepted, two byte mark', {'utf8:accept', 'bom:wrong'} <= set(q.v))
