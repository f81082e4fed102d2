"""The deploy login shell: validate, then execute git-shell with exactly what was validated."""
from engine import frontend, ir, lib, facts
from engine.paths import Rule, Engine, Sym
from engine.chars import Chars

SHELL, PARSE, QUOTE = 'bgr_shell', 'bgr_shell_command_parse', 'bc_shell_quote'
SERVICES = {b'git-receive-pack', b'git-upload-pack', b'git-upload-archive'}
EXEC = {'execl': 0, 'execlp': 0, 'execle': 0, 'execv': 0, 'execvp': 0, 'execve': 0, 'execvpe': 0, 'posix_spawn': 1,
        'posix_spawnp': 1}
EFFECTS = set(EXEC) | set('''system popen fork mkdir rmdir unlink unlinkat remove rename link linkat symlink symlinkat open
creat fopen freopen truncate chmod chown mkdtemp mkstemp mkfifo mknod chdir bc_rmdir_recursive'''.split())
FAILING = {'system': 'nonzero', 'mkdir': 'nonzero', 'unlink': 'nonzero', 'symlink': 'nonzero', 'chdir': 'nonzero',
           'rename': 'nonzero', 'link': 'nonzero'}
# strcmp(a,b)==0 and friends
EQ = {'strcmp': None, 'strncmp': 2, 'memcmp': 2, 'bcmp': 2}


class Gate(facts.Known):
    """effects only after validation; failure status on every failed step"""

    def __init__(s, fn, rep, mod):
        s.f, s.rep, s.mod = fn, rep, mod
        tr = {}
        for i in fn.instrs():
            if i.op == 'call' and i.res:
                if i.callee == PARSE:
                    tr[i.res] = 'parsed'
                elif i.callee in FAILING:
                    tr[i.res] = ('fail', i.res)
        s.execs = set()
        super().__init__(tr)

    def event(s, ts, ins, cx):
        if ins.op != 'call':
            return ts
        if ins.callee == PARSE:
            s.rep.count('validations found', 1)
        if ins.callee in EFFECTS:
            s.rep.count('effects checked against the validation', 1, '%s in %s' % (ins.callee, lib.fname(ins)))
            if ('parsed', 'nonzero') not in ts:
                s.rep.violation('early:%s' % ins.callee, ins.loc(),
                                '%s() can run before the command string has been validated' % ins.callee, cx.trace())
            if ins.callee in EXEC:
                ts = ts | {('exec', 1)}
        return ts

    def exit(s, ts, ins, cx):
        if ins.op != 'ret' or not ins.args:
            return
        s.rep.count('ways out of the shell checked')
        z = cx.null(cx.val(ins.args[0]))
        if z is False:
            return
        if ('parsed', 'zero') in ts or ('parsed', 'nonzero') not in ts:
            s.rep.violation('status:invalid', ins.loc(), 'leaves with success although no command was validated', cx.trace())
        elif ('exec', 1) in ts:
            s.rep.violation('status:exec', ins.loc(), 'leaves with success although executing git-shell failed', cx.trace())
        else:
            for x in ts:
                if isinstance(x[0], tuple) and x[0][0] == 'fail' and x[1] == 'nonzero':
                    s.rep.violation('status:%s' % s.f.defs[x[0][1]].callee, ins.loc(),
                                    'leaves with success although %s() failed' % s.f.defs[x[0][1]].callee, cx.trace())


def memo(f):
    return f


def conversions(fmt):
    """[(literal before, conversion)] for %s-only formats; None when unsupported"""
    out, lit, i = [], b'', 0
    while i < len(fmt):
        c = fmt[i:i + 1]
        if c == b'%':
            n = fmt[i + 1:i + 2]
            if n == b'%':
                lit += b'%'
                i += 2
                continue
            if n != b's':
                return None
            out.append((lit, 's'))
            lit = b''
            i += 2
            continue
        lit += c
        i += 1
    out.append((lit, None))
    return out


def sprintf_of(fn, ins):
    """(format bytes, args) of a formatting call"""
    m = fn.module
    k = {'snprintf': 2, 'sprintf': 1, 'bc_strdup_printf': 0}.get(ins.callee)
    if k is None:
        return None
    f = m.string(ins.args[k])
    return (f, ins.args[k + 1:])


def call_origins(fn, op, copies=lib.COPIES):
    r = set()
    for o in lib.origins(fn, op, copies):
        d = fn.defs.get(o[1]) if o[0] == 'l' else None
        r.add(d.callee if d is not None and d.op == 'call' else o)
    return r


def validated_text(fn, parse):
    """operands that denote the validated command text: the parser's argument and loads of the same cell"""
    a = parse.args[0]
    res = {a}
    d = fn.defs.get(a[1]) if a[0] == 'l' else None
    if d is not None and d.op == 'load':
        key = _cell(fn, d.args[0])
        for i in fn.instrs():
            if i.op == 'load' and _cell(fn, i.args[0]) == key:
                res.add(('l', i.res))
    return res


def _cell(fn, addr):
    from engine import ditypes
    b, off = ditypes.base_off(fn, addr)
    return (b, off)


class Cut(Rule):
    """at the formatting call that builds the git-shell command, the copy of the command text has been cut
    at its first blank"""

    def __init__(s, fn, rep, cmdarg, ins, text):
        s.f, s.rep, s.ins, s.text = fn, rep, ins, text
        s.copies = set()
        for o in lib.origins(fn, cmdarg):
            s.copies.add(o)
        s.bounded = all(o[0] == 'l' and fn.defs.get(o[1]) is not None and fn.defs[o[1]].op == 'call' and
                        fn.defs[o[1]].callee in ('bc_strndup', 'strndup') for o in s.copies)
        s.chars = {}
        for i in fn.instrs():
            if i.op == 'load' and i.type == 'i8' and lib.origins(fn, i.args[0]) & s.copies:
                s.chars[i.res] = i

    def init(s, fn):
        return frozenset()

    def edge(s, ts, frm, to, cx):
        for r in s.chars:
            v = cx.st.env.get(r)
            if v is not None and v[0] == 's' and v[1] in cx.st.facts or v is None and Sym(r) in cx.st.facts:
                if cx.null(v or ('s', Sym(r))) is True:
                    ts = ts | {'cut'}
        return ts

    def instr(s, ts, ins, cx):
        if ins.op == 'call' and ins.res and ('l', ins.res) in s.copies:
            ts = ts - {'cut'}
        if ins.op == 'store' and ins.extra == 'i8' and cx.val(ins.args[0]) == ('c', 0) and \
                lib.origins(s.f, ins.args[1]) & s.copies:
            ts = ts | {'cut'}
        if ins is s.ins:
            s.rep.count('command words checked')
            if 'cut' not in ts and not s.bounded:
                s.rep.violation('uncut', ins.loc(), 'the command handed to git-shell is not cut at its first blank: '
                                'unvalidated words follow', cx.trace())
        return ts


def executed(rep, fn):
    """what reaches exec and system"""
    mod = fn.module
    parses = list(fn.calls(PARSE))
    text = set()
    for p in parses:
        text |= validated_text(fn, p)
    for i in fn.calls():
        if i.callee in EXEC:
            rep.count('exec calls checked', 1, i.callee)
            strs = [mod.string(a) for a in i.args]
            if i.callee not in ('execlp', 'execl') or strs[:3] != [b'git-shell', b'git-shell', b'-c'] or len(i.args) != 5 or \
                    i.args[4] != ('null',):
                rep.violation('exec', i.loc(), 'executes something other than git-shell -c <validated command>')
                continue
            ok = False
            bufs = lib.origins(fn, i.args[3])
            for b in bufs:
                d = fn.defs.get(b[1]) if b[0] == 'l' else None
                makers = []
                if d is not None and d.op == 'alloca':
                    makers = [c for c in fn.calls() if c.callee in ('snprintf', 'sprintf') and lib.origins(fn, c.args[0]) == {b}]
                    other = [c for c in fn.calls() if c not in makers and c.callee not in ('strlen', 'printf', 'fprintf', 'puts') and
                             c is not i and any(lib.origins(fn, a) == {b} for a in c.args if a[0] in ('l', 'gep'))]
                    if other:
                        rep.violation('exec-text', other[0].loc(), 'the command for git-shell is also written by %s()' % other[0].callee)
                elif d is not None and d.op == 'call' and d.callee == 'bc_strdup_printf':
                    makers = [d]
                for c in makers:
                    f, args = sprintf_of(fn, c)
                    cv = conversions(f) if f is not None else None
                    if not cv or [x for x in cv] != [(b'', 's'), (b' ', 's'), (b'', None)]:
                        rep.violation('exec-text', c.loc(), 'the command for git-shell is not "<service> <quoted repository>"')
                        continue
                    word = lib.origins(fn, args[0], lib.COPIES)
                    if not word <= text and not all(mod.string(o) in SERVICES for o in word):
                        rep.violation('exec-word', c.loc(), 'the service handed to git-shell is not taken from the validated command')
                    if call_origins(fn, args[1], ()) != {QUOTE}:
                        rep.violation('exec-repo', c.loc(), 'the repository handed to git-shell is not shell-quoted')
                    else:
                        for q in lib.origins(fn, args[1]):
                            quoted(rep, fn, fn.defs[q[1]])
                    if not all(mod.string(o) in SERVICES for o in word):
                        Engine(fn, Cut(fn, rep, args[0], c, text)).run()
                    ok = True
            if not ok:
                rep.violation('exec-text', i.loc(), 'cannot see how the command for git-shell is composed')
        elif i.callee in ('system', 'popen'):
            rep.count('helper commands checked')
            for o in lib.origins(fn, i.args[0]):
                st = mod.string(o)
                d = fn.defs.get(o[1]) if o[0] == 'l' else None
                if st is not None and st.startswith(b'git '):
                    continue
                sp = sprintf_of(fn, d) if d is not None and d.op == 'call' else None
                cv = conversions(sp[0]) if sp and sp[0] is not None else None
                if not cv or not cv[0][0].startswith(b'git '):
                    rep.violation('helper', i.loc(), 'runs a helper command that is not a fixed git command')
                    continue
                for a in sp[1]:
                    if call_origins(fn, a, ()) != {QUOTE}:
                        rep.violation('helper-arg', d.loc(), 'interpolates unquoted text into a helper command')


def quoted(rep, fn, q):
    """the quoted path is built from the validated repository"""
    for o in lib.origins(fn, q.args[0], lib.COPIES):
        d = fn.defs.get(o[1]) if o[0] == 'l' else None
        if d is not None and d.op == 'call' and d.callee == PARSE:
            return
        if d is not None and d.op == 'call' and d.callee == 'bc_strdup_printf' and \
                any(PARSE in call_origins(fn, a) for a in d.args[1:]):
            rep.count('repository path comes from the validated command')
            return
    rep.violation('exec-repo-source', q.loc(), 'the repository handed to git-shell is not the validated one')


SQ, BS, SP, EX = ord("'"), ord('\\'), ord(' '), ord('!')


class Grammar(Chars):
    """the acceptor: every character the loop passes over is a step of  service ' ' (quoted-part | \\escape)+ ;
    accepting anywhere else is a violation.  state: (service seen, spec states)"""

    def __init__(s, fn, rep):
        s.f, s.rep = fn, rep
        s.mod = fn.module
        s.modes = lib.mode_phis(fn)
        p = fn.params[0][0]
        s.chars = {i.res for i in fn.instrs() if i.op == 'load' and i.type == 'i8' and lib.origins(fn, i.args[0]) == {('l', p)}}
        s.cmps = {}
        for i in fn.instrs():
            if i.op == 'call' and i.callee in EQ and i.res:
                for k in (0, 1):
                    st = s.mod.string(i.args[k])
                    if st is None:
                        continue
                    if lib.origins(fn, i.args[1 - k]) == {('l', p)}:
                        n = EQ[i.callee]
                        ln = None if n is None else (i.args[n][1] if i.args[n][0] == 'i' else -1)
                        s.cmps[i.res] = (st, ln, True)
            if i.op == 'call' and i.callee == 'bc_str_starts_with' and i.res:
                st = s.mod.string(i.args[1])
                if st is not None and lib.origins(fn, i.args[0]) == {('l', p)}:
                    s.cmps[i.res] = (st, len(st), False)
        s.idx = {}
        for i in fn.instrs():
            if i.op == 'icmp' and i.extra in ('eq', 'ne') and i.args[1][0] == 'i' and i.args[0][0] == 'l':
                s.idx.setdefault(i.args[0][1], set()).add(i.args[1][1])
            if i.op == 'switch' and i.args[0][0] == 'l':
                s.idx.setdefault(i.args[0][1], set()).update(v for v, _ in i.extra['cases'])
        s.idx = {k: v for k, v in s.idx.items() if v & {len(x) for x in SERVICES}}

    start = (False, frozenset(['cmd']))

    def step(s, st, cls, svc):
        out = set()
        for x in st:
            for c in cls:
                if x == 'cmd':
                    out.add(('out' if svc else 'bad') if c == SP else 'cmd')
                elif x == 'out':
                    out.add('in' if c == SQ else 'esc' if c == BS else 'bad')
                elif x == 'in':
                    out.add('out' if c == SQ else 'in')
                elif x == 'esc':
                    out.add('out' if c in (SQ, EX) else 'bad')
                else:
                    out.add('bad')
        return frozenset(out)

    def edge(s, ts, frm, to, cx):
        (svc, st), ch = s.narrowed(ts, cx)
        if not svc:
            at = set()
            for r, cs in s.idx.items():
                v = cx.st.env.get(r, ('s', Sym(r)))
                lo, hi, ex = cx.rng(v)
                if lo == hi and lo in cs:
                    at.add(lo)
            for r, (lit, ln, neg) in s.cmps.items():
                v = cx.st.env.get(r, ('s', Sym(r)))
                z = cx.null(v) if (v[0] == 'c' or v[1] in cx.st.facts) else None
                if z is None or z is not neg:
                    continue
                base = lit[:-1] if lit.endswith(b' ') else lit
                if base in SERVICES and (ln is None or ln == len(lit)):
                    if ln is None or lit != base or len(base) in at:
                        svc = True
        return ((svc, st), ch)

    def consume(s, state, c, ins, cx):
        s.rep.count('parser steps followed')
        return (state[0], s.step(state[1], c, state[0]))

    def exit(s, ts, ins, cx):
        if ins.op != 'ret':
            return
        z = cx.null(cx.val(ins.args[0]))
        if z is True:
            return
        ts, _ = s.flush(ts, ins, cx)
        s.rep.count('accepting ways out checked')
        if not ts[0]:
            s.rep.violation('parser:service', ins.loc(), 'accepts a command whose first word is none of the three git services', cx.trace())
        elif s.chars and ts[1] - {'out'}:
            s.rep.violation('parser:%s' % '+'.join(sorted(ts[1] - {'out'})), ins.loc(),
                            'accepts a command that is not a complete single quoted path after the service (%s)' % {
                                'in': 'unterminated quote', 'esc': 'dangling backslash', 'bad': 'text outside quotes',
                                'cmd': 'no path'}[sorted(ts[1] - {'out'})[0]], cx.trace())


class Main(facts.Known):
    def __init__(s, fn, rep):
        s.f, s.rep = fn, rep
        super().__init__({i.res: 'argc' for i in fn.instrs() if False})

    def exit(s, ts, ins, cx):
        if ins.op != 'ret':
            return
        s.rep.count('ways out of main checked')
        for o in lib.origins(s.f, ins.args[0]):
            d = s.f.defs.get(o[1]) if o[0] == 'l' else None
            if d is not None and d.op == 'call' and d.callee.startswith('bgr_') or o[0] == 'i' and o[1] != 0:
                continue
            if cx.null(cx.val(ins.args[0])) is False:
                continue
            s.rep.violation('main:status', ins.loc(), 'ends with success without running a hook or the shell', cx.trace())


def analyse(rep, mod):
    for n in (SHELL, PARSE):
        if n not in mod.fns:
            raise frontend.AnalysisBroken('no function ' + n)
    fn = mod.fns[SHELL]
    facts.run(fn, Gate(fn, rep, mod))
    executed(rep, fn)
    p = mod.fns[PARSE]
    g = Grammar(p, rep)
    if not g.chars:
        rep.count('acceptor without a character loop (grammar not followed)')
    Engine(p, g).run()
    m = mod.fns.get('main')
    if m is not None:
        facts.run(m, Main(m, rep))
        for i in m.calls():
            if i.callee in EFFECTS:
                rep.violation('main:%s' % i.callee, i.loc(), 'main itself runs %s()' % i.callee)


def run(rep, tier):
    rep.rule('(1) In the shell every effect (exec, system, mkdir, symlink, unlink, chdir ...) lies on paths where the result of the '
             'command parser is known non-NULL, and a path with a NULL result, a failed step or a failed exec returns non-zero. '
             '(2) exec runs git-shell -c with "<first word of the validated text> <bc_shell_quote of the validated repository>"; '
             'helper commands are literal git commands with quoted arguments. (3) The parser\'s transition relation (state '
             'variable x class of the character, from branch facts) is simulated by the grammar service SP (quoted | \\! | \\\')+; '
             'every accepting return must be in its accepting state after the service test succeeded at the right length.')
    rep.assumption('git-shell itself and the operating system; the environment variable of the test hook is not set by a client')
    mod = ir.load('receiver')
    analyse(rep, mod)
    rep.floor('effects checked against the validation', 3)
    rep.floor('exec calls checked', 1)
    rep.floor('accepting ways out checked', 1)
    m = frontend.snippet(r'''#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sys/stat.h>
char* bc_strdup(const char*);
char* bgr_shell_command_parse(const char *c){ size_t n=strlen(c); int st=0; for(size_t i=0;i<n;i++){ char ch=c[i];
 switch(st){case 0: if(ch==' '){ if(0==strncmp(c,"git-upload-pack",15)) {st=1; break;} return 0;} break;
 case 1: if(ch=='\''){st=2;break;} return 0; case 2: if(ch=='\'') st=1; break;}} return bc_strdup(c);}
int bgr_shell(int c, char**v){ mkdir("x",0); char*p=bgr_shell_command_parse(v[2]); if(!p) return 0;
execlp("git-shell","git-shell","-c",v[2],NULL); return 1;}''')
    q = lib.Quiet()
    analyse(q, m)
    rep.selftest('early effect, wrong status, raw command, wrong acceptor',
                 {'early:mkdir', 'status:invalid', 'exec-text', 'parser:service'} <= set(q.v))
