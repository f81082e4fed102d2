"""Lexical states of a POSIX shell, and the composition of command texts.

States: u unquoted, s single quoted, d double quoted, b after backslash (unquoted), e after backslash (double
quoted), c comment, x inside a construct this lexer does not follow (command substitution, here-document)."""
from . import lib, ditypes

WORD_BREAK = b' \t\n;|&()<>'


def lex(state, text, prev=b' '):
    """state after the literal text"""
    for k in range(len(text)):
        c = text[k:k + 1]
        if state == 'u':
            if c == b"'":
                state = 's'
            elif c == b'"':
                state = 'd'
            elif c == b'\\':
                state = 'b'
            elif c == b'`' or c == b'$' and text[k + 1:k + 2] == b'(':
                state = 'x'
            elif c == b'#' and (k == 0 and prev in WORD_BREAK or k > 0 and text[k - 1:k] in WORD_BREAK):
                state = 'c'
        elif state == 's':
            if c == b"'":
                state = 'u'
        elif state == 'd':
            if c == b'"':
                state = 'u'
            elif c == b'\\':
                state = 'e'
            elif c == b'`' or c == b'$' and text[k + 1:k + 2] == b'(':
                state = 'x'
        elif state == 'b':
            state = 'u'
        elif state == 'e':
            state = 'd'
        elif state == 'c':
            if c == b'\n':
                state = 'u'
    return state


CONV = __import__('re').compile(rb'%([-+ #0]*)(\*|\d+)?(?:\.(\*|\d+))?(hh|h|ll|l|z|j|t|L|q)?([diouxXcsfFeEgGaApn%])')


def pieces(fmt):
    """[('lit', bytes) | ('conv', letter, nstars)]"""
    out, pos = [], 0
    for m in CONV.finditer(fmt):
        if m.start() > pos:
            out.append(('lit', fmt[pos:m.start()]))
        if m.group(5) == b'%':
            out.append(('lit', b'%'))
        else:
            out.append(('conv', m.group(5).decode(), (m.group(2) == b'*') + (m.group(3) == b'*')))
        pos = m.end()
    if pos < len(fmt):
        out.append(('lit', fmt[pos:]))
    return out


SAFE_LIT = set(b'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-./=+:,@%')
APPEND = {'bc_string_append', 'bc_string_append_c', 'bc_string_append_len', 'bc_string_append_printf', 'bc_string_append_escaped'}
READS = {'bc_string_free', 'bc_string_dup', 'bc_string_new'}
QUOTE = 'bc_shell_quote'


class Compose:
    """follows how a command text is put together"""

    def __init__(s, mod, flow, rep, prog, names):
        s.mod, s.flow, s.rep, s.prog = mod, flow, rep, prog
        s.names = names        # (mod, trie operand in fn) -> None or reason why the keys are not plain names
        s.busy = set()
        s.memo = {}

    def bad(s, kind, fn, ins, msg):
        if ins is not None:
            loc, f = ins.loc(), lib.fname(ins)
        else:
            loc, f = (fn.name, 0, fn.name, ()), fn.name
        s.rep.violation('%s:%s:%s' % (s.prog, f, kind), loc, msg)

    # states: frozenset of lexer states
    def literal(s, states, text):
        return frozenset(lex(q, text) for q in states)

    def quoted(s, states, fn, ins):
        s.rep.count('quoted pieces interpolated')
        if states - {'u'}:
            s.bad('quoted-inside', fn, ins, 'a shell-quoted text is put inside %s' % {
                's': 'single quotes', 'd': 'double quotes', 'b': 'a backslash escape', 'e': 'a backslash escape',
                'c': 'a comment', 'x': 'a command substitution'}[sorted(states - {'u'})[0]])
        return frozenset('u')

    def text(s, states, fn, op, ins):
        """append the value of op; returns the states after"""
        out = frozenset()
        for o in lib.origins(fn, op, {'bc_strdup': 0, 'strdup': 0}, geps=False):
            out |= s.one(states, fn, o, ins)
        return out

    def one(s, states, fn, o, ins):
        lit = s.mod.string(o)
        if lit is not None:
            s.rep.count('literal pieces')
            return s.literal(states, lit)
        if o[0] == 'null':
            return states
        key = (fn.name, o, states)
        if key in s.busy:
            return frozenset()
        s.busy.add(key)
        try:
            return s._one(states, fn, o, ins)
        finally:
            s.busy.discard(key)

    def _one(s, states, fn, o, ins):
        if o[0] != 'l':
            s.rep.count('interpolations of unresolved constants')
            s.bad('text', fn, ins, 'text of unknown origin reaches a shell command')
            return states
        d = fn.defs.get(o[1])
        if d is None:
            ps = [p for p, _ in fn.params]
            n = ps.index(o[1])
            out = frozenset()
            used = False
            for cf, ci in s.flow.callers(fn.name):
                used = True
                out |= s.text(states, cf, ci.args[n], ci)
            for tf, ti, k in s.flow.taken().get(fn.name, ()):
                used = True
                if tf is not None and getattr(ti, 'callee', None) == 'bc_trie_foreach' and k == 1:
                    if n == 0:
                        s.rep.count('variable names interpolated')
                        why = s.names(tf, ti.args[0])
                        if why:
                            s.bad('name', fn, ins, 'a variable name that may hold any text reaches a shell command (%s)' % why)
                        out |= states
                        continue
                s.bad('text', fn, ins, 'unquoted text reaches a shell command')
                out |= states
            if not used:
                s.bad('text', fn, ins, 'unquoted text (parameter of %s) reaches a shell command' % fn.name)
                out = states
            return out
        if d.op == 'call':
            if d.callee == QUOTE:
                for q in lib.origins(fn, d.args[0], {'bc_strdup': 0}):
                    qd = fn.defs.get(q[1]) if q[0] == 'l' else None
                    if qd is not None and qd.op == 'call' and qd.callee == QUOTE:
                        s.bad('twice', fn, d, 'text is shell-quoted twice')
                return s.quoted(states, fn, ins)
            if d.callee == 'bc_strdup_printf':
                return s.fmt(states, fn, d.args[0], d.args[1:], d)
            if d.callee == 'bc_string_free':
                return s.builder(states, fn, d.args[0], d)
            if d.callee in s.mod.fns:
                cf = s.mod.fns[d.callee]
                if d.callee in lib.COPIES or d.callee.startswith('bc_'):
                    s.bad('text', fn, d, 'the result of %s() reaches a shell command unquoted' % d.callee)
                    return states
                out = frozenset()
                for b in cf.blocks.values():
                    if b.term.op == 'ret' and b.term.args:
                        out |= s.text(states, cf, b.term.args[0], b.term)
                return out
            s.bad('text', fn, ins, 'the result of %s() reaches a shell command unquoted' % (d.callee or 'an indirect call'))
            return states
        if d.op == 'alloca':
            return s.buffer(states, fn, o, d, ins)
        if d.op == 'load':
            b, off = ditypes.base_off(fn, d.args[0])
            bd = fn.defs.get(b[1]) if b[0] == 'l' else None
            t = ditypes.member_at(fn, d.args[0])
            if t and t[0] == 'bc_string_t' or bd is not None and bd.op == 'call' and bd.callee == 'bc_string_new':
                if t is None or t[1] == 'str':
                    return s.builder(states, fn, b, d)
            if t and (t[0], t[1]) in s.flow.fields():
                out = frozenset()
                for sf, v, si in s.flow.fields()[(t[0], t[1])]:
                    out |= s.text(states, sf, v, si)
                return out
            s.bad('text', fn, ins, 'unquoted text (%s) reaches a shell command' % (t[1] if t else 'from memory'))
            return states
        s.bad('text', fn, ins, 'text of unknown origin reaches a shell command')
        return states

    def fmt(s, states, fn, fmtop, args, ins):
        outs = frozenset()
        for fo in lib.origins(fn, fmtop, geps=False):
            f = s.mod.string(fo)
            if f is None:
                s.bad('format', fn, ins, 'a command is composed with a format that is not constant')
                return states
            cur, k = states, 0
            for p in pieces(f):
                if p[0] == 'lit':
                    cur = s.literal(cur, p[1])
                    continue
                k += p[2]
                if k >= len(args):
                    break
                if p[1] == 's':
                    cur = s.text(cur, fn, args[k], ins)
                elif p[1] == 'c':
                    if args[k][0] == 'i':
                        cur = s.literal(cur, bytes([args[k][1] & 255]))
                    else:
                        s.bad('char', fn, ins, 'a single character of unknown value reaches a shell command')
                else:
                    s.rep.count('numbers interpolated')
                    if cur & {'b', 'e'}:
                        cur = frozenset({'b': 'u', 'e': 'd'}.get(q, q) for q in cur)
                k += 1
            outs |= cur
        return outs

    def buffer(s, states, fn, o, d, ins):
        """a local character array"""
        out = frozenset()
        n = 0
        for c in fn.calls():
            if c.args and lib.origins(fn, c.args[0]) == {o}:
                if c.callee in ('snprintf', 'sprintf'):
                    k = 2 if c.callee == 'snprintf' else 1
                    out |= s.fmt(states, fn, c.args[k], c.args[k + 1:], c)
                    n += 1
                elif c.callee == 'mkdtemp':
                    src = [i for i in fn.calls() if (i.callee or '').startswith('llvm.memcpy') and lib.origins(fn, i.args[0]) == {o}]
                    ok = src and all(s.mod.string(i.args[1]) is not None and set(s.mod.string(i.args[1])) <= SAFE_LIT for i in src)
                    if ok:
                        s.rep.count('generated names')
                        out |= states
                        n += 1
        if not n:
            s.bad('text', fn, ins, 'a buffer of unknown content reaches a shell command')
            return states
        return out

    # ---- builders
    def builder(s, states, fn, b, at):
        """lexer states of the text in builder b at instruction `at`, the builder starting in `states`"""
        bs = lib.origins(fn, b, geps=False)
        return s.flowto(states, fn, bs, at)

    def flowto(s, states, fn, bs, at):
        defs = [fn.defs[x[1]] for x in bs if x[0] == 'l' and x[1] in fn.defs]
        isnew = {d for d in defs if d.op == 'call' and d.callee == 'bc_string_new'}
        isparam = any(x[0] == 'l' and x[1] not in fn.defs for x in bs)
        if any(d not in isnew for d in defs):
            s.bad('builder', fn, at, 'cannot see where the command text starts')
            return states
        ins_ = {fn.entry: (frozenset(states) if isparam else frozenset())}
        work = [fn.entry]
        result = frozenset()
        done = {}
        while work:
            blk = work.pop()
            cur = ins_[blk]
            if done.get(blk) == cur:
                continue
            done[blk] = cur
            for i in blk.instrs:
                if i is at:
                    result |= cur
                if i.op == 'ret' and at is None:
                    result |= cur
                if i.op == 'call':
                    if i in isnew:
                        cur = frozenset(states)
                    elif cur:
                        cur = s.call(cur, fn, bs, i)
            for n in blk.succs:
                old = ins_.get(n, frozenset())
                if n not in ins_ or cur - old:
                    ins_[n] = old | cur
                    work.append(n)
        return result

    def call(s, cur, fn, bs, i):
        if not i.args or i.callee in READS:
            return cur
        hit = [k for k, a in enumerate(i.args) if a[0] == 'l' and lib.origins(fn, a, geps=False) & bs]
        if not hit:
            return cur
        if i.callee in APPEND and hit[0] == 0:
            if i.callee == 'bc_string_append':
                return s.text(cur, fn, i.args[1], i)
            if i.callee == 'bc_string_append_c':
                if i.args[1][0] == 'i':
                    return s.literal(cur, bytes([i.args[1][1] & 255]))
                s.bad('char', fn, i, 'a single character of unknown value reaches a shell command')
                return cur
            if i.callee == 'bc_string_append_printf':
                return s.fmt(cur, fn, i.args[1], i.args[2:], i)
            lit = s.mod.string(i.args[1])
            if lit is not None and i.args[2:] and i.args[2][0] == 'i':
                return s.literal(cur, lit[:i.args[2][1]])
            s.bad('text', fn, i, 'unquoted text reaches a shell command')
            return cur
        if i.callee == 'bc_trie_foreach' and hit == [2] and i.args[1][0] == 'g' and i.args[1][1] in s.mod.fns:
            cb = s.mod.fns[i.args[1][1]]
            acc = cur
            while True:
                n = acc | s.flowto(acc, cb, {('l', cb.params[2][0])}, None)
                if n == acc:
                    return acc
                acc = n
        if i.callee in s.mod.fns and not i.callee.startswith('bc_'):
            cf = s.mod.fns[i.callee]
            return s.flowto(cur, cf, {('l', cf.params[hit[0]][0])}, None)
        return cur
