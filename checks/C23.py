"""Parsers never read or copy outside the text they were given: index and pointer relations by abstract interpretation."""
from engine import frontend, ir, lib, zone, ditypes
from engine.zone import plus, neg

# callee: pointer arguments that are read up to the terminator
READS = {'strlen': (0,), 'strcmp': (0, 1), 'strcasecmp': (0, 1), 'strchr': (0,), 'strrchr': (0,), 'strstr': (0, 1), 'strtol': (0,),
         'strtoul': (0,), 'atoi': (0,), 'strncmp': (0, 1), 'strncasecmp': (0, 1), 'strdup': (0,), 'strtok': (0,), 'strspn': (0, 1), 'strcspn': (0, 1)}
# callee: (pointer, length) pieces that are read
PIECES = {'bc_strndup': (0, 1), 'strndup': (0, 1), 'strnlen': (0, 1), 'memcmp': (0, 2), 'memcpy': (1, 2), 'memmove': (1, 2),
          'llvm.memcpy.p0.p0.i64': (1, 2), 'llvm.memmove.p0.p0.i64': (1, 2), 'memchr': (0, 2), 'fwrite': (0, 2), 'write': (1, 2)}
# stop at the end of the text
STOPS = {'bc_strndup', 'strndup', 'strnlen'}
# callee: (pointer, length) that are written
FILLS = {'memcpy': (0, 2), 'memmove': (0, 2), 'llvm.memcpy.p0.p0.i64': (0, 2), 'llvm.memmove.p0.p0.i64': (0, 2), 'llvm.memset.p0.i64': (0, 2),
         'memset': (0, 2), 'snprintf': (0, 1), 'fgets': (0, 1), 'read': (1, 2), 'fread': (0, 2), 'recv': (1, 2), 'strftime': (0, 1),
         'gethostname': (0, 1), 'getcwd': (0, 1), 'inet_ntop': (2, 3), 'strncpy': (0, 2)}
# callee: (text, length, position) of an error
PLACES = {'bc_error_parser': (1, 2, 3)}
# texts of the system, not of the user
SYSTEM = {'realpath', 'getcwd', 'getenv', 'strerror', 'gai_strerror', 'asctime', 'ctime', 'bm_abspath'}


class Bounds:
    def __init__(s, z):
        s.z = z
        s.done, s.why = {}, {}
        s.skipped = set()

    def ok(s, i, what, good, msg, st=None):
        k = (i, what)
        s.done[k] = s.done.get(k, True) and good
        if not good:
            s.why.setdefault(k, (msg, st))

    def text(s, root):
        """is the object a text, or a buffer of known size"""
        if root[:1] == '@':
            g = s.z.mod.globals.get(root[1:])
            return g is not None and g.init is not None and g.init[0] == 'str'
        d = s.z.fn.defs.get(root)
        if d is None:
            return s.z.ischar(('l', root))
        if d.op == 'alloca':
            return zone.arraysize(d) is not None
        return d.op == 'call' and d.callee not in SYSTEM and (d.callee in zone.ALLOC and s.chars(root) or s.z.ischar(('l', root)))

    def chars(s, root):
        """is an allocated object used as characters"""
        if not hasattr(s, '_chars'):
            s._chars = set()
            for i in s.z.fn.instrs():
                o = i.args[0] if i.op == 'load' and i.type == 'i8' else i.args[1] if i.op == 'store' and i.extra == 'i8' else None
                if o is not None and o[0] == 'l':
                    r = s.z._rt(o)
                    if r:
                        s._chars.add(r)
        return root in s._chars or s.z.ischar(('l', root))

    def known(s, st, l):
        """is the value made of variables the analysis follows"""
        for a in l[1]:
            n = a[2:] if a[1:2] == ':' else a
            d = s.z.fn.defs.get(n)
            if a.startswith('A:'):
                return False
            if d is not None and d.op in ('load', 'call', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor', 'mul',
                                          'extractvalue', 'fptosi', 'fptoui') and \
                    not any(a in r for r in st.z.d.values()) and a not in st.z.d and not a.startswith('T:'):
                return False
        return True

    def inside(s, st, p, start=True, lens=True):
        """None: 0 <= offset <= last position"""
        z = s.z
        o = p[1]
        if start and z.ub(st, neg(o)) > 0:
            return 'before'
        if p[0][:1] == '@':
            return None if z.ub(st, plus(o, (len(z.mod.globals[p[0][1:]].init[1]) - 1, {}), -1)) <= 0 else 'after'
        if z.le(st, o, (0, {'T:' + p[0]: 1})):
            return None
        n = z.lens.get(p[0])
        if lens and n is not None and z.le(st, o, (0, {n: 1}), -1):
            return None
        return 'after'

    def place(s, st, op):
        z = s.z
        if op[0] not in ('l', 'g', 'gep'):
            return None
        v, _ = z.nullflag(st, op)
        p = z.plin(st, op)
        if v == 1 or p is None or p[1] is None or not s.text(p[0]):
            return None
        return p

    def visit(s, i, st):
        z = s.z
        if i.op in ('load', 'store') and (i.type if i.op == 'load' else i.extra) == 'i8':
            p = s.place(st, i.args[0 if i.op == 'load' else 1])
            if p is None:
                return
            if not s.known(st, p[1]):
                s.skipped.add(i)
                return
            w = s.inside(st, p)
            v = 'read' if i.op == 'load' else 'written'
            s.ok(i, v, w is None, 'a character %s the text is %s' % ('before the start of' if w == 'before' else 'behind the end of', v), st)
            return
        if i.op != 'call' or i.callee is None:
            return
        reads = READS.get(i.callee, ())
        f = z.mod.fns.get(i.callee)
        pair = PIECES.get(i.callee)
        if f is not None and pair is None:
            ps = f.params
            two = pairs(f)
            reads = [k for k, (q, t) in enumerate(ps) if t == 'ptr' and q not in two and k < len(i.args) and ischar(f, q)]
            for k, (q, t) in enumerate(ps):
                if q in two and k + 1 < len(i.args):
                    s.piece(i, st, i.args[k], i.args[k + 1], False, own=True)
        for k in reads:
            if k >= len(i.args):
                continue
            p = s.place(st, i.args[k])
            if p is None or p[0][:1] == '@':
                continue
            if not s.known(st, p[1]):
                s.skipped.add(i)
                continue
            w = s.inside(st, p, lens=False)
            s.ok(i, 'arg%d' % k, w is None, '%s() is given a text that starts %s the text' % (i.callee, 'before' if w == 'before' else 'behind the end of'), st)
        if pair is not None and pair[1] < len(i.args):
            s.piece(i, st, i.args[pair[0]], i.args[pair[1]], i.callee in STOPS)
        fill = FILLS.get(i.callee)
        if fill is not None and fill[1] < len(i.args):
            s.piece(i, st, i.args[fill[0]], i.args[fill[1]], False, 'filled')
        pl = PLACES.get(i.callee)
        if pl is not None and pl[2] < len(i.args):
            n, a = z.lin(st, i.args[pl[1]]), z.lin(st, i.args[pl[2]])
            if n is not None and a is not None and s.place(st, i.args[pl[0]]) is not None and s.known(st, plus(a, n, -1)):
                s.ok(i, 'place', z.ub(st, neg(a)) <= 0 and z.le(st, a, n), 'the place of the error given to %s() is not inside the text' % i.callee, st)

    def reported(s, p, n):
        """is the length the one reported by the call that produced the text"""
        z = s.z
        d = z.fn.defs.get(p[0])
        for a in n[1]:
            q = z.fn.defs.get(a)
            if q is not None and q.op == 'load' and d is not None and d.op == 'call' and q.args[0] in d.args:
                return True
        return False

    def piece(s, i, st, ptr, num, stops, what='given', own=False):
        z = s.z
        p, n = s.place(st, ptr), z.lin(st, num)
        if p is None or n is None:
            return
        if not s.known(st, p[1]) or not s.known(st, n) and not stops:
            s.skipped.add(i)
            return
        if s.reported(p, n):
            return
        name = i.callee.split('.')[1] if i.callee.startswith('llvm.') else i.callee
        neglen = z.ub(st, neg(n)) > 0
        if z.fn.defs.get(num[1] if num[0] == 'l' else None) is not None or neglen:
            s.ok(i, what + ' length', not neglen, 'the length of the piece %s %s() may be negative' % ('filled by' if what == 'filled' else 'given to', name), st)
        w = s.inside(st, p)
        if w is None and not (stops and p[0] not in z.lens):
            # a text that is passed on with its length is followed by a terminator, a buffer is not
            d = z.fn.defs.get(p[0])
            last = 0 if own and (d is None or d.op != 'alloca') else 1
            w = s.inside(st, (p[0], plus(plus(p[1], n, 1), (last, {}), -1)), False)
        s.ok(i, what, w is None, 'the piece %s %s() %s' % ('filled by' if what == 'filled' else 'given to', name,
             'starts before the text' if w == 'before' else 'ends behind the end of the %s' % ('buffer' if what == 'filled' else 'text')), st)


def ischar(f, q):
    return zone.ischar(f, ('l', q))


def interesting(fn):
    for i in fn.instrs():
        if i.op == 'load' and i.type == 'i8' or i.op == 'store' and i.extra == 'i8':
            return True
        if i.op == 'call' and (i.callee in PIECES or i.callee in FILLS or i.callee in READS or i.callee in PLACES or i.callee in fn.module.fns):
            return True
    return False


def moving(z):
    for i in z.fn.instrs():
        if i.op == 'call':
            for k in [tab[i.callee] for tab in (PIECES, FILLS) if i.callee in tab] + [(k, k + 1) for k in range(len(i.args) - 1)]:
                if k[1] < len(i.args) and i.args[k[0]][0] == 'l' and i.args[k[1]][0] == 'l':
                    z.pair(i.args[k[0]][1], i.args[k[1]][1])


def pairs(fn):
    """text parameters whose length parameter the function relies on: {text: length}"""
    memo = fn.module.__dict__.setdefault('_pairs', {})
    if fn.name not in memo:
        memo[fn.name] = {}
        ps = fn.params
        cand = {ps[k][0]: ps[k + 1][0] for k in range(len(ps) - 1) if ps[k][1] == 'ptr' and ps[k + 1][1] == 'i64' and ischar(fn, ps[k][0])}
        if cand:
            z = zone.Zone(fn, modes=zone.switched(fn))
            z.lens = {}
            moving(z)
            try:
                z.run()
                b = Bounds(z)
                z.replay(b.visit)
                need = not all(b.done.values())
            except zone.TooMany:
                need = True
            memo[fn.name] = cand if need else {}
    return memo[fn.name]


def solve(fn, rep):
    """fixpoint with all flags kept apart, or with the states of the automaton only"""
    for full in (True, False):
        z = zone.Zone(fn, modes=None if full else zone.switched(fn), limit=LIMIT if full else 250000)
        z.lens = pairs(fn)
        moving(z)
        try:
            return z.run()
        except zone.TooMany as e:
            if not full:
                rep.count('functions not decided', sample=str(e))
    return None


LIMIT = 25000


def analyse(rep, prog, mod, done=None, only=None):
    done = set() if done is None else done
    for fn in lib.own(mod):
        if only and fn.name not in only or not interesting(fn):
            continue
        sig = (fn.name, repr([(i.op, i.res, i.callee, i.args) for i in fn.instrs()]))
        if sig in done:
            continue
        done.add(sig)
        z = solve(fn, rep)
        if z is None:
            continue
        b = Bounds(z)
        z.replay(b.visit)
        rep.count('functions analysed', sample='%s: %s' % (prog, fn.name))
        rep.count('steps to the fixpoint', z.visited)
        rep.count('values outside the analysis (not decided)', len(b.skipped))
        for (i, w), good in b.done.items():
            rep.count('obligations: ' + ('characters read' if w == 'read' else 'characters written' if w == 'written' else
                      'lengths of pieces' if w.endswith('length') else 'places of errors' if w == 'place' else
                      'texts passed on' if w.startswith('arg') else 'buffers filled' if w == 'filled' else 'pieces passed on'), sample='%s %s:%d %s' % (prog, fn.name, i.line, i.callee or i.op))
            if not good:
                msg, st = b.why[(i, w)]
                rep.violation('%s:%s:%s' % (fn.name, i.callee or w, w), i.loc(), '%s: %s' % (fn.name, msg), ['state: %s' % st.env, st.z.show()])


def run(rep, tier):
    rep.rule('Every read or write of a character of a text or of a buffer of known size lies between its first position and its terminator '
             '(last position); every text passed on starts inside the text it was taken from; every piece (pointer and length) has a length '
             'that is not negative and ends inside the text; every buffer filled by a call is at least as long as what the call may '
             'put there; the place of an error lies inside the text. Proved for all states by abstract interpretation: difference '
             'bounds between indexes, pointers, lengths and terminators, kept apart by the state of the automaton and by flags.')
    rep.assumption('a text is followed by a terminator, at its length if a length is passed with it; arithmetic does not wrap around')
    rep.assumption('lengths reported by the call that produced a text are right; values read from structures are not followed')
    done = set()
    for prog, mod in lib.progs():
        analyse(rep, prog, mod, done)
    rep.floor('obligations: characters read', 50)
    rep.floor('obligations: pieces passed on', 50)
    rep.floor('obligations: lengths of pieces', 30)
    rep.floor('obligations: texts passed on', 100)
    rep.floor('obligations: buffers filled', 8)
    rep.floor('obligations: places of errors', 20)

    def ex(body, sig='const char *src, size_t src_len'):
        q = lib.Quiet()
        analyse(q, 'x', frontend.snippet(HEAD + 'void blogc_content_parse(%s)\n{\n%s\n}\n' % (sig, body)))
        return q.v
    loop = 'size_t start = 0, current = 0; int state = 0; while (current < src_len) { char c = src[current]; %s current++; }'
    rep.selftest('clean', ex(loop % "if (state == 0) { start = current; state = 1; } else if (c == 10) { use(bc_strndup(src + start, current - start)); state = 0; }") == [])
    rep.selftest('behind', any(':read' in k for k in ex(loop % 'use2(src[current + 2]);')))
    rep.selftest('next', ex(loop % 'use2(src[current + 1]);') == [])
    rep.selftest('before', any(':read' in k for k in ex(loop % 'use2(src[current - 1]);')))
    rep.selftest('start', any('given' in k for k in ex(loop % 'if (c == 10) { use(bc_strndup(src + start, current - start)); start = current + 2; }')))
    rep.selftest('negative', any('length' in k for k in ex(loop % 'if (c == 10) { use(bc_strndup(src + start, current - start - 1)); start = current; }')))
    rep.selftest('strlen', any('arg0' in k for k in ex('use2(strlen(src + 3));', 'const char *src')))
    rep.selftest('found', ex('char *p = strchr(src, 47); if (p != NULL) use2(strlen(p + 1));', 'const char *src') == [])
    rep.selftest('found twice', any('arg0' in k for k in ex('char *p = strchr(src, 47); if (p != NULL) use2(strlen(p + 2));', 'const char *src')))
    rep.selftest('buffer', any('filled' in k for k in ex('char b[16]; use2(read(fd, b, 32));', 'int fd')))
    rep.selftest('buffer read', ex('char b[16]; int n = read(fd, b, 16); for (int i = 0; i < n; i++) use2(b[i]);', 'int fd') == [])
    rep.selftest('buffer read behind', any(':read' in k for k in ex('char b[16]; int n = read(fd, b, 16); for (int i = 0; i <= n; i++) use2(b[i]);', 'int fd')))
    rep.selftest('buffer read behind a test', any(':read' in k for k in ex('char b[16]; int n = read(fd, b, 16); for (int i = 0; i <= n; i++) { if (b[i] == 0) break; use2(b[i]); }', 'int fd')))
    rep.selftest('written', any('written' in k for k in ex('char *p = malloc(n); p[n] = 0; use(p);', 'size_t n')))
    rep.selftest('wrong length', any('given' in k for k in ex('blogc_template_parse(s, strlen(s) + 1);', 'const char *s')))


HEAD = r"""
#include <stdlib.h>
#include <string.h>
#include <stdbool.h>
#include <unistd.h>
char *bc_strndup(const char *s, size_t n);
void use(char *s);
void use2(int c);
__attribute__((noinline)) void blogc_template_parse(const char *src, size_t src_len) { for (size_t i = 0; i < src_len; i++) use2(src[i]); }
"""
