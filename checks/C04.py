"""One complete response per request: typestate over what is written to the request's socket."""
import re
from engine import frontend, ir, lib, ditypes
from engine.paths import Rule, Engine, Sym
import importlib.util, os

_s = importlib.util.spec_from_file_location('c03', os.path.join(os.path.dirname(__file__), 'C03.py'))
c03 = importlib.util.module_from_spec(_s)
_s.loader.exec_module(c03)

WRITES = {'write': (0, 1, 2), 'send': (0, 1, 2), '__write_chk': (0, 1, 2)}
OTHERWRITES = {'writev', 'sendmsg', 'sendto', 'sendfile', 'dprintf', 'vdprintf', 'splice', 'pwrite', 'fdopen'}
FORMATS = {'bc_strdup_printf': 0}
PLAINTEXT = {'bc_str_split', 'bc_strdup', 'bc_strndup', 'bc_str_strip', 'bc_str_lstrip', 'bc_str_rstrip', 'strdup', 'strndup',
             'strchr', 'strrchr', 'strstr', 'memchr', 'strtok', 'strpbrk'}
SPEC = re.compile(rb'%([-+ #0]*)(\d+|\*)?(?:\.(\d+|\*))?(hh|h|ll|l|z|j|t)?([a-zA-Z%])')


def pieces(fmt, args):
    """format string -> [bytes | (conversion, operand)]; None when not understood"""
    out, pos, k = [], 0, 0
    for m in SPEC.finditer(fmt):
        out.append(fmt[pos:m.start()])
        pos = m.end()
        if m.group(5) == b'%':
            out.append(b'%')
            continue
        if m.group(2) == b'*' or m.group(3) == b'*' or k >= len(args):
            return None
        out.append((m.group(5).decode(), args[k]))
        k += 1
    out.append(fmt[pos:])
    r = []
    for x in out:
        if isinstance(x, bytes) and r and isinstance(r[-1], bytes):
            r[-1] += x
        elif x != b'':
            r.append(x)
    return r


class Response(Rule):
    """typestate: (phase, expected body length, sent status, logged status, flags)
    phase: none, body (headers sent, body of the given length due), done"""

    def __init__(s, fn, rep, readers, decoded):
        s.f, s.mod, s.rep, s.readers, s.decoded = fn, fn.module, rep, readers, decoded

    def init(s, fn):
        return ('none', None, None, None, frozenset(), None)

    def pure_call(s, ins):
        return True if ins.callee in ('stat', 'access', 'realpath', 'lstat', 'fstat') else None

    def bad(s, key, ins, msg, cx):
        s.rep.violation('%s:%s' % (lib.fname(ins), key), ins.loc(), msg, cx.trace())

    # ---- values
    def source(s, op, cx, n=0):
        """the formatting call whose text a buffer value points into"""
        v = cx.val(op)
        if v[0] == 's':
            d = s.f.defs.get(str(v[1]).rstrip("'"))
            if d is not None and d.op == 'call' and d.callee in FORMATS:
                return d
        r = set()
        for o in lib.origins(s.f, op):
            d = s.f.defs.get(o[1]) if o[0] == 'l' else None
            if d is not None and d.op == 'call' and d.callee in FORMATS:
                r.add(d)
            elif o[0] != 'null':
                return None
        return r.pop() if len(r) == 1 else None

    def lin(s, op, cx, depth=0):
        """value as constant plus sorted atoms, or None"""
        v = cx.val(op)
        if v[0] == 'c':
            return (v[1], ())
        d = s.f.defs.get(op[1]) if op[0] == 'l' else None
        if d is None or depth > 8:
            return (0, (('v', v),))
        if d.op in ('add', 'sub') and d.args[1][0] == 'i':
            a = s.lin(d.args[0], cx, depth + 1)
            return (a[0] + (d.args[1][1] if d.op == 'add' else -d.args[1][1]), a[1])
        if d.op == 'add':
            a, b = s.lin(d.args[0], cx, depth + 1), s.lin(d.args[1], cx, depth + 1)
            return (a[0] + b[0], tuple(sorted(a[1] + b[1])))
        if d.op in ('zext', 'sext', 'trunc'):
            return s.lin(d.args[0], cx, depth + 1)
        if d.op == 'call' and d.callee == 'strlen':
            t = s.mod.string(d.args[0])
            if t is not None:
                return (len(t), ())
            return (0, (('strlen', cx.val(d.args[0])),))
        if v[0] == 's' and v[1] != op[1]:
            e = s.f.defs.get(v[1])
            if e is not None and e is not d:
                return s.lin(('l', e.res), cx, depth + 1)
        return (0, (('v', v),))

    def size(s, parts, cx):
        n, atoms = 0, []
        for x in parts:
            if isinstance(x, bytes):
                n += len(x)
            elif x[0] == 's':
                t = s.mod.string(x[1])
                if t is not None:
                    n += len(t)
                else:
                    atoms.append(('strlen', cx.val(x[1])))
            else:
                return None
        return (n, tuple(sorted(atoms)))

    # ---- responses
    def start(s, ts, ins, src, cx):
        phase, due, status, logged, flags, base = ts
        if phase != 'none':
            s.bad('second-response', ins, 'a second response is started on this path', cx)
            return ts
        fmt = s.mod.string(src.args[0])
        p = pieces(fmt, src.args[1:]) if fmt is not None else None
        if p is None:
            s.bad('format', ins, 'the response text cannot be determined', cx)
            return ts
        s.rep.count('responses followed', 1, '%s: %r' % (ins.line, fmt[:60]))
        # status line
        st = None
        m = re.match(rb'HTTP/1\.[01] (\d\d\d) [^\r\n]*', p[0]) if isinstance(p[0], bytes) else None
        if m:
            st = ('c', int(m.group(1)))
        elif isinstance(p[0], bytes) and re.match(rb'HTTP/1\.[01] $', p[0]) and len(p) > 1 and p[1][0] in 'diu':
            st = cx.val(p[1][1])
            lo, hi, ex = cx.rng(st)
            if st[0] == 'c' and not 100 <= st[1] <= 599:
                s.bad('status', ins, 'status %d' % st[1], cx)
        else:
            s.bad('status-line', ins, 'the text written first does not begin with a status line', cx)
            return ts
        # headers up to the blank line
        head, body, seen = [], [], False
        for x in p:
            if seen:
                body.append(x)
            elif isinstance(x, bytes) and b'\r\n\r\n' in x:
                a, b = x.split(b'\r\n\r\n', 1)
                head.append(a)
                if b:
                    body.append(b)
                seen = True
            else:
                head.append(x)
        if not seen:
            s.bad('blank-line', ins, 'the header block does not end with an empty line', cx)
        text = b''
        ops = []
        for x in head:
            if isinstance(x, bytes):
                text += x
            else:
                text += b'\0%d\0' % len(ops)
                ops.append(x)
        lines = text.split(b'\r\n')
        length = None
        for ln in lines:
            if b'\n' in ln or b'\r' in ln:
                s.bad('line-ends', ins, 'header lines are not separated by CR LF: %r' % ln, cx)
        for ln in lines[1:]:
            m = re.match(rb'([A-Za-z0-9-]+): *(.*)$', ln)
            if not m:
                s.bad('header', ins, 'malformed header line %r' % ln, cx)
                continue
            if m.group(1).lower() == b'content-length':
                v = m.group(2).strip()
                if length is not None:
                    s.bad('length-twice', ins, 'two Content-Length headers', cx)
                if re.match(rb'\d+$', v):
                    length = (int(v), ())
                elif re.match(rb'\x00\d+\x00$', v) and ops[int(v[1:-1])][0] in 'udi':
                    length = s.lin(ops[int(v[1:-1])][1], cx)
        for k, (c, o) in enumerate(ops):
            if c == 's':
                s.rep.count('header texts checked')
                why = s.decoded(o)
                if why:
                    s.bad('header-injection', ins, 'request text that went through %s() is put into the response headers' % why, cx)
        if length is None:
            s.bad('no-length', ins, 'the response does not announce the length of its body', cx)
            return ('done', None, st, logged, flags, src.res)
        if body:
            n = s.size(body, cx)
            if n is None or n != length:
                s.bad('length', ins, 'the announced body length is not the length of the body in the same text', cx)
            phase, due = 'done', None
        elif length == (0, ()):
            phase, due = 'done', None
        else:
            phase, due = 'body', length
        if logged is not None and logged != st:
            s.bad('log', ins, 'the status sent is not the status logged', cx)
        if st == ('c', 200) or phase == 'body':
            s.rep.count('content responses checked for the method')
            if ('get', 1) not in flags:
                s.bad('method', ins, 'content is sent although the method is not known to be GET', cx)
        return (phase, due, st, logged, flags, src.res)

    def instr(s, ts, ins, cx):
        phase, due, status, logged, flags, base = ts
        if ins.op != 'call':
            return ts
        c = ins.callee
        if c in OTHERWRITES:
            s.bad('unmodelled:%s' % c, ins, '%s() is not followed by this analysis' % c, cx)
        if c in WRITES:
            fd, buf, n = (ins.args[k] for k in WRITES[c])
            if cx.val(fd)[0] == 'c':
                return ts
            s.rep.count('socket writes followed', 1, ins.line)
            src = s.source(buf, cx)
            if src is not None and base == src.res:
                return ts       # the rest of a text that is already being sent
            if src is not None and phase != 'body':
                ln = s.lin(n, cx)
                if ln != (0, (('strlen', cx.val(buf)),)) and not s.chunked(n, src):
                    s.bad('short-header', ins, 'the number of bytes written is not the length of the text', cx)
                return s.start(ts, ins, src, cx)
            if phase == 'body':
                bases = {o for o in lib.origins(s.f, buf) if o[0] == 'l'}
                if ('sent', tuple(sorted(map(repr, bases)))) == base:
                    return ts
                if s.lin(n, cx) != due and not s.same_cell(n, due):
                    s.bad('length', ins, 'the number of body bytes written is not the announced length', cx)
                if not s.sized(buf, n, cx):
                    s.bad('body', ins, 'the number of bytes written is not known to be the size of the buffer', cx)
                return ('done', None, status, logged, flags, ('sent', tuple(sorted(map(repr, bases)))))
            bases = {o for o in lib.origins(s.f, buf) if o[0] == 'l'}
            if base == ('sent', tuple(sorted(map(repr, bases)))):
                return ts
            s.bad('stray-write', ins, 'bytes are written %s' % ('before the response headers' if phase == 'none' else
                                                             'after the end of the response'), cx)
            return ts
        if c in ('fprintf', 'printf', 'dprintf', 'syslog') and len(ins.args) > 2:
            k = 1 if c != 'printf' else 0
            fmt = s.mod.string(ins.args[k])
            p = pieces(fmt, ins.args[k + 1:]) if fmt else None
            if p:
                texts = [o for x in p if not isinstance(x, bytes) for (q, o) in [x] if q == 's']
                ints = [o for x in p if not isinstance(x, bytes) for (q, o) in [x] if q in 'diu']
                if any(any(b[0] == 'l' and b[1] in s.lines for b in lib.origins(s.f, t)) for t in texts) and ints:
                    v = cx.val(ints[-1])
                    s.rep.count('log lines checked', 1, ins.line)
                    if status is not None and v != status:
                        s.bad('log', ins, 'the status logged is not the status sent', cx)
                    return (phase, due, status, v, flags, base)
        return ts

    def chunked(s, n, src):
        """a write loop: the length started as strlen of the text"""
        seen, work = set(), [n]
        ok = False
        while work:
            o = work.pop()
            if o in seen:
                continue
            seen.add(o)
            d = s.f.defs.get(o[1]) if o[0] == 'l' else None
            if d is None:
                return False
            if d.op == 'phi':
                work += [v for v, _ in d.extra]
            elif d.op in ('sub', 'zext', 'sext', 'trunc'):
                work.append(d.args[0])
            elif d.op == 'call' and d.callee == 'strlen':
                ok = any(x[0] == 'l' and x[1] == src.res for x in lib.origins(s.f, d.args[0]))
                if not ok:
                    return False
            else:
                return False
        return ok

    def cell(s, n):
        """memory cell a length was read from (through a write loop)"""
        r, seen, work = set(), set(), [n]
        while work:
            o = work.pop()
            if o in seen:
                continue
            seen.add(o)
            d = s.f.defs.get(o[1]) if o[0] == 'l' else None
            if d is None:
                return None
            if d.op == 'phi':
                work += [v for v, _ in d.extra]
            elif d.op in ('sub', 'zext', 'sext', 'trunc'):
                work.append(d.args[0])
            elif d.op == 'load':
                r.add(ditypes.base_off(s.f, d.args[0]))
            elif d.op == 'call' and d.callee == 'strlen':
                r.add(('strlen',) + tuple(sorted(map(repr, lib.origins(s.f, d.args[0])))))
            else:
                return None
        return r.pop() if len(r) == 1 else None

    def same_cell(s, n, due):
        a = s.cell(n)
        if a is None or due[0] != 0 or len(due[1]) != 1:
            return False
        k, v = due[1][0]
        return k == 'v' and v[0] == 's' and s.cell(('l', str(v[1]).rstrip("'"))) == a

    def sized(s, buf, n, cx):
        c = s.cell(n)
        for o in lib.origins(s.f, buf):
            d = s.f.defs.get(o[1]) if o[0] == 'l' else None
            if d is None or d.op != 'call':
                return o[0] == 'null'
            if c is not None and c[0] == 'strlen':
                if repr(o) not in c[1:]:
                    return False
            elif c is None or not any(ditypes.base_off(s.f, a) == c for a in d.args if a[0] in ('l', 'gep')):
                return False
        return True

    def after(s, ts, ins, cx):
        phase, due, status, logged, flags, base = ts
        if ins.res is None:
            return ts
        v = cx.val(('l', ins.res))
        if v[0] != 's' or v[1] == '?':
            return ts
        flags = frozenset(x for x in flags if v not in x[1:])
        c = ins.callee
        if c in s.readers:
            flags |= {('line', v)}
        elif c == 'strlen' and ('line', cx.val(ins.args[0])) in flags:
            flags |= {('zero-is-empty', v)}
        elif c in ('strcmp', 'strncmp', 'memcmp', 'bcmp'):
            lit = [a for a in ins.args[:2] if s.mod.string(a) == b'GET']
            if lit and (c == 'strcmp' or cx.val(ins.args[2])[0] == 'c' and cx.val(ins.args[2])[1] >= 4):
                flags |= {('cmp-get', v)}
        return (phase, due, status, logged, flags, base)

    def assume(s, ins, cx):
        if ins.op == 'call' and ins.callee == 'strlen':
            d = s.source(ins.args[0], cx)
            if d is not None and not (s.mod.string(d.args[0]) or b'%').startswith(b'%'):
                return [('ne', 0)]
        return ()

    def loaded(s, ts, ins, cx):
        if ins.type != 'i8':
            return ts
        phase, due, status, logged, flags, base = ts
        if ('line', cx.val(ins.args[0])) in flags:
            v = cx.val(('l', ins.res))
            if v[0] == 's' and v[1] != '?':
                return (phase, due, status, logged, flags | {('zero-is-empty', v)}, base)
        return ts

    def edge(s, ts, frm, to, cx):
        phase, due, status, logged, flags, base = ts
        add = set()
        for x in flags:
            if x[0] in ('line', 'zero-is-empty') and cx.null(x[1]) is True:
                add.add(('empty', 1))
            if x[0] == 'cmp-get' and cx.null(x[1]) is True:
                add.add(('get', 1))
        if phase == 'body' and due[0] == 0 and len(due[1]) == 1 and due[1][0][0] in ('v', 'strlen'):
            # an empty body is complete without a write
            if due[1][0][0] == 'v' and cx.null(due[1][0][1]) is True:
                return ('done', None, status, logged, flags | add, base)
        return (phase, due, status, logged, flags | add, base) if add else ts

    def exit(s, ts, ins, cx):
        phase, due, status, logged, flags, base = ts
        if ins.op != 'ret':
            return
        s.rep.count('ways out checked')
        if phase == 'body':
            s.bad('no-body', ins, 'a body was announced and is not sent on this path', cx)
        elif phase == 'none' and ('empty', 1) not in flags:
            s.bad('no-response', ins, 'returns without a response although a request line was read', cx)


def decoder(mod, fn, src):
    """value -> name of the function that could have put line ends into request text, or None"""
    t = c03.taint(fn, src)
    consty = {}

    def constant(f):
        if f not in consty:
            g = mod.fns[f]
            consty[f] = True
            for b in g.blocks.values():
                if b.term.op == 'ret' and b.term.args:
                    for o in lib.origins(g, b.term.args[0]):
                        d = g.defs.get(o[1]) if o[0] == 'l' else None
                        if o[0] in ('g', 'gep', 'null', 'i'):
                            continue
                        if d is not None and d.op == 'load' and ditypes.base_off(g, d.args[0])[0][0] == 'g':
                            continue
                        if d is not None and d.op == 'load' and any(x[0] in ('g', 'gep') for x in lib.origins(g, d.args[0])):
                            continue
                        consty[f] = False
        return consty[f]

    def walk(op, seen):
        for o in lib.origins(fn, op):
            if o[0] != 'l' or o in seen:
                continue
            seen.add(o)
            d = fn.defs.get(o[1])
            if d is None or o[1] not in t:
                continue
            if d.op == 'load':
                r = walk(d.args[0], seen)
                if r:
                    return r
            elif d.op == 'call':
                if d.callee in src:
                    continue
                if d.callee in mod.fns and constant(d.callee):
                    continue
                if d.callee not in PLAINTEXT:
                    return d.callee
                for a in d.args:
                    r = walk(a, seen)
                    if r:
                        return r
        return None
    return lambda op: walk(op, set())


class NoLineEnds(Rule):
    """what the reader of the request line stores is never a line end"""

    def __init__(s, fn, rep):
        s.f, s.rep = fn, rep

    def instr(s, ts, ins, cx):
        if ins.op == 'call' and ins.callee == 'bc_string_append_c':
            s.rep.count('characters stored by the reader', 1, ins.line)
            v = cx.val(ins.args[1])
            vs = [v] + [('s', y) for y, e in cx.st.expr.items() if e[0] in ('sext', 'zext') and e[1] == v]
            for y, e in cx.st.expr.items():
                if v == ('s', y) and e[0] in ('sext', 'zext', 'trunc'):
                    vs.append(e[1])
            for c in (10, 13):
                if not any(c in cx.rng(x)[2] or not cx.rng(x)[0] <= c <= cx.rng(x)[1] for x in vs):
                    s.rep.violation('%s:line-end' % lib.fname(ins), ins.loc(),
                                    'the request line may contain %s' % ('LF' if c == 10 else 'CR'), cx.trace())
        elif ins.op == 'call' and (ins.callee or '').startswith('bc_string_append'):
            s.rep.violation('%s:line-end' % lib.fname(ins), ins.loc(), 'unfiltered bytes of the request are kept as request line')
        return ts


def analyse(rep, mod, roots):
    src = c03.reads_input(mod)
    for r in roots:
        fn = mod.fns[r]
        rd = {i.callee for i in fn.calls() if i.callee in src}
        rep.count('request handlers', 1, r)
        rule = Response(fn, rep, rd, decoder(mod, fn, src))
        rule.lines = {i.res for i in fn.calls() if i.callee in rd and i.res}
        Engine(fn, rule).run()
        for f in sorted(rd):
            if f in mod.fns:
                Engine(mod.fns[f], NoLineEnds(mod.fns[f], rep)).run()
        seen, par = lib.reachable(mod, [r])
        for f in sorted(seen):
            if f in mod.fns and f != r:
                for i in mod.fns[f].calls():
                    if i.callee in WRITES or i.callee in OTHERWRITES:
                        if i.callee in WRITES and i.args[0][0] == 'i':
                            continue
                        rep.violation('%s:%s:elsewhere' % (f, i.callee), i.loc(),
                                      'writes to a descriptor outside of the request handler: ' + ' -> '.join(lib.chain(par, f)))


def run(rep, tier):
    rep.rule('The start routine of the request threads is explored path-sensitively with the state of the response as typestate. '
             'Every text written to the socket is taken apart by its format string: status line, header lines, blank line, body; the '
             'announced length must be the same linear expression (constants plus strlen of operands, or the same value) as the body '
             'bytes written; no second response, no stray bytes, no return without a complete response unless no request line '
             'arrived; content only after the method compared equal to "GET"; the logged status is the value sent; header operands '
             'carry request text only as received (no line ends).')
    rep.assumption('writes to a connected socket are complete or the connection is lost; bc_strdup_printf() follows printf')
    mod = ir.load('runserver')
    roots = c03.thread_roots(mod)
    if not roots:
        raise frontend.AnalysisBroken('no thread start routine')
    analyse(rep, mod, roots)
    rep.floor('responses followed', 4)
    rep.floor('socket writes followed', 3)
    rep.floor('ways out checked', 3)
    rep.floor('log lines checked', 1)
    base = r'''#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <unistd.h>
#include <pthread.h>
char *br_readline(int s){ static char b[9]; read(s,b,8); return b; }
char *br_urldecode(const char*); char* bc_strdup_printf(const char*,...); char **bc_str_split(char*,char,int);
char* bc_file_get_contents(const char *p,size_t*l);
static void *h(void *a){ int k=*(int*)a; char *q=br_readline(k); if(!q) return NULL; size_t n; char *o;
@ return NULL;}
int main(){pthread_t t; pthread_create(&t,NULL,h,NULL);return 0;}'''

    def ex(body):
        m = frontend.snippet(base.replace('@', body))
        q = lib.Quiet()
        analyse(q, m, c03.thread_roots(m))
        return {v.split(':', 1)[1] for v in q.v}
    err = 'o=bc_strdup_printf("HTTP/1.0 400 Bad\\r\\nContent-Length: %s\\r\\n\\r\\n%s", %s); write(k,o,strlen(o));'

    def e(a, b, c):
        return err.replace('%s', a, 1).replace('%s', b, 1).replace('%s', c, 1) if False else \
            'o=bc_strdup_printf("HTTP/1.0 400 Bad\\r\\nContent-Length: ' + a + '\\r\\n\\r\\n' + b + '"' + c + '); write(k,o,strlen(o));'
    rep.selftest('good error', ex(e('%zu', '<%s>', ',strlen(q)+2,q')) == set())
    rep.selftest('length off by one', ex(e('%zu', '<%s>', ',strlen(q)+1,q')) == {'length'})
    rep.selftest('constant length', ex(e('3', 'abc', '')) == set() and ex(e('4', 'abc', '')) == {'length'})
    rep.selftest('no response', ex('') == {'no-response'})
    rep.selftest('two responses', ex(e('0', '', '') + e('0', '', '')) == {'second-response'})
    g = 'if(strcmp(q,"GET")) {' + e('0', '', '') + ' return NULL;} char *c=bc_file_get_contents(q,&n); '
    ok = 'o=bc_strdup_printf("HTTP/1.0 200 OK\\r\\nContent-Length: %zu\\r\\n\\r\\n",n); write(k,o,strlen(o)); '
    rep.selftest('content', ex(g + ok + 'write(k,c,n);') == set())
    rep.selftest('content, wrong size', ex(g + ok + 'write(k,c,strlen(c));') == {'length'})
    rep.selftest('content, any method', ex('char *c=bc_file_get_contents(q,&n);' + ok + 'write(k,c,n);') == {'method'})
    rep.selftest('no body', ex(g + ok) == {'no-body'})
    rep.selftest('decoded header', ex('o=bc_strdup_printf("HTTP/1.0 302 Found\\r\\nLocation: %s\\r\\nContent-Length: 0\\r\\n\\r\\n",'
                                      'br_urldecode(q)); write(k,o,strlen(o));') == {'header-injection'})
    rep.selftest('log', ex(e('0', '', '') + 'fprintf(stderr,"%s %d",q,404);') == {'log'})
