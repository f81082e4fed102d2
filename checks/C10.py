"""Code, descriptions and first headers are HTML-escaped: the encoder byte by byte, and where encoded text flows."""
import html
import re
from engine import frontend, ir, lib, ditypes, product

SPECIAL = b'&<>"\''
NAMES = ('FIRST_HEADER', 'DESCRIPTION')
COPY = {'bc_strdup': 0, 'bc_strndup': 0, 'bc_str_strip': 0, 'bc_str_lstrip': 0, 'bc_str_rstrip': 0, 'strdup': 0, 'strndup': 0}
ESC, RAW, UNK = 'encoded', 'raw', 'not known'
ENTITY = re.compile(r'&(#x?[0-9A-Fa-f]+|[A-Za-z0-9]+);')


def safe(t):
    """constant text without a markup character of its own"""
    return not (set(ENTITY.sub('', t.decode('latin-1'))) & set(SPECIAL.decode()))


def worst(*v):
    return RAW if RAW in v else UNK if UNK in v else ESC


class Encoder:
    """what a text-reading loop appends for each byte"""
    bytes = list(SPECIAL)
    first = True
    start = 0

    def __init__(s):
        s.bad = {}
        s.unk = 0
        s.dropped = set()
        s.pairs = set()
        s.ends = 0

    def consumed(s, o, c):
        if o is not None and o == 0 and c in SPECIAL:
            s.dropped.add(c)
        return 0

    def lost(s, o):
        return 0

    def outside(s, *a):
        pass

    def stored(s, *a):
        pass

    def final(s, x, p, i):
        s.ends += 1

    def call(s, x, p, i):
        c = i.callee or ''
        if c == 'bc_string_append_c':
            v = x.value(p, i.args[1])
            if product.lazy(v):
                k = p.bytes[v[1]] & set(SPECIAL)
                for b, w in v[2]:
                    if b in p.bytes[v[1]] and w & 255 in SPECIAL:
                        s.bad.setdefault(w & 255, i)
                del k
            elif isinstance(v, int):
                if v & 255 in SPECIAL:
                    s.bad.setdefault(v & 255, i)
            else:
                s.unk += 1
        elif c == 'bc_string_append':
            v = x.value(p, i.args[1])
            t = x.mod.string(v[1]) if isinstance(v, tuple) and v[0] == 'V' and len(v) > 1 else None
            if t is None:
                s.unk += 1
            elif not safe(t):
                s.bad.setdefault(bytes(t), i)
            else:
                k = p.bytes.get((0, ((x.pos, 1),)), x.every)
                for b in k & set(SPECIAL):
                    s.pairs.add((b, bytes(t)))
                    if html.unescape(t.decode('latin-1')) != chr(b) or not t.endswith(b';'):
                        s.bad.setdefault((b, bytes(t)), i)
        elif c.startswith('bc_string_append'):
            s.unk += 1
        else:
            return None
        p.obs = 1
        return ('V',)


class Escaping:
    def __init__(s, mod, rep):
        s.mod, s.rep = mod, rep
        s.enc = {}
        s.sums = {}

    # ---- encoders
    def encoder(s, fn):
        """verdict on the characters a function appends one by one"""
        if fn.name in s.enc:
            return s.enc[fn.name]
        s.enc[fn.name] = None
        best = None
        for n, t in fn.params:
            if t != 'ptr':
                continue
            ob = Encoder()
            try:
                x = product.Product(fn, n, None, None, ob)
                x.run(2000)
            except product.Undecided:
                continue
            if x.cut or ob.unk:
                best = (UNK, ob)
                continue
            best = (RAW if ob.bad or ob.dropped and ob.pairs else ESC, ob)
            break
        s.enc[fn.name] = best
        return best

    # ---- values
    def value(s, fn, op, seen=None):
        seen = seen or set()
        if (fn.name, op) in seen:
            return ESC
        seen = seen | {(fn.name, op)}
        if op[0] in ('null', 'undef', 'poison', 'i'):
            return ESC
        t = s.mod.string(op)
        if t is not None:
            return ESC if safe(t) else RAW
        if op[0] == 'gep':
            return s.value(fn, op[1], seen)
        if op[0] != 'l':
            return UNK
        d = fn.defs.get(op[1])
        if d is None:
            return RAW
        if d.op == 'phi':
            return worst(*[s.value(fn, v, seen) for v, _ in d.extra])
        if d.op == 'select':
            return worst(s.value(fn, d.args[1], seen), s.value(fn, d.args[2], seen))
        if d.op in ('getelementptr', 'freeze', 'bitcast'):
            return s.value(fn, d.args[0], seen)
        if d.op == 'call':
            c = d.callee
            if c in COPY:
                v = s.value(fn, d.args[COPY[c]], seen)
                return ESC if v == RAW and s.plain(fn, d.args[COPY[c]], d.block) else v
            if c == 'bc_string_free':
                return s.builder(fn, d.args[0], seen)
            if c in ('bc_strdup_printf',):
                return s.printf(fn, d.args[0], d.args[1:], seen)
            if c in s.mod.fns and not c.startswith('bc_'):
                return s.result(s.mod.fns[c], seen)
            return UNK
        if d.op == 'load':
            b, off = ditypes.base_off(fn, d.args[0])
            m = ditypes.member_at(fn, d.args[0])
            if m is not None and m[0] == 'bc_string_t' and m[1] == 'str':
                return s.builder(fn, b, seen)
            if m is not None and m[0] == 'bc_slist_t' and m[1] == 'data':
                # elements of a list
                for i in fn.calls('bc_slist_append', 'bc_slist_prepend'):
                    if s.value(fn, i.args[1], seen) == ESC and i.args[1] != ir.NULL:
                        a = lib.origins(fn, i.args[1], COPY)
                        if any(o[0] == 'l' and fn.defs.get(o[1]) is not None and fn.defs[o[1]].op == 'call' and s.encodes(fn.defs[o[1]].callee) for o in a):
                            return UNK
                return RAW
            a = fn.defs.get(b[1]) if b[0] == 'l' else None
            if a is not None and a.op == 'alloca':
                return s.cell(fn, b, seen)
            return UNK
        return UNK

    def plain(s, fn, op, block):
        """a test found no markup character in the text"""
        for o, c in lib.const_guards(fn, block):
            d = fn.defs.get(o[1]) if o[0] == 'l' else None
            if c == 0 and d is not None and d.op == 'call' and d.callee == 'strpbrk' and d.args[0] == op:
                t = s.mod.string(d.args[1])
                if t is not None and set(SPECIAL) <= set(t):
                    return True
        return False

    def encodes(s, c):
        return c in s.mod.fns and not c.startswith('bc_') and s.encoder(s.mod.fns[c]) is not None

    def result(s, fn, seen):
        k = fn.name
        if k in s.sums:
            return s.sums[k]
        s.sums[k] = ESC
        r = []
        for b in fn.blocks.values():
            if b.term.op == 'ret' and b.term.args:
                r.append(s.value(fn, b.term.args[0], seen))
        s.sums[k] = worst(*r) if r else UNK
        return s.sums[k]

    def cell(s, fn, a, seen):
        """what may be in a local variable whose address is passed on"""
        r = []
        for i in fn.instrs():
            if i.op == 'store' and ditypes.base_off(fn, i.args[1])[0] == a:
                r.append(s.value(fn, i.args[0], seen))
            elif i.op == 'call' and i.callee:
                for k, x in enumerate(i.args):
                    if a in lib.origins(fn, x):
                        r.append(s.out(s.mod.fns[i.callee], k, seen) if i.callee in s.mod.fns else UNK)
        return worst(*r) if r else UNK

    def out(s, fn, k, seen):
        """what a function stores where its parameter points"""
        key = (fn.name, k)
        if key in s.sums:
            return s.sums[key]
        s.sums[key] = ESC
        p = ('l', fn.params[k][0])
        r = []
        for i in fn.instrs():
            if i.op == 'store' and i.args[1] == p:
                v = s.value(fn, i.args[0], seen)
                s.rep.count('values handed out')
                r.append(v)
            elif i.op == 'call' and i.callee in s.mod.fns:
                for n, x in enumerate(i.args):
                    if x == p:
                        r.append(s.out(s.mod.fns[i.callee], n, seen))
        s.sums[key] = worst(*r) if r else ESC
        return s.sums[key]

    def pieces(s, fmt, args):
        """[constant text | (conversion, argument)] of a format"""
        r, n, pos = [], 0, 0
        t = fmt.decode('latin-1')
        for m in re.finditer(r'%([-+ #0]*)(\*|\d+)?(\.(\*|\d+))?(hh|h|ll|l|z|j|t)?([a-zA-Z%])', t):
            r.append(t[pos:m.start()].encode('latin-1'))
            pos = m.end()
            if m.group(6) == '%':
                r.append(b'%')
                continue
            n += (m.group(2) == '*') + (m.group(4) == '*')
            if n < len(args):
                r.append((m.group(6), args[n]))
            n += 1
        return r + [t[pos:].encode('latin-1')]

    def piece(s, fn, c, a, seen=None):
        if c == 's':
            return s.value(fn, a, seen)
        if c == 'c':
            return s.char(fn, a)
        return ESC

    def char(s, fn, a):
        if a[0] == 'i':
            return RAW if a[1] & 255 in SPECIAL else ESC
        return UNK

    def printf(s, fn, f, args, seen):
        t = s.mod.string(f)
        if t is None:
            return UNK
        return worst(*[(ESC if safe(x) else RAW) if isinstance(x, bytes) else s.piece(fn, x[0], x[1], seen) for x in s.pieces(t, args)])

    def builder(s, fn, op, seen):
        """everything appended to a text being built"""
        web = s.web(fn, op)
        r = []
        chars = False
        for i in fn.calls():
            if not (i.callee or '').startswith('bc_string_append') or not i.args or not (s.web(fn, i.args[0]) & web):
                continue
            c = i.callee
            if c == 'bc_string_append_c':
                v = s.char(fn, i.args[1])
                if v == UNK:
                    chars = True
                else:
                    r.append(v)
            elif c == 'bc_string_append_printf':
                r.append(s.printf(fn, i.args[1], i.args[2:], seen))
            else:
                o = lib.origins(fn, i.args[1])
                if all(x[0] == 'null' or s.mod.string(x) is not None for x in o):
                    r += [ESC if x[0] == 'null' or safe(s.mod.string(x)) else RAW for x in o]
                else:
                    r.append(s.value(fn, i.args[1], seen))
        if chars:
            e = s.encoder(fn)
            r.append(e[0] if e else UNK)
        return worst(*r) if r else ESC

    def web(s, fn, op):
        return {x for x in lib.origins(fn, op) if x[0] == 'l'}

    # ---- code
    def regions(s, fn):
        """state of the code element of every text built: 0 outside, 1 inside"""
        apps = {}
        for i in fn.calls():
            if (i.callee or '').startswith('bc_string_append') and i.args:
                for w in s.web(fn, i.args[0]):
                    apps.setdefault(w, []).append(i)
        for w, l in sorted(apps.items(), key=repr):
            if not any(s.tags(fn, i) for i in l):
                continue
            s.region(fn, {id(i) for i in l})

    def tags(s, fn, i):
        return any(isinstance(x, bytes) and b'<code' in x for x in s.flat(fn, i))

    def flat(s, fn, i):
        """pieces appended by a call"""
        if i.callee == 'bc_string_append_c':
            return [('c', i.args[1])]
        t = s.mod.string(i.args[1])
        if i.callee == 'bc_string_append_printf':
            return s.pieces(t, i.args[2:]) if t is not None else [('?', i.args[1])]
        return [bytes(t)] if t is not None else [('s', i.args[1])]

    def region(s, fn, calls):
        state = {fn.entry: {0}}
        work = [fn.entry]
        inside = {}
        entered = []
        while work:
            b = work.pop()
            st = set(state[b])
            for i in b.instrs:
                if id(i) not in calls:
                    continue
                for x in s.flat(fn, i):
                    if isinstance(x, bytes):
                        st = {s.after(x, v) for v in st}
                    elif 1 in st:
                        inside[(id(i), repr(x))] = (i, x, st == {1})
            if 1 in st and b.term.op == 'ret':
                entered.append(b)
            for n in b.succs:
                if not st <= state.get(n, set()):
                    state.setdefault(n, set()).update(st)
                    work.append(n)
        if entered:
            s.rep.count('functions in which a code element may be left open: not decided')
            return
        for i, x, sure in inside.values():
            s.rep.count('texts put into a code element')
            v = s.piece(fn, x[0], x[1]) if x[0] in ('s', 'c') else UNK
            if x[0] == 'c' and v == UNK:
                v = s.guarded(fn, i)
            if v == RAW:
                s.rep.violation('%s:code:%s' % (fn.name, s.label(fn, x[1])), i.loc(), 'text of a code element is not encoded')
            elif v == UNK:
                s.rep.count('texts of code elements that are not from the source or not decided')

    def label(s, fn, op):
        for o in sorted(lib.origins(fn, op), key=repr):
            d = fn.defs.get(o[1]) if o[0] == 'l' else None
            if d is not None and d.op == 'call' and d.callee:
                return d.callee
            if d is not None and d.op == 'load':
                return 'load'
        return 'text'

    def after(s, t, v):
        a, b = t.rfind(b'<code'), t.rfind(b'</code')
        return 1 if a > b else 0 if b > a else v

    def guarded(s, fn, i):
        """a character appended as it is next to its entities is left to the encoder analysis"""
        d = fn.defs.get(i.args[1][1]) if i.args[1][0] == 'l' else None
        while d is not None and d.op in ('zext', 'sext', 'trunc'):
            d = fn.defs.get(d.args[0][1]) if d.args[0][0] == 'l' else None
        if d is None or d.op != 'load':
            return UNK
        if all(o[0] == 'l' and s.value(fn, o) == ESC for o in lib.origins(fn, d.args[0])):
            return ESC
        near = {b for b in fn.blocks.values() if b is i.block or i.block in b.succs or any(i.block in x.succs for x in b.succs)}
        ents = [j for j in fn.calls('bc_string_append') if j.block in near or any(j.block in b.succs for b in near)]
        for j in ents:
            for o in lib.origins(fn, j.args[1]):
                t = s.mod.string(o)
                if t is not None and ENTITY.fullmatch(t.decode('latin-1')):
                    return UNK
        return RAW


def char(b):
    return "'%s'" % chr(b) if isinstance(b, int) else repr(b)


def analyse(rep, mod):
    e = Escaping(mod, rep)
    for fn in lib.own(mod):
        # direct encoders: entities appended to a text
        ents = [i for i in fn.calls('bc_string_append') if any((t := mod.string(o)) is not None and ENTITY.fullmatch(t.decode('latin-1')) and
                html.unescape(t.decode('latin-1')).encode('utf-8', 'replace') in [bytes([c]) for c in SPECIAL] for o in lib.origins(fn, i.args[1]))]
        if ents and not any(i.callee == fn.name for i in fn.calls()):
            v = e.encoder(fn)
            if v is None or v[0] == UNK:
                rep.count('encoders not decided')
            else:
                rep.count('encoders followed byte by byte')
                rep.count('markup characters replaced', len({b for b, _ in v[1].pairs}))
                for k, i in v[1].bad.items():
                    if isinstance(k, tuple):
                        rep.violation('%s:entity:%s' % (fn.name, char(k[0])), i.loc(), "%s is replaced by '%s'" % (char(k[0]), k[1].decode('latin-1')))
                    else:
                        rep.violation('%s:raw:%s' % (fn.name, char(k)), i.loc(), '%s reaches the output as it is' % char(k))
                for b in v[1].dropped:
                    if v[1].pairs and b not in v[1].bad:
                        rep.violation('%s:lost:%s' % (fn.name, char(b)), (fn.file, ents[0].line, fn.name, ()), '%s is left out' % char(b))
        e.regions(fn)
        for i in fn.calls('bc_trie_insert'):
            k = mod.string(i.args[1])
            if k is None or k.decode('latin-1') not in NAMES:
                continue
            rep.count('automatic variables set')
            v = e.value(fn, i.args[2])
            if v == RAW:
                rep.violation('%s:%s' % (fn.name, k.decode()), i.loc(), 'the automatic %s is not encoded' % k.decode())
            elif v == UNK:
                rep.count('automatic variables not decided')


HEAD = r"""
#include <stdlib.h>
#include <string.h>
#include <stdbool.h>
typedef struct { char *str; size_t len; size_t allocated_len; } bc_string_t;
bc_string_t *bc_string_new(void);
bc_string_t *bc_string_append(bc_string_t *s, const char *t);
bc_string_t *bc_string_append_c(bc_string_t *s, char c);
bc_string_t *bc_string_append_printf(bc_string_t *s, const char *f, ...);
char *bc_string_free(bc_string_t *s, bool f);
char *bc_strndup(const char *s, size_t n);
char *bc_strdup(const char *s);
void bc_trie_insert(void *t, const char *k, void *v);
char *blogc_htmlentities(const char *str)
{
    bc_string_t *rv = bc_string_new();
    for (size_t i = 0; str[i] != 0; i++) {
        switch (str[i]) {
            case '&': %s bc_string_append(rv, "&amp;"); break;
            case '<': bc_string_append(rv, "&lt;"); break;
            case '>': bc_string_append(rv, "%s"); break;
            case '"': bc_string_append(rv, "&quot;"); break;
            %s bc_string_append(rv, "&#39;"); break;
            default: bc_string_append_c(rv, str[i]);
        }
    }
    return bc_string_free(rv, false);
}
"""


def run(rep, tier):
    rep.rule('Every function that appends entities is followed for each byte of its text: &, <, >, double and single quote lead to their own '
             'entity and never to themselves. Whatever is appended between the tags of a code element, and every value inserted as automatic '
             'FIRST_HEADER or DESCRIPTION, is a result of such a function (through copies, stripping, builders, result and output parameters).')
    rep.assumption('a text that comes neither from a parameter, a piece of one, nor a list (such as the line ending) is not text of the source')
    analyse(rep, ir.load('blogc'))
    rep.floor('texts put into a code element', 1)
    rep.floor('automatic variables set', 1)

    def ex(body, amp='', gt='&gt;', sq="case '\\'':"):
        q = lib.Quiet()
        analyse(q, frontend.snippet(HEAD % (amp, gt, sq) + 'char *blogc_content_parse(const char *src, size_t n, char **first, void *t)\n{\nbc_string_t *rv = bc_string_new(); char *x = bc_strndup(src, n), *y = blogc_htmlentities(x); %s; return bc_string_free(rv, false);\n}\n' % body))
        return {k.split(':')[1] for k in q.v}
    good = 'bc_string_append(rv, "<p><code>"); bc_string_append(rv, y); bc_string_append(rv, "</code>"); bc_string_append(rv, x); bc_trie_insert(t, "DESCRIPTION", bc_strdup(y))'
    rep.selftest('clean', ex(good) == set())
    rep.selftest('not encoded in code', ex(good.replace('rv, y', 'rv, x')) == {'code'})
    rep.selftest('format', ex('bc_string_append_printf(rv, "<code>%s</code>%s", x, y)') == {'code'} and not ex('bc_string_append_printf(rv, "<code>%s</code>%s", y, x)'))
    rep.selftest('variable', ex(good.replace('bc_strdup(y)', 'bc_strdup(x)')) == {'DESCRIPTION'})
    rep.selftest('missing entity', ex(good, sq="case '/':") >= {'raw'})
    rep.selftest('wrong entity', ex(good, gt='&lt;') >= {'entity'})
    rep.selftest('entity kept', ex(good, amp="if (str[i + 1] == '#') { bc_string_append_c(rv, str[i]); break; }") >= {'raw'})
