"""Only complete, properly nested templates are accepted: product of the template parser with the machine of open statements."""
from engine import frontend, ir, lib, ditypes, product

FN = 'blogc_template_parse'
OPEN = {'BLOCK': 'b', 'IF': 'i', 'IFDEF': 'i', 'IFNDEF': 'i', 'FOREACH': 'f'}
CLOSE = {'ENDBLOCK': 'b', 'ENDIF': 'ie', 'ENDFOREACH': 'f'}
NAME = {'b': "block", 'i': "conditional", 'e': "conditional", 'f': "iterator"}
PREFIX = 'BLOGC_TEMPLATE_NODE_'


def enumnames(mod, ref):
    """{value: name} of an enumerated type"""
    ref = ditypes.strip(mod, ref)
    d = mod.md_get(ref) if ref else None
    if d is None or d['kind'] != 'DICompositeType' or d.get('tag') != 'DW_TAG_enumeration_type':
        return None
    el = mod.md_get(d.get('elements', ''))
    return {int(e['value']): e['name'] for e in (mod.md_get(m) for m in (el or {}).get('items', ()))}


class Nesting:
    """observer state: (open statements, place, text not stored yet).
    place: 'T' text, 'B' text after a bracket, 'S' + its bracket + last byte inside a statement, 'E' + the same where the statement was
    stored in this round, 'X' after a statement stored without its two closing characters, '?' not known"""
    bytes = [ord(c) for c in '{%}']
    start = ('', 'T', False)

    def __init__(s, depth):
        s.depth = depth
        s.bad = {}
        s.emitted = {}
        s.accepted = 0
        s.ends = 0
        s.unnamed = 0
        s.deepest = ''

    def consumed(s, o, c):
        if o is None:
            return None
        st, place, text = o
        if place in 'TB':
            # None: what was read so far is stored in this round
            text = text is not None
            if c is None:
                return (st, '?', False)
            if place == 'B' and c in (ord('%'), ord('{')):
                return (st, 'S' + ('%' if c == ord('%') else '}') + '.', text)
            return (st, 'B' if c == ord('{') else 'T', text)
        if place[0] == 'E':
            if len(place) == 3:
                s.ends += 1
                if c != ord('}') or place[1] != place[2]:
                    return (st, 'X', False)
            return (st, 'T', False)
        if place[0] == 'S':
            return (st, place[:2] + (chr(c) if c in (ord('%'), ord('}')) else '.'), text)
        return o

    def lost(s, o):
        return None if o is None else (o[0], '?', False)

    def outside(s, x, p, i):
        s.note(x, p, i, 'below', 'a closing statement is taken although nothing is open')

    def note(s, x, p, i, kind, msg):
        if kind not in s.bad:
            s.bad[kind] = (i, msg, x.history(p))

    def stored(s, x, p, i, obj, m, v):
        if m[1] == 'type' and m[2] is not None:
            names = enumnames(x.mod, m[2])
            if names and all(n.startswith(PREFIX) for n in names.values()):
                p.heap[('m', obj, 'node')] = names.get(v, '?')[len(PREFIX):] if isinstance(v, int) else None
                if not isinstance(v, int):
                    s.unnamed += 1

    def call(s, x, p, i):
        if i.callee in ('bc_slist_append', 'bc_slist_prepend') and len(i.args) > 1:
            a = x.value(p, i.args[1])
            if isinstance(a, tuple) and a[0] == 'P':
                t = p.heap.get(('m', a[1], 'node'))
                if t:
                    s.emit(x, p, i, t)
            return ('V',)
        if i.callee is not None and (i.callee.startswith('bc_error_new') or i.callee == 'bc_error_parser'):
            return ('V',)
        return None

    def emit(s, x, p, i, t):
        if p.obs is None:
            return
        st, place, text = p.obs
        s.emitted[t] = s.emitted.get(t, 0) + 1
        if t != 'CONTENT':
            p.trace += (t.lower(),)
        top = st[-1:]
        if t in OPEN:
            st += OPEN[t]
        elif t in CLOSE:
            if not top or top not in CLOSE[t]:
                s.note(x, p, i, t.lower(), "a template is accepted in which '%s' %s" % (t.lower(), 'closes the open %s' % NAME[top] if top else 'closes nothing'))
                p.obs = None
                return
            st = st[:-1]
        elif t == 'ELSE':
            if top == 'e':
                s.note(x, p, i, 'else twice', "a template is accepted in which a conditional has more than one 'else'")
                p.obs = None
                return
            if top != 'i':
                s.note(x, p, i, 'else', "a template is accepted in which 'else' belongs to no conditional")
                p.obs = None
                return
            st = st[:-1] + 'e'
        if len(st) > s.depth:
            p.obs = None
            return
        if len(st) > len(s.deepest):
            s.deepest = st
        p.obs = (st, place if t == 'CONTENT' or place in '?X' else 'E' + place[1:], None if t == 'CONTENT' else False)

    def final(s, x, p, i):
        if p.heap['err'] or p.obs is None or i.args and x.value(p, i.args[0]) == ('N',):
            return
        st, place, text = p.obs
        if p.last is None:
            return
        s.accepted += 1
        if place == 'X':
            s.note(x, p, i, 'closing characters', "a template is accepted in which a statement does not end with its own closing characters, '%}' or '}}'")
        elif place[0] == 'S':
            s.note(x, p, i, 'unfinished', 'a template that ends inside a statement is accepted')
        elif st:
            s.note(x, p, i, 'unclosed ' + NAME[st[-1]], 'a template in which a %s is not closed is accepted' % NAME[st[-1]])
        elif text and place in 'TB':
            s.note(x, p, i, 'text', 'text at the end of a template is dropped')


def explore(rep, mod, fname, depth, limit=400000):
    fn = mod.fns[fname]
    ob = Nesting(depth)
    ps = fn.params
    text = next((n for n, t in ps if t == 'ptr'), None)
    length = next((n for n, t in ps if t == 'i64'), None)
    err = next((n for n, t in reversed(ps) if t == 'ptr' and n != text), None)
    try:
        x = product.Product(fn, text, length, err, ob)
        x.run(limit)
    except product.Undecided as e:
        rep.count('parsers not decided', sample=str(e))
        return None
    rep.count('configurations of parser and open statements', len(x.seen))
    rep.count('paths through one round', x.paths)
    rep.count('values of bytes told apart', len(x.alphabet))
    for t, n in ob.emitted.items():
        rep.count('statements stored: %s' % t.lower())
    rep.count('ends of the text at which a template is accepted', ob.accepted)
    if x.unknown or ob.unnamed:
        rep.count('values lost', sum(x.unknown.values()) + ob.unnamed)
    if ob.unnamed or not ob.emitted or not ob.accepted:
        # the kind of a node is not known: nothing can be said
        rep.count('parsers not decided', sample='statements are not recognised')
        return x
    for kind, (i, msg, hist) in ob.bad.items():
        rep.violation('%s:%s' % (fname, kind), i.loc(), msg, ['statements: ' + ' '.join(hist)])
    return x


SAMPLE = r'''
#include <stdlib.h>
#include <string.h>
#include <stdbool.h>
typedef struct l { struct l *next; void *data; } l;
typedef struct bc_error { int type; char *msg; } bc_error_t;
enum kind { BLOGC_TEMPLATE_NODE_IF = 1, BLOGC_TEMPLATE_NODE_ENDIF, BLOGC_TEMPLATE_NODE_CONTENT };
struct node { enum kind type; char *data; };
l *bc_slist_append(l *x, void *d);
bc_error_t *bc_error_new(int t, const char *m);
char *bc_strndup(const char *s, size_t n);
#define put(t, s, n) { struct node *x = malloc(sizeof(struct node)); x->type = t; x->data = bc_strndup(s, n); ast = bc_slist_append(ast, x); }
l *blogc_template_parse(const char *src, size_t len, bc_error_t **err)
{
    size_t current = 0, start = 0, open = 0;
    int state = 0;
    char kind = 0;
    enum kind type = 0;
    l *ast = NULL;
    while (current < len) {
        char c = src[current];
        bool last = current == len - 1;
        switch (state) {
        case 0:
            if (last) put(BLOGC_TEMPLATE_NODE_CONTENT, src + start, len - start)
            if (c == '{') state = 1;
            break;
        case 1:
            if (c == '%' || c == '{') { kind = c == '%' ? '%' : '}'; state = 2; put(BLOGC_TEMPLATE_NODE_CONTENT, src + start, current - start - 1) break; }
            state = 0;
            continue;
        case 2:
            if (c == 'i') { type = BLOGC_TEMPLATE_NODE_IF; open++; }
            else if (c == 'e' && OPEN) { type = BLOGC_TEMPLATE_NODE_ENDIF; open--; }
            else { *err = bc_error_new(1, "statement"); break; }
            state = 3;
            break;
        case 3:
            if (SIGN) { state = 4; break; }
            *err = bc_error_new(1, "end");
            break;
        case 4:
            if (c == '}') { put(type, src, 0) state = 0; start = current + 1; break; }
            *err = bc_error_new(1, "end");
        }
        if (*err != NULL) break;
        current++;
    }
    if (*err == NULL && (STATE)) *err = bc_error_new(1, "unfinished");
    if (*err == NULL && LEFT) *err = bc_error_new(1, "open");
    return ast;
}
'''


def run(rep, tier):
    rep.rule('The template parser is followed round by round (its numeric variables exact, every byte class, every truth of a test on an unknown) '
             'together with the stack of open statements that follows from the nodes it stores: every closing node closes the innermost open '
             'statement of its kind, a conditional gets one else, and where the parser returns without an error nothing is open, no statement is '
             'unfinished and no text after the last statement is left out.')
    rep.assumption('up to %d statements open at the same time; words of the text compared by name may compare either way' % (3 if tier == 'quick' else 4))
    rep.assumption('a variable of the parser larger than 40 is not followed')
    for prog, mod in lib.progs():
        for name in mod.fns:
            if name == FN:
                explore(rep, mod, name, 3 if tier == 'quick' else 4)
    if not rep.counts.get('parsers not decided'):
        rep.floor('configurations of parser and open statements', 500)
        rep.floor('ends of the text at which a template is accepted', 1)

    def ex(op='open > 0', state='state == 2 || state == 3 || state == 4', left='open > 0', sign='c == kind'):
        q = lib.Quiet()
        code = SAMPLE.replace('OPEN', op).replace('STATE', state).replace('LEFT', left).replace('SIGN', sign)
        x = explore(q, frontend.snippet(code), FN, 3)
        return None if x is None else {k.split(':')[1].split('_')[0] for k in q.v}
    rep.selftest('clean', ex() == set() and ex(op='open', state='state > 1') == set())
    rep.selftest('close without open', 'endif' in (ex(op='1') or ()))
    rep.selftest('wrong end', 'closing' in (ex(sign="c == '%' || c == '}'") or ()))
    rep.selftest('unfinished', 'unfinished' in (ex(state='state == 2') or ()))
    rep.selftest('left open', 'unclosed' in (ex(left='open > 1') or ()))
