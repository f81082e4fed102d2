"""Settings mean what the manual says wherever they are used: defaults, lookups, what each rule hands to blogc, where files come from."""
import ast, re
from engine import frontend, ir, lib, ditypes, loops
from engine.paths import Rule, Engine, TooBig, Sym
from checks import C26
from checks.C26 import token, table, LOOK

# blogcfile(5)
DOC = {'atom_ext': '.xml', 'atom_order': 'DESC', 'atom_posts_per_page': '10', 'atom_prefix': 'atom', 'atom_template': None, 'blog_prefix': None,
       'content_dir': 'content', 'date_format': '%b %d, %Y, %I:%M %p GMT', 'html_ext': '/index.html', 'html_order': 'DESC', 'index_prefix': None,
       'listing_entry': None, 'locale': None, 'main_template': 'main.tmpl', 'pagination_prefix': 'page', 'post_prefix': 'post',
       'posts_per_page': '10', 'posts_sort': None, 'run_from_make': None, 'source_ext': '.txt', 'tag_prefix': 'tag', 'template_dir': 'templates'}
FALSE = {None, '', 'false', '0', 'no', 'off'}
REQUIRED = {'AUTHOR_NAME', 'AUTHOR_EMAIL', 'BASE_DOMAIN', 'SITE_TITLE', 'SITE_TAGLINE'}
LISTS = {'posts', 'pages', 'tags', 'copy'}
# blogc-make(1): variables given to blogc by each rule; 'setting', '"constant"', 'tags[]' element of a list, '#' a number, 'slug'
HTML = {'DATE_FORMAT': 'date_format'}
ATOM = {'DATE_FORMAT': '"%Y-%m-%dT%H:%M:%SZ"'}
RULES = {
    'index': dict(HTML, MAKE_RULE='"index"', MAKE_TYPE='"post"'),
    'atom': dict(ATOM, MAKE_RULE='"atom"', MAKE_TYPE='"atom"'),
    'atom_tags': dict(ATOM, MAKE_RULE='"atom_tags"', MAKE_TYPE='"atom"', FILTER_TAG='tags[]'),
    'pagination': dict(HTML, MAKE_RULE='"pagination"', MAKE_TYPE='"post"', FILTER_PAGE='#', FILTER_PER_PAGE='posts_per_page'),
    'pagination_tags': dict(HTML, MAKE_RULE='"pagination_tags"', MAKE_TYPE='"post"', FILTER_PAGE='#', FILTER_PER_PAGE='posts_per_page', FILTER_TAG='tags[]'),
    'posts': dict(HTML, MAKE_RULE='"posts"', MAKE_TYPE='"post"', MAKE_SLUG='slug', IS_POST='"1"'),
    'tags': dict(HTML, MAKE_RULE='"tags"', MAKE_TYPE='"post"', FILTER_TAG='tags[]'),
    'pages': dict(HTML, MAKE_RULE='"pages"', MAKE_TYPE='"page"', MAKE_SLUG='slug'),
}
# rules with listings: (setting of the order, setting of the page size, page by page)
LISTING = {'index': ('html_order', 'posts_per_page', False), 'atom': ('atom_order', 'atom_posts_per_page', False),
           'atom_tags': ('atom_order', 'atom_posts_per_page', False), 'pagination': ('html_order', 'posts_per_page', True),
           'pagination_tags': ('html_order', 'posts_per_page', True), 'tags': ('html_order', 'posts_per_page', False)}
# sources: directory, prefixes, name, extension
SOURCES = {'posts[]': ('content_dir', 'blog_prefix', 'post_prefix', 'posts[]', 'source_ext'),
           'pages[]': ('content_dir', None, None, 'pages[]', 'source_ext'),
           'listing_entry': ('content_dir', 'blog_prefix', None, 'listing_entry', 'source_ext')}
TEMPLATES = {'main_template': ('template_dir', 'main_template'), 'atom_template': ('template_dir', 'atom_template')}
RUN = {'bm_exec_blogc': (1, 2)}
TOINT = {'strtol', 'atoi', 'atol', 'strtoul', 'strtoll', 'strtoull'}
SAMECASE = {'strcasecmp', 'strcmp', 'strncasecmp', 'strncmp'}


def txt(mod, op):
    s = mod.string(op)
    return None if s is None else s.rstrip(b'\0').decode('latin-1')


def tok(fn, op):
    t = token(fn, op)
    # constants as plain text
    if t and '"b' in t:
        t = re.sub(r'''"(b(?:'[^']*'|"[^"]*"))"''', lambda m: '"%s"' % ast.literal_eval(m.group(1)).rstrip(b'\0').decode('latin-1'), t)
    return t


def key_of(mod, fn, i):
    """the setting that a call looks up: its name, or None"""
    if i.op != 'call':
        return None
    a = None
    if i.callee in LOOK:
        a = i.args[LOOK[i.callee]]
    elif i.callee == 'bc_trie_lookup':
        m = loops.member(fn, i.args[0])
        if m and m[1] == 'settings':
            a = i.args[1]
    if a is None:
        return None
    ks = {txt(mod, o) for o in lib.origins(fn, a)}
    return ks


def tok2(mod, fn, op):
    """also for settings that are looked up without the functions of the context"""
    r = set()
    for o in lib.origins(fn, op, lib.COPIES, geps=False):
        d = fn.defs.get(o[1]) if o[0] == 'l' else None
        k = key_of(mod, fn, d) if d is not None else None
        if k:
            r |= k
        elif mod.string(o) is None or txt(mod, o):
            return tok(fn, op)
    return next(iter(r)) if len(r) == 1 else tok(fn, op)


def defaults(mod):
    """the table of settings: (global, {key: default})"""
    for n, g in mod.globals.items():
        if not g.const or g.init is None or g.init[0] != 'agg':
            continue
        rows = [x[1] for x in g.init[1] if x[0] == 'agg' and len(x[1]) == 2]
        t = {txt(mod, k): txt(mod, v) for k, v in rows if txt(mod, k) is not None}
        if 'html_ext' in t:
            return n, t
    return None, {}


def strings(mod, name):
    g = mod.globals.get(name)
    if g is None or g.init is None or g.init[0] != 'agg':
        return None
    return [txt(mod, x) for x in g.init[1] if x[0] != 'null']


class Default(Rule):
    """a lookup with a default gives the value that was found, the default only without one"""

    def __init__(s, fn, dflt):
        s.f, s.d = fn, dflt
        s.bad = []
        s.seen = 0

    def init(s, fn):
        return frozenset()

    def after(s, ts, ins, cx):
        if ins.callee == 'bc_config_get' and ins.res:
            s.seen += 1
            return frozenset({('v', cx.val(('l', ins.res)))})
        return ts

    def edge(s, ts, frm, to, cx):
        r = set()
        for x in ts:
            if x[0] == 'v' and cx.null(x[1]) is not None:
                r.add(('none',) if cx.null(x[1]) else ('some', x[1]))
            else:
                r.add(x)
        return frozenset(r)

    def exit(s, ts, ins, cx):
        if ins.op != 'ret' or not ins.args:
            return
        v = cx.val(ins.args[0])
        for x in ts:
            if x[0] == 'none' and v != ('s', Sym(s.d)):
                s.bad.append((ins, 'the default of a setting is not used when the setting is missing', cx.trace()))
            if x[0] == 'some' and v != x[1]:
                s.bad.append((ins, 'the value that was given for a setting is not used', cx.trace()))


class Needed(Rule):
    """a required variable that is missing makes the settings unusable"""

    def __init__(s, fn, keys):
        s.f, s.keys = fn, keys
        s.bad = None
        s.tested = 0

    def init(s, fn):
        return frozenset()

    def mine(s, ins):
        if ins.op != 'call' or ins.callee != 'bc_trie_lookup':
            return False
        m = loops.member(s.f, ins.args[0])
        if not m or m[1] != 'global':
            return False
        for o in lib.origins(s.f, ins.args[1], (), geps=False):
            d = s.f.defs.get(o[1]) if o[0] == 'l' else None
            if d is not None and d.op == 'load' and any(x[0] == 'g' and x[1] == s.keys for a in [d.args[0]] for x in deepwalk(s.f, a)):
                return True
        return False

    def assume(s, ins, cx):
        return [('eq', 0)] if s.mine(ins) else ()

    def after(s, ts, ins, cx):
        if s.mine(ins):
            s.tested += 1
            return ts | {('missing',)}
        return ts

    def exit(s, ts, ins, cx):
        if ('missing',) in ts and ins.op == 'ret' and cx.null(cx.val(ins.args[0])) is not True:
            s.bad = s.bad or (ins, cx.trace())


def deepwalk(fn, op, n=0):
    for x in ir.walk(op):
        yield x
        if x[0] == 'l' and n < 4:
            d = fn.defs.get(x[1])
            if d is not None and d.op in ('getelementptr', 'load'):
                yield from deepwalk(fn, d.args[0], n + 1)


def settings(rep, prog, mod):
    g, t = defaults(mod)
    if g is None:
        rep.count('programs without a table of settings')
        return {}
    rep.count('settings in the table', len(t))
    where = ('src/blogc-make/settings.c', 0, '')
    for k, v in DOC.items():
        if k not in t:
            rep.violation('%s:setting:%s' % (prog, k), where, "the documented setting '%s' is not among the settings that are read" % k)
        elif (t[k] or None) != v and not (k in ('posts_sort', 'run_from_make') and (t[k] or '').lower() in FALSE):
            rep.violation('%s:default:%s' % (prog, k), where, "the default of '%s' is %s, the manual says %s" % (k, t[k] or 'unset', v or 'unset'))
    for fn in lib.own(mod):
        for i in fn.calls('bc_config_get', 'bc_config_get_with_default'):
            if {txt(mod, o) for o in lib.origins(fn, i.args[1])} != {'settings'}:
                continue
            rep.count('reads of settings')
            if i.callee == 'bc_config_get_with_default':
                # both of the same row
                d = [fn.defs.get(a[1]) if a[0] == 'l' else None for a in i.args[2:4]]
                if all(x is not None and x.op == 'load' for x in d):
                    c = [rowcol(fn, x.args[0], g) for x in d]
                    if None not in c and (c[0][0] != c[1][0] or c[0][1] == c[1][1]):
                        rep.violation('%s:%s:row' % (prog, lib.fname(i)), i.loc(), 'a setting gets the default of another one')
        for i in fn.calls('bc_trie_insert'):
            m = loops.member(fn, i.args[0])
            if not m or m[1] != 'settings':
                continue
            rep.count('settings stored')
            for o in lib.origins(fn, i.args[2], lib.COPIES, geps=False):
                d = fn.defs.get(o[1]) if o[0] == 'l' else None
                if d is not None and d.op == 'call' and d.callee in ('bc_config_get', 'bc_config_get_with_default') and not same(fn, d.args[2], i.args[1]):
                    rep.violation('%s:%s:other' % (prog, lib.fname(i)), i.loc(), 'the value of one setting is stored under the name of another')
        if fn.name == 'bc_config_get_with_default':
            r = Default(fn, fn.params[-1][0])
            Engine(fn, r, 20000).run()
            if r.seen:
                rep.count('lookups with a default judged')
            for ins, msg, tr in r.bad:
                rep.violation('%s:%s:default' % (prog, fn.name), ins.loc(), msg, tr)
        got = {}
        for i in fn.instrs():
            if i.op == 'store':
                m = ditypes.member_at(fn, i.args[1])
                if not m or m[1] not in LISTS:
                    continue
                for o in lib.origins(fn, i.args[0], (), geps=False):
                    d = fn.defs.get(o[1]) if o[0] == 'l' else None
                    if d is not None and d.op == 'call' and d.callee == 'bc_config_get_list':
                        for k in {txt(mod, x) for x in lib.origins(fn, d.args[1])}:
                            got.setdefault(m[1], set()).add(k)
                            rep.count('sections read')
                            if k not in (m[1], 'copy_files' if m[1] == 'copy' else m[1]):
                                rep.violation('%s:%s:section:%s' % (prog, lib.fname(i), m[1]), i.loc(), "the list of %s is read from the section '%s'" % (m[1], k))
        if got:
            for k in LISTS - set(got):
                rep.violation('%s:%s:section:%s' % (prog, fn.name, k), (fn.file, 0, fn.name), "the section '%s' is not read" % k)
            for i in fn.calls('bc_config_parse'):
                for o in lib.origins(fn, i.args[2]):
                    l = strings(mod, o[1]) if o[0] == 'g' else None
                    for k in LISTS - set(l or LISTS):
                        rep.violation('%s:%s:list:%s' % (prog, fn.name, k), i.loc(), "the section '%s' is not parsed as a list" % k)
        for n in mod.globals:
            l = strings(mod, n)
            if l and 'AUTHOR_NAME' in l and any(x == ('g', n) for i in fn.instrs() for a in ir.operands(i) for x in ir.walk(a)):
                rep.count('lists of required variables')
                for k in REQUIRED - set(l):
                    rep.violation('%s:%s:required:%s' % (prog, fn.name, k), (fn.file, 0, fn.name), "'%s' is documented as required and is not" % k)
                r = Needed(fn, n)
                try:
                    Engine(fn, r, 60000).run()
                except TooBig:
                    continue
                if r.tested and r.bad:
                    rep.violation('%s:%s:required' % (prog, fn.name), r.bad[0].loc(), 'settings without a required variable are accepted', r.bad[1])
    return t


def rowcol(fn, op, g):
    """(index, member) of an address inside of a table"""
    idx = []
    n = 0
    while op[0] == 'l' and n < 4:
        d = fn.defs.get(op[1])
        if d is None or d.op != 'getelementptr':
            return None
        idx = list(d.args[1:]) + idx
        op = d.args[0]
        n += 1
    if op != ('g', g):
        return None
    row = next((a for a in idx if a[0] == 'l'), None)
    while row is not None and row[0] == 'l' and fn.defs.get(row[1]) is not None and fn.defs[row[1]].op in ('sext', 'zext'):
        row = fn.defs[row[1]].args[0]
    col = idx[-1] if idx and idx[-1][0] == 'i' and len(idx) > 2 else ('i', 0)
    return row, col[1]


def same(fn, a, b):
    """two operands that have the same value for sure, or that cannot be told"""
    if a == b:
        return True
    x, y = (fn.defs.get(o[1]) if o[0] == 'l' else None for o in (a, b))
    if x is None or y is None:
        return fn.module.string(a) is None or fn.module.string(b) is None or fn.module.string(a) == fn.module.string(b)
    if x.op == y.op == 'load':
        p, q = x.args[0], y.args[0]
        if p == q:
            return True
        for n in fn.module.globals:
            r, t = rowcol(fn, p, n), rowcol(fn, q, n)
            if r and t:
                return r == t
    return True


def lookups(rep, prog, mod, t):
    used = set()
    for fn in lib.own(mod):
        for i in fn.instrs():
            ks = key_of(mod, fn, i)
            if not ks:
                continue
            for k in ks:
                if k is None:
                    continue
                rep.count('lookups of settings')
                if k not in t:
                    rep.violation('%s:%s:unknown:%s' % (prog, lib.fname(i), k), i.loc(), "the setting '%s' does not exist, so that what the user gives is never seen here" % k)
                elif any(i.res == a[1] for j in fn.instrs() for a in flat(j) if a[0] == 'l'):
                    used.add(k)
    for k in sorted(set(DOC) & set(t) - used):
        rep.violation('%s:unused:%s' % (prog, k), ('src/blogc-make', 0, ''), "the documented setting '%s' has no effect" % k)


def flat(j):
    for a in ir.operands(j):
        yield from ir.walk(a)
    if j.op == 'phi':
        for v, _ in j.extra:
            yield from ir.walk(v)


class Given(Rule):
    """variables that were inserted when blogc is run, under given settings. ts: ('in', name) ('seen', what)"""

    def __init__(s, fn, order, size, asc, sort, neg):
        s.f, s.mod = fn, fn.module
        s.order, s.size, s.asc, s.sort, s.neg = order, size, asc, sort, neg
        s.runs = []

    def init(s, fn):
        return frozenset()

    def of(s, op):
        return tok(s.f, op)

    def kind(s, ins):
        if ins.op != 'call':
            return None
        if ins.callee in SAMECASE and s.order in (s.of(ins.args[0]), s.of(ins.args[1])):
            w = [txt(s.mod, o) for a in ins.args[:2] for o in lib.origins(s.f, a)]
            if any(x and x.lower() == 'asc' for x in w):
                return 'asc'
            if any(x and x.lower() == 'desc' for x in w):
                return 'desc'
        if ins.callee == 'bc_str_to_bool' and s.of(ins.args[0]) == 'posts_sort':
            return 'sort'
        if ins.callee in TOINT and s.of(ins.args[0]) == s.size:
            return 'size'

    def assume(s, ins, cx):
        k = s.kind(ins)
        if k == 'asc':
            return [('eq', 0)] if s.asc else [('ne', 0)]
        if k == 'desc':
            return [('ne', 0)] if s.asc else [('eq', 0)]
        if k == 'sort':
            return [('eq', 1)] if s.sort else [('eq', 0)]
        if k == 'size':
            return [('slt', 0)] if s.neg else [('sgt', 0)]
        return ()

    def after(s, ts, ins, cx):
        k = s.kind(ins)
        return ts | {('seen', 'asc' if k == 'desc' else k)} if k else ts

    def instr(s, ts, ins, cx):
        if ins.op != 'call':
            return ts
        if ins.callee == 'bc_trie_insert':
            k = txt(s.mod, ins.args[1]) if ins.args[1][0] != 'l' else None
            if k in ('FILTER_SORT', 'FILTER_REVERSE', 'FILTER_PER_PAGE', 'FILTER_PAGE'):
                return ts | {('in', k)}
        if ins.callee in RUN:
            s.runs.append((ts, ins, cx.trace()))
        return ts


def rules(rep, prog, mod):
    t = table(mod)
    if t is None:
        return
    for name, ls, ex in t[1]:
        sp = RULES.get(name)
        if sp is None or ex not in mod.fns:
            continue
        fn = mod.fns[ex]
        ins = {}
        open_keys = False
        for i in fn.calls('bc_trie_insert'):
            ks = {txt(mod, o) for o in lib.origins(fn, i.args[1])}
            if None in ks:
                open_keys = True
            for k in ks:
                ins.setdefault(k, []).append(i)
        runs = [i for i in fn.calls() if i.callee in RUN]
        if not runs:
            rep.count('rules that start blogc in a way that is not followed', 1, name)
            continue
        rep.count('rules judged')
        for k, want in sp.items():
            sites = ins.get(k, [])
            for i in sites:
                have = tok(fn, i.args[2])
                rep.count('variables given to blogc')
                if have != want and have is not None and '?' not in have and have != 'param':
                    rep.violation('%s:%s:%s' % (prog, name, k), i.loc(), 'the rule %s gives blogc %s for %s, documented is %s' % (name, have, k, want))
            for r in runs:
                maps = set()
                for a in RUN[r.callee]:
                    maps |= lib.origins(fn, r.args[a], (), geps=False)
                if open_keys:
                    continue
                if not any(fn.dominates(i, r) and lib.origins(fn, i.args[0], (), geps=False) & maps for i in sites):
                    rep.violation('%s:%s:%s:missing' % (prog, name, k), r.loc(), 'the rule %s can run blogc without %s' % (name, k))
        for k in ins:
            if k and k.startswith('MAKE_') and k not in sp and k not in ('MAKE_TAGS', 'MAKE_ENV', 'MAKE_ENV_DEV'):
                rep.violation('%s:%s:%s:extra' % (prog, name, k), ins[k][0].loc(), 'the rule %s gives blogc %s, which is not documented for it' % (name, k))
        if name not in LISTING:
            for k in ('FILTER_PAGE', 'FILTER_PER_PAGE', 'FILTER_TAG'):
                for i in ins.get(k, ()):
                    rep.violation('%s:%s:%s:extra' % (prog, name, k), i.loc(), 'the rule %s, which builds single pages, filters the sources' % name)
            continue
        order, size, paged = LISTING[name]
        for k in ('FILTER_PER_PAGE',):
            for i in ins.get(k, ()):
                have = tok(fn, i.args[2])
                if have != size and have in DOC:
                    rep.violation('%s:%s:%s' % (prog, name, k), i.loc(), 'the rule %s takes the page size from %s instead of %s' % (name, have, size))
        if open_keys:
            continue
        for asc in (False, True):
            for sort in (False, True):
                for neg in (False,) if paged else (False, True):
                    r = Given(fn, order, size, asc, sort, neg)
                    try:
                        Engine(fn, r, 60000).run()
                    except TooBig:
                        rep.count('rules not decided', 1, name)
                        continue
                    for ts, i, tr in r.runs:
                        has = {x[1] for x in ts if x[0] == 'in'}
                        seen = {x[1] for x in ts if x[0] == 'seen'}
                        rep.count('runs of blogc judged for each setting')
                        case = '%s = %s, posts_sort = %s, %s %s' % (order, 'ASC' if asc else 'DESC', 'true' if sort else 'false', size, 'negative' if neg else 'positive')
                        checks = []
                        if 'sort' in seen:
                            checks.append(('FILTER_SORT', sort))
                        if {'asc', 'sort'} <= seen:
                            checks.append(('FILTER_REVERSE', sort == asc))
                        if not paged and 'size' in seen:
                            checks.append(('FILTER_PER_PAGE', not neg))
                            checks.append(('FILTER_PAGE', not neg))
                        if not seen & {'asc', 'sort'} and ('FILTER_REVERSE' in ins or 'FILTER_SORT' not in ins):
                            other = {tok(fn, a) for j in fn.calls() if j.callee in SAMECASE for a in j.args[:2]} & {'html_order', 'atom_order'}
                            if other - {order}:
                                rep.violation('%s:%s:order' % (prog, name), i.loc(), 'the rule %s takes the order from %s instead of %s' % (name, sorted(other)[0], order))
                            elif not other and not any(j.callee in LOOK and key_of(mod, fn, j) == {order} for j in fn.calls()):
                                rep.violation('%s:%s:order' % (prog, name), i.loc(), 'the rule %s does not look at %s' % (name, order))
                        if 'asc' not in seen and 'sort' in seen:
                            other = {tok(fn, a) for j in fn.calls() if j.callee in SAMECASE for a in j.args[:2]} & {'html_order', 'atom_order'}
                            if other and order not in other:
                                rep.violation('%s:%s:order' % (prog, name), i.loc(), 'the rule %s takes the order from %s instead of %s' % (name, sorted(other)[0], order))
                        for k, w in checks:
                            if (k in has) != w:
                                rep.violation('%s:%s:%s:%s' % (prog, name, k, 'missing' if w else 'present'), i.loc(), 'the rule %s runs blogc %s %s although %s' % (
                                    name, 'without' if w else 'with', k, case), tr)


def places(rep, prog, mod):
    for fn in lib.own(mod):
        for i in fn.calls('bm_generate_filename'):
            slug = tok(fn, i.args[3])
            sp = SOURCES.get(slug)
            if sp is None or tok(fn, i.args[0]) not in DOC:
                continue
            have = tuple(tok(fn, a) for a in i.args)
            rep.count('names of sources judged')
            for h, w in zip(have, sp):
                if h != w and not (h and ('?' in h or h == 'param')):
                    rep.violation('%s:%s:source:%s' % (prog, lib.fname(i), slug), i.loc(), 'the source of %s is looked for with %s instead of %s' % (
                        slug.rstrip('[]'), h or 'nothing', w or 'nothing'))
        for i in fn.calls('bc_strdup_printf'):
            have = tuple(tok2(mod, fn, a) for a in i.args[1:])
            for k, sp in TEMPLATES.items():
                if k in have:
                    rep.count('names of templates judged')
                    have = tuple(x.split('|')[-1] if x and x.startswith('""|') else x for x in have)
                    if have != sp and not any(x is None or '?' in x for x in have):
                        rep.violation('%s:%s:template:%s' % (prog, lib.fname(i), k), i.loc(), 'the template is looked for in %s instead of %s' % (have[0], sp[0]))
        for i in fn.calls():
            f = lib.origins(fn, i.args[1]) if i.callee == 'bc_string_append_printf' else ()
            if any('LC_ALL=' in (txt(mod, x) or '') for x in f):
                have = set()
                for o in lib.origins(fn, i.args[2], (), geps=False):
                    d = fn.defs.get(o[1]) if o[0] == 'l' else None
                    if d is not None and d.op == 'call' and d.callee == 'bc_shell_quote':
                        for p in lib.origins(fn, d.args[0], (), geps=False):
                            e = fn.defs.get(p[1]) if p[0] == 'l' else None
                            have |= key_of(mod, fn, e) or {None} if e is not None else {None}
                rep.count('locales judged')
                if None not in have and have and have != {'locale'}:
                    rep.violation('%s:%s:locale' % (prog, lib.fname(i)), i.loc(), 'the locale is taken from the setting %s' % sorted(have)[0])


def analyse(rep, prog, mod):
    t = settings(rep, prog, mod)
    if t:
        lookups(rep, prog, mod, t)
    rules(rep, prog, mod)
    places(rep, prog, mod)


BASE = r'''#include <stdlib.h>
#include <string.h>
#include <stdbool.h>
typedef struct { void *settings, *global; char **posts; } bm_settings_t;
typedef struct { bm_settings_t *settings; } bm_ctx_t;
void *bc_trie_lookup(void *t, const char *k); void bc_trie_insert(void *t, const char *k, void *v); char *bc_strdup(const char *s); bool bc_str_to_bool(const char *s);
void *bc_trie_new(void*);
const char *bm_ctx_settings_lookup(bm_ctx_t *c, const char *k);
const char *bm_ctx_settings_lookup_str(bm_ctx_t *c, const char *k);
int bm_exec_blogc(bm_ctx_t *c, void *g, void *l, bool li, void *le, void *t, void *o, void *s, bool f);
static const struct { const char *k, *v; } tab[] = {{"html_ext","/index.html"},{"html_order","%(order)s"},{"date_format","%%b %%d, %%Y, %%I:%%M %%p GMT"},{"posts_per_page","10"},{"posts_sort",NULL},{NULL,NULL}};
const char *keep(int i) { return tab[i].v; }
static void *lst(bm_ctx_t *c) { return (void*) bm_ctx_settings_lookup(c, "%(key)s"); }
static int index_exec(bm_ctx_t *c, void *o) { int rv = 0; void *v = bc_trie_new(free);
  const char *w = bm_ctx_settings_lookup_str(c, "html_order"); bool asc = strcasecmp(w, "asc") == 0; bool sort = bc_str_to_bool(bm_ctx_settings_lookup(c, "posts_sort"));
  if (sort) bc_trie_insert(v, "FILTER_SORT", bc_strdup("1"));
  if (sort %(cmp)s asc) bc_trie_insert(v, "FILTER_REVERSE", bc_strdup("1"));
  long n = strtol(bm_ctx_settings_lookup_str(c, "posts_per_page"), NULL, 10);
  if (n %(neg)s) { bc_trie_insert(v, "FILTER_PAGE", bc_strdup("1")); bc_trie_insert(v, "FILTER_PER_PAGE", bc_strdup(bm_ctx_settings_lookup(c, "posts_per_page"))); }
  bc_trie_insert(v, "DATE_FORMAT", bc_strdup(bm_ctx_settings_lookup(c, "%(date)s")));
  bc_trie_insert(v, "MAKE_RULE", bc_strdup("index")); %(type)s bc_trie_insert(v, "MAKE_TYPE", bc_strdup("post"));
  rv = bm_exec_blogc(c, v, NULL, true, NULL, NULL, o, NULL, false); return rv; }
static int other_exec(bm_ctx_t *c, void *o) { return 0; }
const struct { const char *name; void *(*l)(bm_ctx_t*); int (*e)(bm_ctx_t*, void*); } rules[] = {{"index", lst, index_exec}, {"x", lst, other_exec}, {"y", NULL, other_exec}};
int main(int argc, char **argv) { return rules[argc].e(NULL, NULL); }'''
GOOD = dict(order='DESC', key='html_ext', date='date_format', type='', cmp='==', neg='>= 0')
# settings that the example does not have
BARE = {'setting:' + k for k in DOC} | {'unused:' + k for k in DOC}


def run(rep, tier):
    rep.rule('The table of settings holds every documented setting with its documented default; each is stored under its own name, the given value before the '
             'default; the documented lists come from their sections and the required variables are required. Every lookup names an existing setting and every setting '
             'is used. For each build rule, every variable that the manual documents is given to blogc, on all paths and with the documented origin '
             '(setting, constant, element, number); order, sorting and page size follow from the settings of this rule for every combination of '
             'ascending, sorted and negative. Sources, templates and the locale are taken from their own settings.')
    rep.assumption('the specification is the text of blogcfile(5) and blogc-make(1) of this version; a variable inserted under a computed name leaves a rule undecided')
    for prog, mod in lib.progs():
        analyse(rep, prog, mod)
    rep.floor('settings in the table', 22)
    rep.floor('rules judged', 6)
    rep.floor('variables given to blogc', 20)
    rep.floor('lookups of settings', 30)

    def ex(**kw):
        q = lib.Quiet()
        m = frontend.snippet(BASE % dict(GOOD, **kw))
        analyse(q, 'x', m)
        return {x.split(':', 1)[1] for x in q.v} - BARE
    rep.selftest('clean', ex() == set())
    rep.selftest('default', 'default:html_order' in ex(order='ASC'))
    rep.selftest('unknown', any('unknown' in x for x in ex(key='html_exd')))
    rep.selftest('origin', 'index:DATE_FORMAT' in ex(date='html_ext'))
    rep.selftest('missing', 'index:MAKE_TYPE:missing' in ex(type='if (rv)'))
    rep.selftest('order', {'index:FILTER_REVERSE:missing', 'index:FILTER_REVERSE:present'} & ex(cmp='!='))
    rep.selftest('page size', any('FILTER_P' in x for x in ex(neg='> 20')))


