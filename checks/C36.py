"""No value is used before it was given: unset variables, unset members of new objects."""
from engine import lib, ir, uninit, frontend


def run(rep, tier):
    rep.rule("Every variable is compiled to start with a recognisable pattern. On no path is that pattern compared, branched on, used in "
             "arithmetic or as an address, stored in an object, passed to a function or returned. No member of a local aggregate "
             "or of a newly allocated object is read before it is set, directly or by a function it is passed to, and no newly "
             "allocated object is left without a value for a member that some code reads.")
    rep.assumption('an out parameter counts as set after the call that may set it; elements of arrays are not told apart')
    for p in lib.ALL:
        m = ir.load(p, extra=uninit.FLAGS)
        # what is shared between the programs is examined once
        skip = set(seen)
        uninit.analyse(rep, p, m, skip)
        seen.update(f for f in m.fns if f.startswith('bc_'))
    rep.floor('functions examined for unset variables', 120)
    rep.floor('new objects followed', 15)
    rep.floor('local aggregates followed', 20)

    def ex(code):
        q = lib.Quiet()
        uninit.analyse(q, 'x', frontend.snippet(HEAD + code, extra=uninit.FLAGS))
        return q.v
    rep.selftest('clean', ex(CLEAN) == [])
    rep.selftest('variable', ex('int f(int a) { int x; if (a > 3) x = 1; if (a > 2) return x; return 0; }') != [])
    rep.selftest('flag', ex('int f(int a) { bool b; for (int i = 0; i < a; i++) b = true; return b ? g(a) : 0; }') != [])
    rep.selftest('pointer', ex('int f(int a) { char *p; if (a) p = h(a); if (p != 0) return 1; return 0; }') != [])
    rep.selftest('address', ex('int w(void **e) { if (e == 0 || *e != 0) return 1; return g(3); } int f(void) { void *e; return w(&e); }') != [])
    rep.selftest('local struct', ex('long f(int y) { struct tm t; t.tm_year = y; return mktime(&t); }') != [])
    rep.selftest('object', ex('struct s *f(int y) { struct s *p = malloc(sizeof(struct s)); p->a = y; if (y) p->b = 2; return p; } int k(struct s *p) { return p->b + p->a; }') != [])


seen = set()
HEAD = """
#include <stdlib.h>
#include <stdbool.h>
#include <string.h>
#include <time.h>
int g(int);
char *h(int);
struct s { int a; int b; };
"""
CLEAN = r"""
int f(int a) { int x; if (a > 3) x = 1; if (a > 3) return x; return 0; }
int f2(int a) { bool b; b = a > 2; for (int i = 0; i < a; i++) b = true; return b ? g(a) : 0; }
int w(void **e) { if (e == 0 || *e != 0) return 1; return g(3); }
int f3(void) { void *e = 0; return w(&e); }
long f4(int y) { struct tm t; memset(&t, 0, sizeof(t)); t.tm_year = y; return mktime(&t); }
struct s *f5(int y) { struct s *p = malloc(sizeof(struct s)); if (p == 0) return 0; p->a = y; p->b = y ? 2 : 3; return p; }
int f6(struct s *p) { return p->b + p->a; }
long f7(const char *x) { char *end; long r = strtol(x, &end, 10); return *end ? -1 : r; }
"""
