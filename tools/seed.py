#!/usr/bin/env python3
"""seed.py make ID PROP FILE OLD NEW NEEDS BREAKS  -> /verif/seeded/ID/{patch.diff,meta.json}
   seed.py verify ID...   -> apply to /repo, build, test, demo, checks of the property; undo"""
import sys, os, subprocess, json, shutil, tempfile
S = '/verif/seeded/'


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def make(id, prop, edits, needs, breaks):
    d = tempfile.mkdtemp(prefix='seed-', dir='/tmp')
    try:
        sh('git clone -q /repo %s/r' % d)
        for f, old, new in edits:
            p = os.path.join(d, 'r', f)
            t = open(p).read()
            assert t.count(old) >= 1, 'old text not found in ' + f
            open(p, 'w').write(t.replace(old, new, 1))
        diff = sh('git -C %s/r diff' % d).stdout
        os.makedirs(S + id, exist_ok=True)
        open(S + id + '/patch.diff', 'w').write(diff)
        json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(S + id + '/meta.json', 'w'), indent=1)
    finally:
        shutil.rmtree(d)


def verify(ids, tests=True):
    for id in ids:
        m = json.load(open(S + id + '/meta.json'))
        out = [id, m['property']]
        if not os.path.exists(S + id + '/demo.sh'):
            print(id, 'no demo'); continue
        sh('bash /opt/vp/build.sh')
        c = sh('bash %s/demo.sh' % (S + id), cwd='/repo', timeout=300)
        out.append('clean demo %d' % c.returncode)
        if c.returncode:
            print((c.stdout + c.stderr)[-800:])
        a = sh('git -C /repo apply %s/patch.diff' % (S + id))
        if a.returncode:
            print(id, 'patch does not apply', a.stderr); continue
        try:
            b = sh('bash /opt/vp/build.sh')
            out.append('build %d' % b.returncode)
            if tests:
                sh('bash /opt/vp/test.sh /tmp/o.json')
                o = json.load(open('/tmp/o.json')); base = json.load(open('/opt/vp/BASELINE.json'))
                lost = set(base['stable']) - set(o['passed'])
                out.append('lost tests %d %s' % (len(lost), sorted(lost)[:2]))
            c = sh('bash %s/demo.sh' % (S + id), cwd='/repo', timeout=300)
            out.append('bad demo %d' % c.returncode)
            k = sh('./check %s' % m['property'], cwd='/verif')
            out.append('check exit %d' % k.returncode)
            out += [l[:200] for l in k.stdout.split('\n') if 'analysed' not in l and 'path (' not in l][:2]
        finally:
            sh('git -C /repo checkout -- .')
            sh('bash /opt/vp/build.sh')
        print('\n   '.join(out), flush=True)


if __name__ == '__main__':
    if sys.argv[1] == 'verify':
        verify(sys.argv[2:] or sorted(os.listdir(S)))
