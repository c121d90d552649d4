#!/usr/bin/env python3
"""mkseed.py DIR  - DIR/edit.py defines EDITS=[(file, old, new[, count])], PROPERTY, NEEDS, BREAKS; demo files lie in DIR already.
Makes patch.diff and meta.json, then confirms in a scratch copy: applies, builds, stable tests pass, demo 0 without / non-0 with."""
import json, os, shutil, subprocess, sys, tempfile
d = os.path.abspath(sys.argv[1]); name = os.path.basename(d)
ns = {}
exec(open(os.path.join(d, 'edit.py')).read(), ns)
w = tempfile.mkdtemp(prefix='seed', dir='/tmp')
try:
    r = os.path.join(w, 'repo'); subprocess.check_call(['cp', '-a', '/repo', r])
    for e in ns['EDITS']:
        f, old, new = e[:3]
        p = os.path.join(r, f); s = open(p, newline='').read()
        crlf = '\r\n' in s
        if crlf: old = old.replace('\n', '\r\n'); new = new.replace('\n', '\r\n')
        n = s.count(old)
        if n != (e[3] if len(e) > 3 else 1): sys.exit('%s: %d matches of %r' % (name, n, old[:60]))
        s = s.replace(old, new); open(p, 'w', newline='').write(s)
    diff = subprocess.check_output(['git', '-C', r, 'diff', '--binary'])
    open(os.path.join(d, 'patch.diff'), 'wb').write(diff)
    json.dump(dict(property=ns['PROPERTY'], needs=ns['NEEDS'], what_it_breaks=ns['BREAKS']), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    # tests on the real tree layout: apply to /repo, run, undo
    demo = lambda: subprocess.run(['bash', os.path.join(d, 'demo.sh')], cwd='/repo', stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
    assert not subprocess.check_output(['git', '-C', '/repo', 'status', '--porcelain', '-uno']).strip()
    a = demo()
    if a.returncode != 0: sys.exit('%s: demo fails on the unchanged tree: %s' % (name, a.stdout[-600:].decode('utf8', 'replace')))
    subprocess.check_call(['git', '-C', '/repo', 'apply', os.path.join(d, 'patch.diff')])
    try:
        t = os.path.join(w, 't.json')
        subprocess.run(['bash', '/opt/vp/test.sh', t], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        res = json.load(open(t)); base = json.load(open('/opt/vp/BASELINE.json'))['stable']
        miss = [x for x in base if x not in set(res['passed'])]
        b = demo()
    finally:
        subprocess.check_call(['git', '-C', '/repo', 'checkout', '--', '.'])
    ok = not miss and b.returncode != 0
    print(name, 'OK' if ok else 'BAD', 'missing tests: %d' % len(miss), 'demo rc %d' % b.returncode)
    if not ok: print(b.stdout[-400:].decode('utf8', 'replace')); sys.exit(1)
finally:
    shutil.rmtree(w, ignore_errors=True)
