"""C24: the Go binding.  cgo translates the binding (which type-checks every C name it uses), gochk builds its SSA form and
runs every exported function on every path."""
import glob, json, os, re, shutil, subprocess, tempfile
from .ir import AnalysisError, REPO
from . import ir

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EXPECTED = ['NewAllocator', 'ReleaseAllocator', 'NewValue', 'Parse', 'Stringify', 'GetKey', 'GetUnEscapeKey', 'GetStr', 'GetUnEscapeStr', 'GetNum', 'GetBool',
            'IsNull', 'Type', 'ObjGet', 'ArrayGet', 'Size', 'Begin', 'Next', 'Copy', 'Move', 'SetNull', 'SetBool', 'SetNumStr', 'SetStr', 'SetStrEscape',
            'SetKey', 'SetKeyEscape', 'SetArray', 'SetObj', 'Set', 'SetFast', 'ObjAdd', 'ObjAddFast', 'ArrayAdd', 'ArrayAddFast', 'ObjDel', 'ArrayDel']


def c24(res, tier):
    res.rule = ('the binding is translated by cgo against the current header and type-checked; every exported function is executed symbolically over its SSA form '
                'on every path: exactly one call of the core operation of the same name, with the handle and the parameters (strings as C copies), the result converted '
                'for every outcome (absent, true, false), every C copy freed exactly once and never used after')
    res.assumptions += ['cgo and go/types agree with the Go compiler', 'allocation succeeds; strings have no embedded zero byte']
    d = tempfile.mkdtemp(prefix='zzgo')
    try:
        env = dict(os.environ, GOCACHE=os.path.join(d, 'cache'), GOTOOLCHAIN='local', GOPROXY='off', GOSUMDB='off', GOFLAGS='-mod=mod')
        env.setdefault('HOME', '/root')
        if not os.path.isdir(os.path.join(env.get('GOPATH') or os.path.join(env['HOME'], 'go'), 'pkg', 'mod')): env.setdefault('GOMODCACHE', '/root/go/pkg/mod')
        tool = os.path.join(d, 'tool'); os.mkdir(tool)
        for f in ('main.go', 'go.mod', 'go.sum'): shutil.copy(os.path.join(HERE, 'gochk', f), tool)
        src = os.path.join(d, 'src'); os.mkdir(src)
        gos = [f for f in glob.glob(os.path.join(REPO, '*.go')) if not f.endswith('_test.go')]
        if not gos: raise AnalysisError('no Go file found')
        for f in gos + glob.glob(os.path.join(REPO, '*.h')): shutil.copy(f, src)
        flags = []
        for f in gos:
            for m in re.finditer(r'#cgo\s+CFLAGS:(.*)', open(f, encoding='utf-8').read()): flags += m.group(1).split()
        names = sorted(os.path.basename(f) for f in gos)
        p = subprocess.run(['go', 'tool', 'cgo', '-objdir', 'obj', '--', '-I.'] + flags + names, cwd=src, env=dict(env, GO111MODULE='off'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            hit = 0
            for m in re.finditer(r'^(?:\S*/)?([\w.]+\.go):(\d+):(?:\d+:)? ?(.*)$', p.stdout, re.M):
                hit = 1
                res.add('C24', 'binding', int(m.group(2)), 'does not fit the C interface: ' + m.group(3), file=m.group(1))
            if not hit: raise AnalysisError('cgo: ' + p.stdout[-600:])
            res.count('functions_analysed', 0)
            return
        exe = os.path.join(d, 'gochk')
        q = subprocess.run(['go', 'build', '-o', exe, '.'], cwd=tool, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if q.returncode: raise AnalysisError('the Go analyser does not build: ' + q.stdout[-600:])
        fs = [os.path.join('obj', n[:-3] + '.cgo1.go') for n in names] + ['obj/_cgo_gotypes.go']
        q = subprocess.run([exe] + fs, cwd=src, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        if q.returncode: raise AnalysisError('the Go analyser failed: ' + q.stderr[-600:])
        rows = [json.loads(l) for l in q.stdout.splitlines() if l.strip()]
        seen = set(); consts = {}
        for r in rows:
            if 'typeerror' in r:
                m = re.match(r'[^:]*?([\w.]+\.go):(\d+):', r['typeerror'])
                res.add('C24', 'binding', int(m.group(2)) if m else 0, 'does not type-check against the C interface: ' + re.sub(r'^\S*?:\d+:\d+: ', '', r['typeerror']), file=m.group(1) if m else 'zzzjson.go')
            elif 'const' in r: consts[r['const']] = int(r['value'])
            elif 'func' in r:
                seen.add(r['func'])
                if r.get('violation'): res.add('C24', r['func'], r['line'], r['violation'], file='zzzjson.go')
                elif r.get('undecided'):
                    if r['func'] in EXPECTED: res.errors.append('Go %s: %s' % (r['func'], r['undecided']))
                    continue
                res.count('functions_analysed'); res.count('paths', r.get('paths', 0) or 0); res.count('instructions', r.get('insts', 0) or 0)
                res.samples.append(dict(function=r['func'], core=r['core'], paths=r.get('paths')))
            elif 'undecided' in r: res.errors.append(r['undecided'])
        if any('typeerror' in r for r in rows): return
        for n in EXPECTED:
            if n not in seen: res.add('C24', n, 0, 'the binding no longer has this function', file='zzzjson.go')
        en = ir.Module(ir.compile_raw('c', '#define zj_API_MODE 0\n')).enum('zj_JSONType')
        for k, v in en.items():
            g = consts.get(k.replace('zj_', '', 1))
            if g is None: res.errors.append('Go constant for %s not found' % k)
            else:
                res.count('type_constants')
                if g != v: res.add('C24', k.replace('zj_', '', 1), 0, 'the type constant is %d, in the core it is %d' % (g, v), file='zzzjson.go')
    finally:
        shutil.rmtree(d, ignore_errors=True)
