"""Whole-module effect rules on the IR (no path reasoning): shared state, stack discipline."""
import re
from . import ir
from .ir import AnalysisError, Module

CONFIGS = [
    ('C, long names', dict(lang='c', defs='#define zj_API_MODE 0')),
    ('C, short names', dict(lang='c', defs='#define zj_API_MODE 1')),
    ('C, no branch hints', dict(lang='c', defs='#define zj_EXPECT_MODE 2')),
    ('C++', dict(lang='cpp', defs='')),
    ('C++ wrapper header', dict(lang='cpp', defs='', header='zzzjson.hpp', extra=None)),
]

# C library functions that keep hidden state shared between callers
NONREENTRANT = {'strtok', 'setlocale', 'localeconv', 'rand', 'srand', 'random', 'srandom', 'drand48', 'asctime', 'ctime', 'gmtime', 'localtime',
                'strerror', 'getenv', 'setenv', 'putenv', 'tmpnam', 'ecvt', 'fcvt', 'gcvt', 'atexit', 'signal', 'mbtowc', 'wctomb', 'mblen',
                'mbrlen', 'strsignal', 'hcreate', 'hsearch', 'lgamma', 'l64a', 'printf', 'puts', 'putchar', 'fprintf', 'fwrite', 'fputs', 'perror'}


def ptr_args_written(mod, names):
    """fixpoint: which parameters of which defined functions are written through"""
    written = {n: set() for n in mod.funcs}
    changed = True
    derived = {}
    for n, f in mod.funcs.items():
        derived[n] = derive(f)
    while changed:
        changed = False
        for n, f in mod.funcs.items():
            d = derived[n]
            pidx = {p[1]: i for i, p in enumerate(f.params)}
            for b in f.blocks.values():
                for i in b.insts:
                    for tgt in dests(i, written, names):
                        for src in roots(tgt, d):
                            if src[0] == 'reg' and src[1] in pidx and pidx[src[1]] not in written[n]:
                                written[n].add(pidx[src[1]]); changed = True
    return written, derived


def derive(f):
    """reg -> operands it may equal up to an offset"""
    d = {}
    # a local variable slot: values stored into an alloca flow to its loads
    allocas = set(); stores = {}
    for b in f.blocks.values():
        for i in b.insts:
            if i.op == 'alloca': allocas.add(i.res)
            if i.op == 'store' and i.args[1][0] == 'reg': stores.setdefault(i.args[1][1], []).append(i.args[0])
    for b in f.blocks.values():
        for i in b.insts:
            if i.op == 'getelementptr': d.setdefault(i.res, []).append(i.args[0])
            elif i.op == 'phi':
                for v, _ in i.x: d.setdefault(i.res, []).append(v)
            elif i.op == 'select': d.setdefault(i.res, []).extend(i.args[1:3])
            elif i.op in ('freeze', 'bitcast', 'inttoptr', 'ptrtoint'): d.setdefault(i.res, []).append(i.args[0])
            elif i.op == 'load' and i.args[0][0] == 'reg' and i.args[0][1] in allocas:
                d.setdefault(i.res, []).extend(stores.get(i.args[0][1], []))
    return d


def roots(a, d):
    seen = set(); out = []; work = [a]
    while work:
        x = work.pop()
        while x[0] == 'cgep': x = x[2]
        if x in seen if not isinstance(x, list) else False: continue
        try: seen.add(x)
        except TypeError: pass
        if x[0] == 'reg' and x[1] in d:
            work.extend(d[x[1]])
        else: out.append(x)
    return out


def dests(i, written, names):
    """operands written through by instruction i"""
    if i.op == 'store': return [i.args[1]]
    if i.op in ('atomicrmw', 'cmpxchg'): return [i.args[0]]
    if i.op == 'call':
        c = i.x[0]
        if c[0] != 'glob': return []
        n = c[1]
        if n in written: return [i.args[k] for k in written[n] if k < len(i.args)]
        b = names.get(n, n)
        if b.startswith('llvm.dbg') or b.startswith('llvm.lifetime'): return []
        if b.startswith('llvm.mem') or b in ('memcpy', 'memmove', 'memset', 'strcpy', 'strncpy', 'strcat', 'sprintf', 'snprintf', 'vsnprintf', 'free'):
            return i.args[:1]
        if b in ('strtod', 'strtol', 'strtoll', 'strtoul', 'strtof'): return i.args[1:2]
    return []


def modules(tier):
    for name, kw in CONFIGS:
        kw = dict(kw)
        if 'extra' in kw: kw['extra'] = ir.hpp_uses()
        raw = ir.compile_raw(**kw)
        yield name, Module(raw), raw


def c08(res, tier):
    res.rule = ('For every configuration of the headers: the set of writable global/static/thread-local objects the module defines, every '
                'instruction (store, memcpy/memset/snprintf destination, atomic, or argument of a callee that writes through it, by an '
                'interprocedural fixpoint) that may write one, every writable global whose address is handed out as a pointer to non-const, '
                'and every call to a C library function with hidden state. Violation: any such write or call.')
    res.assumptions = ['the documented allocation-counting test mode (zj_MEMORY_MODE 2) is excluded: its counters are its purpose',
                       'malloc/free of the platform are thread-safe']
    for cfg, mod, raw in modules(tier):
        names = ir.fn_names_cached(mod)
        written, derived = ptr_args_written(mod, names)
        res.count('configurations'); res.count('functions', len(mod.funcs)); res.count('globals', len(mod.globals))
        for n, f in mod.funcs.items():
            for b in f.blocks.values():
                for i in b.insts:
                    res.count('instructions')
                    for t in dests(i, written, names):
                        res.count('write_sites')
                        for r in roots(t, derived[n]):
                            if r[0] == 'glob' and r[1] in mod.globals:
                                line, fn = mod.loc(i.dbg) if i.dbg else (0, names.get(n, n))
                                res.add('global-write', names.get(n, n), line, 'writes the shared object %s' % r[1], config=cfg)
                    if i.op == 'store':
                        # a writable global's address stored into memory can be written from anywhere
                        for r in roots(i.args[0], derived[n]):
                            if r[0] == 'glob' and r[1] in mod.globals and not mod.globals[r[1]]['const']:
                                sym = [x for x in roots(i.args[1], derived[n])]
                                if all(x[0] == 'reg' and is_alloca(f, x[1]) for x in sym): continue
                                line, fn = mod.loc(i.dbg) if i.dbg else (0, names.get(n, n))
                                res.add('global-escape', names.get(n, n), line, 'lets the address of the writable shared object %s into memory' % r[1], config=cfg)
                    if i.op == 'call' and i.x[0][0] == 'glob':
                        res.count('call_sites')
                        c = names.get(i.x[0][1], i.x[0][1])
                        if c in NONREENTRANT and i.x[0][1] not in mod.funcs:
                            line, fn = mod.loc(i.dbg) if i.dbg else (0, names.get(n, n))
                            res.add('nonreentrant', names.get(n, n), line, 'calls %s, which keeps state shared between callers' % c, config=cfg)
    # positive control: the rule must fire on a tiny module that caches in a static
    ctl = ir.compile_raw('c', '#define zj_API_MODE 0', extra='static int zz_c; static inline int zz_ctl(int *p){ zz_c += *p; return zz_c; }')
    m = Module(ctl); nm = ir.fn_names_cached(m); w, d = ptr_args_written(m, nm)
    if not any(r[0] == 'glob' and r[1] == 'zz_c' for b in m.funcs['zz_ctl'].blocks.values() for i in b.insts for t in dests(i, w, nm)
               for r in roots(t, d['zz_ctl'])):
        raise AnalysisError('positive control of the shared-state rule did not fire')
    res.need('functions', 600); res.need('write_sites', 1500)


def is_alloca(f, r):
    for b in f.blocks.values():
        for i in b.insts:
            if i.res == r: return i.op == 'alloca'
    return False


def c21(res, tier):
    res.rule = ('For every configuration: the call graph over resolved callees (defined functions, C++ members included) must be acyclic, '
                'contain no indirect call, and no function may allocate a run-time-sized stack object (variable-length array, alloca); the sum '
                'of fixed frame objects along the deepest call chain is then a compile-time constant, reported as stack_bytes.')
    res.assumptions = ['stack use of the C library functions called (malloc, free, memcpy, strlen, snprintf, ato*) is bounded']
    worst = 0
    for cfg, mod, raw in modules(tier):
        names = ir.fn_names_cached(mod)
        res.count('configurations'); res.count('functions', len(mod.funcs))
        g = {}; frame = {}; site = {}
        for n, f in mod.funcs.items():
            g[n] = set(); sz = 0
            for b in f.blocks.values():
                for i in b.insts:
                    if i.op == 'alloca':
                        res.count('stack_objects')
                        if i.x is not None and not (i.x[0] == 'int'):
                            line, fn = mod.loc(i.dbg) if i.dbg else (0, names.get(n, n))
                            res.add('dynamic-stack', names.get(n, n), line, 'allocates a stack object whose size depends on run-time data', config=cfg)
                        else:
                            c = i.x[1] if i.x is not None else 1
                            sz += mod.size(i.ty) * c
                    if i.op in ('call', 'invoke'):
                        res.count('call_sites')
                        c = i.x[0]
                        if c[0] != 'glob':
                            line, fn = mod.loc(i.dbg) if i.dbg else (0, names.get(n, n))
                            res.add('indirect-call', names.get(n, n), line, 'calls through a pointer: the call depth cannot be bounded', config=cfg)
                        elif c[1] in mod.funcs:
                            g[n].add(c[1]); site[(n, c[1])] = mod.loc(i.dbg)[0] if i.dbg else 0
                        elif 'alloca' in c[1] or c[1] in ('llvm.stacksave', 'setjmp', '_setjmp'):
                            if c[1] == 'alloca':
                                res.add('dynamic-stack', names.get(n, n), 0, 'calls alloca', config=cfg)
            frame[n] = sz
        state = {}; depth = {}

        def dfs(n, path):
            state[n] = 1; path.append(n); best = 0
            for m in sorted(g[n]):
                if state.get(m) == 1:
                    cyc = path[path.index(m):]
                    res.add('recursion', names.get(n, n), site[(n, m)],
                            'call graph cycle %s: stack use grows with the input' % ' -> '.join(names.get(x, x) for x in cyc + [m]), config=cfg)
                    continue
                if state.get(m) != 2: dfs(m, path)
                best = max(best, depth.get(m, 0))
            path.pop(); state[n] = 2; depth[n] = best + frame[n] + 64
        import sys
        sys.setrecursionlimit(10000)
        for n in sorted(g):
            if n not in state: dfs(n, [])
        w = max(depth.values())
        worst = max(worst, w)
        res.count('call_edges', sum(len(x) for x in g.values()))
    res.counts['stack_bytes'] = worst
    res.need('functions', 600); res.need('call_edges', 500)
