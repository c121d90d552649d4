"""Parity of the convenience layers with the core API: every wrapper's paths, as traces of core calls."""
import re
from . import ir
from .ir import AnalysisError, Module

HPP_EXTRA = ''


def kept(raw):
    """symbols of the core functions (zj_*) - everything else is inlined"""
    names = ir.fn_names(raw)
    return {s for s, n in names.items() if re.match(r'zj_[A-Za-z]', n) and '_ZN' not in s.replace('_ZN2zj', '', 1)} | \
           {s for s, n in names.items() if n.startswith('zj_') and re.match(r'_ZN2zjL?\d+zj_', s) and not re.match(r'_ZN2zj\d+zj_(Value|Allocator)\w*E?', s)}


class Trace:
    pass


def paths(mod, f, names, limit=64):
    """all paths of an acyclic function as (events, assumptions, return term, stores)"""
    mod.prepare(f)
    if any(b.loophead for b in f.blocks.values()): raise AnalysisError('%s contains a loop' % names.get(f.name, f.name))
    out = []

    def val(env, a):
        k = a[0]
        if k == 'reg': return env[a[1]]
        if k == 'int': return ('int', a[1])
        if k == 'null': return ('int', 0)
        if k == 'glob': return ('glob', a[1], 0)
        if k == 'cgep':
            base = val(env, a[2]); return ('cgep',) + (base,) + (str(a[3:]),)
        return (k,) + tuple(str(x) for x in a[1:])

    def add(p, o):
        if p[0] == 'off': return add(p[1], p[2] + o)
        return p if o == 0 else ('off', p, o)

    def run(bn, prev, env, ev, asm, mem):
        b = f.blocks[bn]
        env = dict(env); ev = list(ev); asm = dict(asm); mem = dict(mem)
        if len(out) > limit: raise AnalysisError('too many paths in wrapper')
        new = {}
        for i in b.insts:
            if i.op == 'phi':
                for v, l in i.x:
                    if l == prev: new[i.res] = val(env, v)
                continue
            if new: env.update(new); new = {}
            op = i.op
            if op == 'call':
                n = i.x[0][1] if i.x[0][0] == 'glob' else '?'
                nm = names.get(n, n)
                if nm.startswith('llvm.dbg') or nm.startswith('llvm.lifetime') or nm.startswith('llvm.experimental.noalias'): continue
                args = tuple(val(env, a) for a in i.args)
                if n == 'strlen': t = ('strlen', args)
                else:
                    t = ('call', len(ev), nm, args); ev.append((nm, args, i.dbg)); mem = {k: v for k, v in mem.items() if v[1] == 'priv'}
                if i.res: env[i.res] = t
            elif op == 'getelementptr':
                base = val(env, i.args[0]); off = gepconst(mod, i, lambda a: val(env, a))
                env[i.res] = add(base, off) if off is not None else ('gep', base, str(i.raw))
            elif op == 'load':
                p = val(env, i.args[0])
                if p in mem: env[i.res] = mem[p][0]
                else: env[i.res] = ('load', p)
            elif op == 'store':
                v = val(env, i.args[0]); p = val(env, i.args[1]); mem[p] = (v, 'priv' if p[0] == 'alloca' else 'heap')
                if p[0] != 'alloca': ev.append(('store', (p, v), i.dbg))
            elif op == 'alloca': env[i.res] = ('alloca', i.res)
            elif op in ('zext', 'trunc', 'freeze', 'bitcast', 'sext'):
                v = val(env, i.args[0])
                if op == 'trunc' and i.ty.n == 1 or op == 'zext' and i.x.n == 1: env[i.res] = v
                elif op in ('freeze', 'bitcast'): env[i.res] = v
                elif v[0] == 'int': env[i.res] = v if op != 'trunc' else ('int', v[1] & ((1 << i.ty.n) - 1))
                else: env[i.res] = (op, i.ty.n, v)
            elif op == 'icmp':
                a, c = val(env, i.args[0]), val(env, i.args[1])
                env[i.res] = ('cmp', i.x, a, c)
            elif op in ('br',):
                run(i.x[0], bn, env, ev, asm, mem); return
            elif op == 'condbr':
                c = val(env, i.args[0])
                neg = False
                while c[0] == 'xor1': c = c[1]; neg = not neg
                if c[0] == 'cmp' and c[1] == 'ne': c = ('cmp', 'eq') + c[2:]; neg = not neg
                if c[0] == 'int': tv = [bool(c[1])]
                elif c in asm: tv = [asm[c]]
                else: tv = [True, False]
                for t in tv:
                    a2 = dict(asm); a2[c] = t
                    run(i.x[0 if t != neg else 1], bn, env, ev, a2, mem)
                return
            elif op == 'select':
                c = val(env, i.args[0]); env[i.res] = ('select', c, val(env, i.args[1]), val(env, i.args[2]))
            elif op == 'ret':
                out.append((ev, asm, val(env, i.args[0]) if i.args else None, mem)); return
            elif op == 'unreachable': return
            elif op in ('add', 'sub', 'and', 'or', 'xor', 'mul', 'shl', 'lshr'):
                a, c = val(env, i.args[0]), val(env, i.args[1])
                if op == 'xor' and c == ('int', 1) or op == 'xor' and c == ('int', -1): env[i.res] = ('xor1', a)
                else: env[i.res] = (op, a, c)
            else: raise AnalysisError('instruction in a wrapper: %s' % i.raw)

    env0 = {p[1]: ('arg', k) for k, p in enumerate(f.params)}
    run(f.entry.name, None, env0, [], {}, {})
    return out


def gepconst(mod, i, val):
    off = 0; t = i.ty
    for k, a in enumerate(i.args[1:]):
        v = val(a)
        if v[0] != 'int': return None
        if k == 0: off += v[1] * mod.size(t)
        elif t.k == 'struct':
            fl = mod.fields(t); off += fl[v[1]][0]; t = fl[v[1]][1]
        elif t.k == 'arr': off += v[1] * mod.size(t.el); t = t.el
    return off


def norm_bool(t):
    """booleans travel as i1/i8/zext: strip the width casts around a call result"""
    while t is not None and t[0] in ('zext', 'trunc') and t[1] in (1, 8): t = t[2]
    if t is not None and t[0] == 'cmp' and t[1] == 'ne' and t[3] == ('int', 0): return norm_bool(t[2])
    return t


def same_trace(p, q):
    """compare path sets modulo debug locations"""
    f = lambda ps: sorted(repr(([(n, tuple(norm_bool(a) for a in args)) for n, args, _ in ev], sorted(asm.items(), key=repr), norm_bool(r))) for ev, asm, r, m in ps)
    return f(p) == f(q)


def resolve_alias(mod, names, core, sym, cache, depth=0):
    """follow core functions that only forward their own arguments"""
    if sym in cache: return cache[sym]
    cache[sym] = sym
    f = mod.funcs.get(sym)
    if f is not None:
        try: ps = paths(mod, f, names)
        except AnalysisError: ps = []
        if len(ps) == 1:
            ev, asm, r, m = ps[0]
            if len(ev) == 1 and ev[0][1] == tuple(('arg', k) for k in range(len(f.params))) and ev[0][0] in core and \
                    (r is None or norm_bool(r)[:3] == ('call', 0, ev[0][0])):
                cache[sym] = resolve_alias(mod, names, core, core[ev[0][0]], cache, depth + 1)
    return cache[sym]


def check_module(res, cfg, mod, raw, wrapset, hpp):
    names = ir.fn_names_cached(mod)
    core = {names[s]: s for s in mod.funcs if names.get(s, s).startswith('zj_')}
    cache = {}
    al = lambda n: names.get(resolve_alias(mod, names, core, core[n], cache), n) if n in core else n
    members = {n: off for n, off, sz, bt in mod.members('zj_Value')}
    for sym, api in wrapset:
        f = mod.funcs[sym]; want = 'zj_' + api
        res.count('wrappers')
        label = '%s%s' % ('zzzjson::Value::' if hpp else '' if cfg.startswith('C,') else 'zj::', api)
        if want not in core: res.errors.append('core function %s not found for wrapper %s' % (want, label)); continue
        ps = paths(mod, f, names)
        line0 = 0
        fail = None
        coref = mod.funcs[core[want]]
        try:
            if not hpp and same_trace(ps, paths(mod, coref, names)): res.count('wrapper_paths', len(ps)); continue
        except AnalysisError: pass
        for ev, asm, r, mem in ps:
            res.count('wrapper_paths')
            calls = [(n, a, d) for n, a, d in ev if n != 'store']
            if calls and calls[0][2]: line0 = mod.loc(calls[0][2])[0]
            if hpp: fail = hpp_path(mod, f, want, al, calls, ev, asm, r, mem, members)
            else:
                if len(calls) != len(ev): fail = 'writes memory of its own'; break
                if len(calls) != 1: fail = 'makes %d core calls (%s) instead of exactly one to %s' % (len(calls), ', '.join(c[0] for c in calls), want); break
                n, a, d = calls[0]
                if al(n) != al(want): fail = 'forwards to %s instead of %s' % (n, want); break
                exp = tuple(('arg', k) for k in range(len(f.params)))
                if tuple(norm_bool(x) for x in a) != exp: fail = 'passes %r to %s instead of its own arguments in order' % (show(a), n); break
                if coref.rty.k != 'void':
                    if r is None or norm_bool(r)[:3] != ('call', ev.index(calls[0]), n): fail = 'returns %s instead of the result of %s' % (show(r), n); break
            if fail: break
        if fail:
            res.add('wrapper', label, line0, fail, config=cfg, file='zzzjson.hpp' if hpp else 'zzzjson.h')
        elif len(res.samples) < 6: res.samples.append(dict(wrapper=label, forwards_to=want, paths=len(ps), config=cfg))


def show(t):
    return re.sub(r"[(),']", ' ', repr(t)).strip()[:160]


def hpp_path(mod, f, want, al, calls, ev, asm, r, mem, members):
    """wrapper value holds one pointer to a core value"""
    core_calls = [(k, c) for k, c in enumerate(ev) if c[0] not in ('store', 'zj_allocatorAlloc')]
    if len(core_calls) != 1: return 'makes %d core calls (%s) instead of exactly one to %s' % (len(core_calls), ', '.join(c[1][0] for c in core_calls), want)
    k, (n, a, d) = core_calls[0]
    if al(n) != al(want): return 'forwards to %s instead of %s' % (n, want)
    for j, x in enumerate(a):
        x = norm_bool(x)
        if j == 0 and want != 'zj_NewValue' and x != ('load', ('arg', 0)): return 'passes %s as the value to %s' % (show(x), n)
        if j == 0 and want == 'zj_NewValue':
            if x not in (('load', ('arg', 0)), ('load', ('off', ('load', ('arg', 0)), members['A']))): return 'passes %s as the allocator' % show(x)
        if j > 0 and x not in (('arg', j), ('load', ('arg', j))): return 'passes %s as argument %d of %s' % (show(x), j + 1, n)
        if j > 0 and x == ('load', ('arg', j)) and want not in ('zj_SetFast', 'zj_Set', 'zj_ObjAddFast', 'zj_ObjAdd', 'zj_ArrayAddFast', 'zj_ArrayAdd'):
            return 'dereferences argument %d' % (j + 1)
        if j > 0 and x == ('arg', j) and want in ('zj_SetFast', 'zj_Set', 'zj_ObjAddFast', 'zj_ObjAdd', 'zj_ArrayAddFast', 'zj_ArrayAdd'):
            return 'passes the wrapper object instead of the value it holds'
    if len(a) != len(f.params) and want != 'zj_NewValue': return 'passes %d arguments' % len(a)
    if r is None: return None
    rr = norm_bool(r); ct = ('call', k, n, a)
    if want in ('zj_NewValue', 'zj_ObjGet', 'zj_ObjGetLen', 'zj_ArrayGet', 'zj_Begin', 'zj_Next', 'zj_Copy'):
        isnull = asm.get(('cmp', 'eq', ct, ('int', 0)))
        allocs = [(q, c) for q, c in enumerate(ev) if c[0] == 'zj_allocatorAlloc']
        if isnull is True:
            if rr != ('int', 0): return 'returns %s when %s found nothing' % (show(rr), n)
            return None
        if rr == ('int', 0): return 'returns null although %s gave a value' % n
        if want != 'zj_NewValue' and isnull is None: return 'wraps the result of %s without testing it for null' % n
        if rr[0] != 'call' or rr[2] != 'zj_allocatorAlloc': return 'returns %s instead of a new wrapper' % show(rr)
        q, c = [(q, c) for q, c in enumerate(ev) if q == rr[1]][0]
        if c[1][1][0] != 'int' or c[1][1][1] < 8: return 'allocates %s bytes for the wrapper object' % show(c[1][1])
        # the store may have been forgotten by a later call's memory effects: look at the events
        st = [x[1] for x in ev if x[0] == 'store' and x[1][0] == rr]
        if not st or st[-1][1] != ct: return 'the returned wrapper does not hold the result of %s' % n
        okA = [('load', ('off', ct, members['A'])), ('load', ('off', ('load', ('arg', 0)), members['A'])), ('load', ('arg', 0))]
        if c[1][0] not in okA: return 'allocates the wrapper from %s' % show(c[1][0])
        return None
    if len(ev) != 1: return 'has effects of its own'
    if rr[:3] != ('call', k, n): return 'returns %s instead of the result of %s' % (show(rr), n)
    return None


ENUM_C = ''.join('_Static_assert((int)JSONType%s == (int)zj_JSONType%s, "%s");\n' % (n, n, n) for n in ('Array', 'Object', 'String', 'Number', 'Bool', 'Null'))
ENUM_D = '''_Static_assert(zj_JSONTypeBool != zj_JSONTypeArray && zj_JSONTypeBool != zj_JSONTypeObject && zj_JSONTypeBool != zj_JSONTypeString &&
 zj_JSONTypeBool != zj_JSONTypeNull && zj_JSONTypeBool != zj_JSONTypeNumber && zj_JSONTypeArray != zj_JSONTypeObject && zj_JSONTypeArray != zj_JSONTypeString &&
 zj_JSONTypeArray != zj_JSONTypeNull && zj_JSONTypeArray != zj_JSONTypeNumber && zj_JSONTypeObject != zj_JSONTypeString && zj_JSONTypeObject != zj_JSONTypeNull &&
 zj_JSONTypeObject != zj_JSONTypeNumber && zj_JSONTypeString != zj_JSONTypeNull && zj_JSONTypeString != zj_JSONTypeNumber && zj_JSONTypeNull != zj_JSONTypeNumber,
 "distinct");
'''
ENUM_CPP = ''.join('static_assert((int)zj::JSONType%s == (int)zj::zj_JSONType%s, "%s");\n' % (n, n, n) for n in ('Array', 'Object', 'String', 'Number', 'Bool', 'Null'))
ENUM_HPP = ''.join('static_assert((int)zzzjson::JSONType%s == (int)zj::zj_JSONType%s, "%s");\n' % (n, n, n) for n in ('Array', 'Object', 'String', 'Number', 'Bool', 'Null'))


def c23(res, tier):
    from .witness import compiles, H, HPP
    res.rule = ('Every short-named C function, C++ member function and C++ wrapper-header member is reduced to its set of paths (all core zj_* '
                'functions kept as opaque events, everything else inlined) and must make exactly one call, to its own core function, with its own '
                'arguments in order, and return that result (wrapper header: the result re-wrapped, null for null). Type constants are compared '
                'by static assertions.')
    apis = None
    for cfg, kw, hpp in (('C, short names', dict(lang='c', defs='#define zj_API_MODE 1'), False), ('C++', dict(lang='cpp', defs=''), False),
                         ('C++ wrapper header', dict(lang='cpp', defs='', header='zzzjson.hpp', extra=ir.hpp_uses()), True)):
        raw = ir.compile_raw(**kw)
        names0 = ir.fn_names(raw)
        # core = free functions named zj_*; C++ members carry the class name in the symbol
        corefn = {s for s, n in names0.items() if n.startswith('zj_') and not is_member(s)}
        mod = Module(ir.inline_ir(raw, corefn))
        names = ir.fn_names_cached(mod)
        res.count('configurations')
        wrap = []
        if not hpp:
            for s in mod.funcs:
                n = names.get(s, s)
                if n.startswith('zj_') or not re.match(r'[A-Z]', n): continue
                if n in ('Allocator',) : continue
                wrap.append((s, n))
        else:
            for s in mod.funcs:
                n = names.get(s, s)
                if re.match(r'_ZN7zzzjson5Value', s) and re.match(r'[A-Z]', n) and n != 'Value':
                    wrap.append((s, {'Size': 'SizeOf'}.get(n, n)))
        if not hpp: wrap = [(s, n) for s, n in wrap if 'zj_' + n in {names.get(x, x) for x in corefn}]
        res.counts['wrappers: ' + cfg] = len(wrap)
        check_module(res, cfg, mod, raw, wrap, hpp)
    for lang, src, std, nm in (('c', H + ENUM_C + ENUM_D, 'c11', 'short names'), ('c++', H + ENUM_CPP, 'c++11', 'C++'), ('c++', HPP + ENUM_HPP, 'c++11', 'wrapper header')):
        ok, err = compiles(lang, src, 'clang' if lang == 'c' else 'clang++', std)
        res.count('enum_assertions', 6)
        if not ok:
            m = re.search(r'static assertion failed[^\n]*', err)
            if m: res.add('enum', nm, 0, 'type constant differs from the core constant: ' + m.group(0)[:200])
            else: res.errors.append('type constants of %s: %s' % (nm, err[:300]))
    if res.counts.get('wrappers: C, short names', 0) < 55: res.errors.append('too few short-name wrappers found')
    if res.counts.get('wrappers: C++', 0) < 110: res.errors.append('too few C++ wrappers found')
    if res.counts.get('wrappers: C++ wrapper header', 0) < 55: res.errors.append('too few wrapper-header members found')


def is_member(s):
    return re.match(r'_ZN?K?2zj(\d+)zj_(Value|Allocator)(\d|[CD]\d)', s) is not None or re.match(r'_ZNK?2zj\d+zj_(Value|Allocator)', s) is not None and not re.match(r'_ZN2zjL', s)
