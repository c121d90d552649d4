"""Type-level witnesses: programs that must be rejected by the compiler (each with a twin that must compile)."""
import os, shutil, subprocess, tempfile
from .ir import AnalysisError, REPO

H = '#include "%s/zzzjson.h"\n' % REPO
HPP = '#include "%s/zzzjson.hpp"\n' % REPO

# (id, what, header, body that must compile, body that must be rejected)
CPP = [
    ('copy-allocator', 'copying a C++ allocator object would free its blocks twice', H,
     'void f(){ zj::Allocator a; zj::Allocator *p=&a; (void)p; }', 'void f(){ zj::Allocator a; zj::Allocator b(a); }'),
    ('pass-allocator', 'passing a C++ allocator by value would free its blocks twice', H,
     'void g(zj::Allocator&); void f(){ zj::Allocator a; g(a); }', 'void g(zj::Allocator); void f(){ zj::Allocator a; g(a); }'),
    ('assign-allocator', 'assigning one C++ allocator to another would free blocks twice and leak the others', H,
     'void f(){ zj::Allocator a, b; }', 'void f(){ zj::Allocator a, b; b = a; }'),
    ('value-without-allocator', 'a value created without an allocator has no memory to live in', H,
     'void f(){ zj::Allocator a; zj::Value *v = zj::Value::NewValue(&a); (void)v; }', 'void f(){ zj::Value v; (void)v; }'),
    ('new-value', 'a value created with operator new is never released with its allocator', H,
     'void f(){ zj::Allocator a; zj::Value *v = zj::Value::NewValue(&a); (void)v; }', 'void f(){ zj::Value *v = new zj::Value; (void)v; }'),
    ('wrapper-copy-allocator', 'copying a wrapper allocator would release it twice', HPP,
     'void f(){ zzzjson::Allocator a; zzzjson::Allocator *p=&a; (void)p; }', 'void f(){ zzzjson::Allocator a; zzzjson::Allocator b(a); }'),
    ('wrapper-pass-allocator', 'passing a wrapper allocator by value would release it twice', HPP,
     'void g(zzzjson::Allocator&); void f(){ zzzjson::Allocator a; g(a); }', 'void g(zzzjson::Allocator); void f(){ zzzjson::Allocator a; g(a); }'),
    ('wrapper-assign-allocator', 'assigning wrapper allocators would release one twice', HPP,
     'void f(){ zzzjson::Allocator a, b; }', 'void f(){ zzzjson::Allocator a, b; b = a; }'),
    ('wrapper-value', 'a wrapper value without an allocator has no memory to live in', HPP,
     'void f(){ zzzjson::Allocator a; zzzjson::Value *v = zzzjson::Value::NewValue(&a); (void)v; }', 'void f(){ zzzjson::Value v; (void)v; }'),
    ('wrapper-new-value', 'a wrapper value created with operator new is never released with its allocator', HPP,
     'void f(){ zzzjson::Allocator a; zzzjson::Value *v = zzzjson::Value::NewValue(&a); (void)v; }', 'void f(){ zzzjson::Value *v = new zzzjson::Value; (void)v; }'),
]

# results point into a value's storage, the input text, or shared constants: they must be pointers to const
GETTERS = [('GetStrFast', '&n', 'char'), ('GetStr', '', 'char'), ('GetUnEscapeStr', '', 'char'), ('GetNumFast', '&n', 'char'),
           ('GetNumStr', '', 'char'), ('GetNum', '', 'double'), ('GetDouble', '', 'double'), ('GetInt', '', 'int'), ('GetLong', '', 'long'),
           ('GetLongLong', '', 'long long'), ('GetBool', '', 'bool'), ('GetKey', '', 'char'), ('GetUnEscapeKey', '', 'char'),
           ('GetKeyFast', '&n', 'char'), ('Type', '', 'JSONType'), ('Stringify', '', 'char')]


def cases():
    for c in CPP: yield ('c++',) + c
    for g, a, t in GETTERS:
        what = 'the result of %s aliases stored data or shared constants, writing through it must not compile' % g
        for style, hd, v, ty in (('c++', H, 'zj::Value *v', 'zj::' + t if t == 'JSONType' else t),
                                 ('c++', HPP, 'zzzjson::Value *v', 'zzzjson::' + t if t == 'JSONType' else t)):
            pre = 'void f(%s){ unsigned n; ' % v
            yield (style, ('wrapper-' if hd is HPP else 'cpp-') + 'const-' + g, what, hd,
                   pre + 'const %s *p = v->%s(%s); (void)p; (void)n; }' % (ty, g, a),
                   pre + '%s *p = v->%s(%s); (void)p; (void)n; }' % (ty, g, a))
        ty = 'zj_JSONType' if t == 'JSONType' else t
        aa = ', ' + a if a else ''
        pre = 'void f(zj_Value *v){ zj_Size n; '
        yield ('c', 'c-const-' + g, what, '#define zj_API_MODE 0\n' + H, pre + 'const %s *p = zj_%s(v%s); (void)p; (void)n; }' % (ty, g, aa),
               pre + '%s *p = zj_%s(v%s); (void)p; (void)n; }' % (ty, g, aa))
        ty = 'JSONType' if t == 'JSONType' else t
        yield ('c', 'c-short-const-' + g, what, H, pre + 'const %s *p = %s(v%s); (void)p; (void)n; }' % (ty, g, aa),
               pre + '%s *p = %s(v%s); (void)p; (void)n; }' % (ty, g, aa))


def compiles(lang, src, cc, std):
    d = tempfile.mkdtemp(prefix='zzw')
    try:
        p = os.path.join(d, 'w.c' if lang == 'c' else 'w.cpp')
        open(p, 'w').write(src)
        cmd = [cc, '-x', lang, '-std=' + std, '-fsyntax-only', '-w'] + \
              ([] if lang != 'c' else ['-Werror=discarded-qualifiers'] if 'gcc' in cc else ['-Werror=incompatible-pointer-types-discards-qualifiers'])
        if lang == 'c': cmd.remove('-w')
        r = subprocess.run(cmd + [p], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        return r.returncode == 0, r.stderr
    finally:
        shutil.rmtree(d, ignore_errors=True)


def c22(res, tier):
    from concurrent.futures import ThreadPoolExecutor
    res.rule = ('Compile-fail witnesses: each misuse program must be rejected by the compiler while its correct twin compiles '
                '(so a rejection is due to the misuse alone).')
    res.assumptions = ['callers do not cast const away']
    comp = {'c++': [('g++', 'c++11'), ('clang++', 'c++17')], 'c': [('gcc', 'c99'), ('clang', 'c99')]}
    if tier != 'thorough': comp = {'c++': comp['c++'][1:], 'c': comp['c'][1:]}
    jobs = [(c, cc, std) for c in cases() for cc, std in comp[c[0]]]

    def go(j):
        (lang, wid, what, hd, good, bad), cc, std = j
        g, err = compiles(lang, hd + good, cc, std)
        b, _ = compiles(lang, hd + bad, cc, std)
        return j, g, err, b
    with ThreadPoolExecutor(8) as ex:
        for j, g, err, b in ex.map(go, jobs):
            (lang, wid, what, hd, good, bad), cc, std = j
            res.count('witness_pairs')
            if not g:
                res.errors.append('the correct twin of witness %s no longer compiles: %s' % (wid, err[:300])); continue
            if b:
                res.add('misuse-compiles', wid, 0, '%s: the program `%s` compiles' % (what, bad.strip()), file='zzzjson.hpp' if hd is HPP else 'zzzjson.h')
            else: res.count('rejected')
            if len(res.samples) < 4: res.samples.append(dict(id=wid, rejected=bad, twin=good, compiler=cc))
    res.need('witness_pairs', 60)
