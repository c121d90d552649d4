"""Runs the per-operation analyses (in parallel) and maps their findings to properties."""
import multiprocessing, os, re, signal, time, traceback
from . import ir
from .ir import AnalysisError
from .engine import Engine
from .models import NeedHistory
from . import api, esc, parse, walk, deepcopy, arena

KEEP = ['zj_allocatorAlloc', 'zj_newString', 'zj_appendStr', 'zj_appendChar', 'zj_ValueCopyFrom', 'zj_ParseFast']
CONFIGS = {
    'c': ('c', '#define zj_API_MODE 0\n'),
    'c-expect2': ('c', '#define zj_API_MODE 0\n#define zj_EXPECT_MODE 2\n'),
    'c++': ('c++', '#define zj_API_MODE 0\n', 'namespace zj {}\nusing namespace zj;\nstatic inline void zz_use() { zj_Allocator a; (void)a; }\n'),
}
_mods = {}


def copy_helper(raw):
    """the function zj_Copy hands both values to"""
    names = ir.fn_names(raw)
    m = re.search(r'^define [^\n]*@"?(\w*zj_Copy\w*)"?\([^\n]*\{\n(.*?)^\}', raw, re.S | re.M)
    if m:
        for c in re.finditer(r'call (?:zeroext )?i1 @"?([\w.$]+)"?\(ptr [^,()]*, ptr [^,()]*\)', m.group(2)):
            return names.get(c.group(1), c.group(1))
    return 'zj_ValueCopyFrom'


def module(cfg, keep=None):
    keep = frozenset(KEEP if keep is None else keep)
    k = (cfg, keep)
    if k not in _mods:
        raw = _mods.get(('raw', cfg))
        if raw is None: raw = _mods[('raw', cfg)] = ir.compile_raw(*CONFIGS[cfg])
        ch = copy_helper(raw)
        m = ir.Module(ir.inline_ir(raw, {ch if x == 'zj_ValueCopyFrom' else x for x in keep}))
        m.copy_helper = ch
        m.config = cfg
        m.wto = 'zj_ParseFast' not in keep
        _mods[k] = m
    return _mods[k]


LIMIT = 150     # seconds for one operation


class Timeout(Exception):
    pass


def _alarm(*a): raise Timeout()


def analyse(e, cfg):
    """one operation under one configuration -> dict(findings, stats, error)"""
    t0 = time.time()
    out = dict(entry=e['name'], config=cfg, findings=[], error=None, stats={}, props=e['props'])
    eng = None
    try:
        signal.signal(signal.SIGALRM, _alarm); signal.alarm(e.get('limit', LIMIT))
        m = module(cfg, e.get('keep'))
        fn = m.fn_by_source(m.copy_helper if e.get('fn') == '@copy' else e.get('fn', e['name']))
        if fn is None: raise AnalysisError('function %s not found' % e['name'])
        cls = e.get('model', api.Api)
        for hist in (0, 1, 2, 4):
            mo = cls(m, e); mo.HIST = hist
            eng = Engine(m, mo)
            eng.deadline = t0 + 0.7 * e.get('limit', LIMIT)
            eng.grace = 0.15 * e.get('limit', LIMIT)
            mo.setup()
            try:
                eng.run(fn, mo.start(fn), e['name'])
                break
            except NeedHistory as x:
                if hist == 4: raise
        out['findings'] = list(eng.findings.values())
        if eng.partial and not out['findings']: raise AnalysisError(eng.partial)
        if not eng.stats.get('returns') and not out['findings']: raise AnalysisError('no return of the operation was reached')
        st = eng.stats
        out['stats'] = dict(states=st['states'], shapes=st['shapes'], blocks=len(st['blocks']), accesses=st['accesses'], insts=st['insts'], forks=st['forks'],
                            returns=st.get('returns', 0))
    except Timeout:
        # a bound, not a verdict: what was found so far stands, otherwise the operation is undecided
        if eng is not None: out['findings'] = list(eng.findings.values())
        if not out['findings']: out['error'] = '%s [%s]: no fixpoint within %d s' % (e['name'], cfg, e.get('limit', LIMIT))
    except AnalysisError as x:
        # what was found before stands, otherwise the operation is undecided
        if eng is not None: out['findings'] = list(eng.findings.values())
        if not out['findings']: out['error'] = '%s [%s]: %s' % (e['name'], cfg, x)
    except RecursionError as x:
        out['error'] = '%s [%s]: recursion' % (e['name'], cfg)
    except Exception:
        out['error'] = '%s [%s]: internal error: %s' % (e['name'], cfg, traceback.format_exc()[-1500:])
    finally:
        signal.alarm(0)
    out['wall'] = round(time.time() - t0, 2)
    return out


def _job(a):
    return analyse(api.ENTRIES[a[0]], a[1])


def run_entries(names, cfgs):
    jobs = [(n, c) for n in names for c in (api.ENTRIES[n].get('cfgs') or cfgs)]
    for n, c in jobs: module(c, api.ENTRIES[n].get('keep'))
    jobs.sort(key=lambda j: -api.ENTRIES[j[0]].get('cost', 1))
    with multiprocessing.get_context('fork').Pool(min(8, max(1, len(jobs)))) as p:
        return p.map(_job, jobs, chunksize=1)


MEMPROP = {'over-read': 'C04'}


def wants(prop, e, kind):
    ks = kind.split('+')
    if prop in ks: return True
    if kind in api.MEM:
        if prop == 'C05': return kind != 'over-read'
        if prop == 'C04': return kind == 'over-read' or (kind == 'oob-read')
        return e['props'][0] == prop
    return False


def prop_check(prop):
    def f(res, tier):
        cfgs = ['c'] if tier == 'quick' else list(CONFIGS)
        if prop in ('C04', 'C05'): names = list(api.ENTRIES)
        else: names = [n for n, e in api.ENTRIES.items() if prop in e['props']]
        res.rule = ('abstract interpretation of each operation (inlined SSA form of the current header) from every abstract pre-state to a fixpoint; '
                    'at every return the post-condition of the property is decided on the abstract state, at every memory access its safety')
        rs = run_entries(names, cfgs)
        for r in rs:
            e = api.ENTRIES[r['entry']]
            if r['error']: res.errors.append(r['error']); continue
            res.count('operations_analysed')
            for k in ('states', 'blocks', 'accesses', 'returns', 'shapes'): res.count(k, r['stats'].get(k, 0))
            res.samples.append(dict(operation=r['entry'], config=r['config'], **r['stats'], seconds=r['wall']))
            for x in r['findings']:
                if wants(prop, e, x['kind']):
                    x = dict(x); x['path'] = x['path'][-40:]
                    res.findings.append(x)
        res.counts['operations_expected'] = len(rs)
        res.assumptions += ['sizes below 2^31; allocation succeeds', 'values and trees passed in were built by the library and are well formed',
                            'the summaries of the arena allocator and of the string buffer (verified by C06) hold']
        return rs
    return f
