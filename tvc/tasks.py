"""Obligation tasks: one per (class, method, entry case, argument count, input shape)."""
import time, traceback
from .terms import *
from .sym import Unsupported
from . import terms as T
from .specbase import *


class Result(dict):
    __getattr__ = dict.get


def seq_tasks(spec, only=None):
    ad = spec.ad
    out = []
    for name, f in sorted(spec.table().items()):
        if only and name not in only:
            continue
        cases = ad.cases
        if name in ('__construct', '__unserialize'):
            cases = ad.ctor_cases
        if getattr(f, 'static', False):
            cases = ('static',)
        cases = getattr(f, 'cases', cases)
        for case in cases:
            for na in getattr(f, 'args_for', {}).get(case, f.args):
                for su in getattr(f, 'setups', (None,)):
                    if name == '__construct' and (su == 'none') != (na == 0):
                        continue
                    if name in ('__construct', '__unserialize') and case != 'null' and su not in ('none', 'packedfull', 'tag1'):
                        continue
                    if su in getattr(f, 'skip', ()) and case == 'null':
                        continue
                    out.append((name, case, na, su))
    return out


def run_seq(prog, mods, spec, methods, task, budget=150, unroll=0, timeout=15000):
    name, case, na, su = task
    ad = spec.ad
    label = '%s::%s%s' % (ad.cls, name, '[%s]' % ','.join(str(x) for x in (case, 'argc=%s' % ('any' if na is None else na), su) if x))
    mod = mods[ad.module]
    f = spec.table()[name]
    t0 = time.time()
    C = Case(prog, mod, label, budget, unroll, timeout)
    C.setup = su
    r = Result(label=label, task=task, error=None)
    outs = []
    try:
        obj = None if case == 'static' else ad.make(C, case)
        args = C.frame(na, obj)
        ad.prepare(C, name)
        if hasattr(spec, 'setup_arg') and spec.setup_arg(C, name, su):
            pass
        elif su == 'trav':
            trav_arg(C, 0)
        elif su and su != 'none':
            C.inarr = array_arg(C, 0, su)
        C.E.fname = methods[name]
        outs = C.E.run(C.st, methods[name], args, mod)
        for o in outs:
            if o.kind == 'ret':
                C.E.cur = o.st
                T.NOWRAP = o.st.nowrap
                f(C, o)
                C.no_leak(o.st)
    except Unsupported as ex:
        r['error'] = '%s @ %s' % (ex, C.E.where(C.E.cur) if C.E.cur and C.E.cur.frames else '')
        r['tb'] = traceback.format_exc()
    except RecursionError as ex:
        r['error'] = 'recursion limit'
    except Exception as ex:
        r['error'] = 'internal: %r' % (ex,)
        r['tb'] = traceback.format_exc()
    r['paths'] = len(outs)
    r['obs'] = [o.as_dict() for o in C.E.obs]
    r['queries'] = C.E.nqueries
    r['solver_time'] = C.E.solver_time
    r['time'] = time.time() - t0
    r['assumed'] = sorted(C.E.assumed)
    r['inlined'] = sorted(C.E.inlined)
    r['loops'] = C.E.loop_cases
    r['bounded'] = C.E.bounded_hit
    return r
