"""Verify one contract of a linked .ll file; writes a JSON report."""
import sys, os, time, json, traceback, resource
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(100000)
import ir, exec_, smt
sys.modules['exec'] = exec_

def run(ll, fn, verbose=False, seed=1, budget=300, tier='quick', **opts):
    t0 = time.time()
    R = dict(contract=fn, error=None, obligations=[], covers={}, paths=0)
    E = None
    try:
        m = ir.Module(open(ll).read())
        E = exec_.Engine(m, seed=seed, pool=opts.pop('pool', 2048), opts=dict(verbose=verbose, deadline=t0 + budget,
                         timeout=10.0 if tier == 'quick' else 40.0, ring_timeout=40 if tier == 'quick' else 120, **opts))
        E.pending = []; E.stopped = []
        E.run_global_ctors()
        E.called = set()
        work = [E.start('@vc_contract_' + fn)]
        while work:
            s = work.pop()
            R['paths'] += len(E.run(s))
            work += E.pending; E.pending = []
            if E.failed_stop: break
    except exec_.Unsupported as e:
        R['error'] = 'unsupported: %s' % e
        if verbose: traceback.print_exc()
    except TimeoutError as e:
        R['error'] = 'timeout: %s' % e
    except Exception as e:
        R['error'] = 'internal: %s: %s' % (type(e).__name__, e)
        R['trace'] = traceback.format_exc()[-3000:]
        if verbose: traceback.print_exc()
    if E is not None:
        for o in E.obls:
            d = dict(name=o.name, kind=o.kind, status=o.status, backend=o.backend, time=round(o.time, 4), where=o.detail)
            if o.status != 'discharged': d['witness'] = o.witness
            R['obligations'].append(d)
        R['covers'] = {k: bool(v) for k, v in E.covers.items()}
        R['bounded'] = sorted(E.bounded_notes)
        R['assumptions'] = sorted(E.assumptions)
        R['called'] = sorted(E.called)
        R['externs'] = sorted(getattr(E, 'extern_seen', []))
        R['loop_summaries'] = E.loop_summaries
        R['instructions'] = E.ninst
    R['stats'] = smt.STATS
    R['wall'] = round(time.time() - t0, 2)
    return R, E

if __name__ == '__main__':
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('ll'); ap.add_argument('fn'); ap.add_argument('--out'); ap.add_argument('-v', action='store_true')
    ap.add_argument('--seed', type=int, default=1); ap.add_argument('--budget', type=float, default=300); ap.add_argument('--tier', default='quick')
    a = ap.parse_args()
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    R, E = run(a.ll, a.fn, a.v, a.seed, a.budget, a.tier)
    if a.out: json.dump(R, open(a.out, 'w'))
    if a.v or not a.out:
        from collections import Counter
        print(a.fn, 'paths', R['paths'], 'inst', R.get('instructions'), Counter((o['status'], o['backend']) for o in R['obligations']), R['error'], 'bounded', R.get('bounded'), 'covers', R['covers'], 'wall', R['wall'])
        for o in R['obligations']:
            if o['status'] != 'discharged': print('  ', o['status'], o['kind'], o['name'], o['where'], o['backend'])
