"""Entry point: check.py <id> [quick|thorough] [--replay file]"""
import importlib
import json
import os
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
import warnings  # noqa: E402
warnings.filterwarnings('ignore')
from mc import build, engine, loader  # noqa: E402


def main(argv):
    pid = argv[0]
    tier = 'quick'
    replay = None
    i = 1
    while i < len(argv):
        if argv[i] == '--replay':
            replay = argv[i + 1]
            i += 1
        else:
            tier = argv[i]
        i += 1
    t0 = time.time()
    try:
        loader.setup()
    except build.BuildError as e:
        print('BUILD-ERROR: the extension modules do not build: %s' % e)
        return 2
    check = importlib.import_module('mc.checks.' + pid.lower())
    items = [x for x in check.items(tier) if os.environ.get('MC_ITEMS', '') in x[0]]
    if replay:
        r = json.load(open(replay))
        if hasattr(check, 'prepare'):
            check.prepare(tier)
        its = {n: p for n, p in list(check.items('quick')) + list(check.items('thorough'))}
        ch, v = engine.run_once(check, its[r['item']], r['choices'])
        print('replayed %s choices %s: %s' % (r['item'], r['choices'], v.msg if v else 'no violation'))
        if v is not None and v.detail:
            print(v.detail)
        return 1 if v else 0
    if hasattr(check, 'prepare'):
        check.prepare(tier)
    known = engine.load_known(pid)
    # a known finding is identified by its signature
    stats, viol, complete, fatal = engine.run_all(
        check, items, budget=float(os.environ.get('MC_BUDGET', getattr(check, 'BUDGET', {}).get(tier, 700 if tier == 'quick' else 6 * 3600))),
        hang=getattr(check, 'HANG', 90.0), known=lambda v: v[3] in known, stop_on_first=not os.environ.get('MC_ALL'))
    extra = {}
    if not [v for v in viol if v[3] not in known] and not fatal and hasattr(check, 'conformance'):
        ex, vs = check.conformance(tier)
        extra.update(ex)
        viol += vs
    if tier == 'thorough' and not viol and not fatal:
        # some of the executions by real MPI processes
        from mc import realmpi
        if pid.lower() in realmpi.CHECKS:
            try:
                total, count, bad = realmpi.validate([pid.lower()], 12, 40)
                extra['replayed_by_real_mpi_processes'] = {'executions': total, 'by_number_of_ranks': {str(k): v for k, v in count.items()}}
                viol += [('real MPI', [], b[:1000], 'real-mpi', None) for b in bad]
            except realmpi.Unavailable as e:
                extra['replayed_by_real_mpi_processes'] = 'not possible here: %s' % str(e)[:300]
    new = [v for v in viol if v[3] not in known]
    seen = set()
    for v in viol:
        if v[3] in known and v[3] not in seen:
            seen.add(v[3])
            print('KNOWN-FINDING: property=%s %s' % (pid, known[v[3]]))
    cov = {
        'states': len(stats.states), 'transitions': stats.transitions,
        'traces_validated_against_impl': stats.execs,
        'samples': [{'item': n, 'params': repr(p)[:300]} for n, p in items[:6]],
        'configurations': len(items), 'executions': stats.execs, 'longest_choice_sequence': stats.max_depth,
        'exhaustive_within_bounds': bool(complete and not viol),
        'binding': 'every explored execution runs the code of /repo itself (Python modules and extension modules rebuilt '
                   'from the working tree) on simulated ranks and is compared step by step with the reference model',
    }
    cov.update(stats.notes)
    cov.update(extra)
    sample = getattr(check, 'SAMPLES', None)
    if sample:
        cov['samples'] += sample
    engine.write_evidence(pid, tier, cov, time.time() - t0, len(new), getattr(check, 'ASSUMPTIONS', ()))
    print('%s %s: %d executions, %d transitions, %d distinct states, %s, %.1f s' % (
        pid, tier, stats.execs, stats.transitions, len(stats.states),
        'complete' if complete else 'incomplete', time.time() - t0))
    if new:
        for n, v in enumerate(new[:5]):
            path = engine.write_replay(pid, v, n)
            print('VIOLATION property=%s replay=%s' % (pid, path))
            print('  %s %s: %s [sig %s]' % (v[0], v[1], v[2], v[3]))
            if v[4]:
                print('  ' + v[4].strip().replace('\n', '\n  '))
        return 1
    if fatal:
        print('INTERNAL-ERROR: %s' % fatal)
        return 2
    return 0


if __name__ == '__main__':
    sys.stdout.reconfigure(line_buffering=True)
    rc = main(sys.argv[1:])
    sys.stdout.flush()
    os._exit(rc)
