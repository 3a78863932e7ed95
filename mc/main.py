import argparse
import importlib
import json
import os
import sys
import time

from mc import core


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--jobs', type=int, default=core.jobs_available())
    args = ap.parse_args()
    prop = args.prop
    tier = args.tier if args.tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '0') or 0)
    name = 'mc.checks.' + prop.lower()
    t0 = time.time()
    module = importlib.import_module(name)
    limit = getattr(module, 'LIMIT', {'quick': 200, 'thorough': 2400})[tier]
    total = {'quick': 780, 'thorough': 6 * 3600}[tier]

    if args.replay:
        data = json.load(open(args.replay))
        core.quiet() if getattr(module, 'QUIET', True) else None
        result = core.run_chunk(name, eval(data['chunk'], {'nan': float('nan'), 'inf': float('inf')}), limit)
        for v in result['violations']:
            print('REPRODUCED', v['message'], '\n  case:', v['case'])
        sys.stdout.flush()
        os._exit(1 if result['violations'] else 0)

    chunks = list(module.chunks(tier))
    if seed and chunks:
        k = seed % len(chunks)
        chunks = chunks[k:] + chunks[:k]
    rec = core.Rec()
    complete = core.explore_all(name, chunks, args.jobs, limit, total, rec)

    known = core.load_known(prop)
    real, seen_known = [], {}
    for v in rec.violations:
        if v['key'] and v['key'] in known:
            seen_known[v['key']] = v
        else:
            real.append(v)
    for key in sorted(seen_known):
        print('KNOWN-FINDING: property=%s %s' % (prop, known[key]))

    os.makedirs(core.EVIDENCE, exist_ok=True)
    replay_dir = os.path.join(core.EVIDENCE, 'replay')
    os.makedirs(replay_dir, exist_ok=True)
    for old in os.listdir(replay_dir):
        if old.startswith(prop + '-'):
            os.remove(os.path.join(replay_dir, old))
    for i, v in enumerate(real[:core.MAX_KEEP]):
        path = os.path.join(replay_dir, '%s-%d.json' % (prop, i))
        with open(path, 'w') as f:
            json.dump(dict(v, property=prop, tier=tier,
                           replay_command='cd %s && ./check %s --replay %s' % (core.ROOT, prop, path)), f, indent=1)
        print('VIOLATION property=%s replay=%s' % (prop, path))
        print('  ' + v['message'].strip().replace('\n', '\n  ')[:3000])
        print('  case: ' + v['case'][:1500])

    level = module.LEVEL
    coverage = dict(samples=rec.samples or ['(none)'], exhaustive=bool(complete and not real),
                    sub_spaces=len(chunks), bounds=module.BOUNDS[tier] if isinstance(module.BOUNDS, dict)
                    else module.BOUNDS, distinct_outcomes=len(rec.outcomes), rule=module.RULE,
                    known_findings=sorted(seen_known), counters=dict(rec.notes))
    if level == 'model_checking':
        coverage.update(states=len(rec.states), transitions=rec.transitions,
                        traces_validated_against_impl=rec.traces, executions=rec.executions)
    else:
        coverage.update(evaluations=rec.executions, distinct_nontrivial=len(rec.distinct),
                        states=len(rec.states), transitions=rec.transitions)
    evidence = dict(property=prop, tier=tier, seed=seed, level=level, coverage=coverage,
                    wall_s=round(time.time() - t0, 2), violations=len(real), assumptions=list(module.ASSUMPTIONS))
    tmp = os.path.join(core.EVIDENCE, '.%s.tmp' % prop)
    with open(tmp, 'w') as f:
        json.dump(evidence, f, indent=1)
    os.replace(tmp, os.path.join(core.EVIDENCE, prop + '.json'))
    print('%s %s: %d sub-spaces, %d executions, %d states, %d transitions, %d traces, %d outcomes, %d violations, %.1fs'
          % (prop, tier, len(chunks), rec.executions, len(rec.states), rec.transitions, rec.traces,
             len(rec.outcomes), len(real), time.time() - t0))
    sys.stdout.flush()
    os._exit(1 if real else 0)


if __name__ == '__main__':
    main()
