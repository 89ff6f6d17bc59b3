#!/usr/bin/env python3
"""run.py PROPERTY: check one property on the code in /repo.

Exit 0: it held on everything explored.  Exit 1, with a line
`VIOLATION property=ID replay=FILE`: it did not.  Exit 2: the check failed."""
import json, os, shutil, sys, tempfile, time, traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'py'))
import nd, checks

# What of the observations the specification looks at.
KEEP = {'C02': ['bad'], 'C22': ['bad']}


def slim(prop, x):
    keep = KEEP.get(prop)
    if keep:
        if 'o' in x:
            x['o'] = {k: x['o'][k] for k in keep}
        for s in x['steps']:
            s['o'] = {k: s['o'][k] for k in keep}
            s['f'] = [{k: f[k] for k in keep} for f in s['f']]
    return x


def known(prop):
    with open(os.path.join(nd.VERIF, 'known-findings.json')) as f:
        return [k for k in json.load(f)['findings'] if k['property'] == prop]


def main():
    prop = sys.argv[1]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    tier = os.environ.get('VERIF_TIER', 'quick')
    t0 = time.time()
    os.makedirs(nd.OUT, exist_ok=True)
    os.makedirs(os.path.join(nd.VERIF, 'evidence'), exist_ok=True)
    work = tempfile.mkdtemp(prefix=f'work-{prop}-', dir=nd.OUT)
    try:
        return check(prop, seed, tier, t0, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def check(prop, seed, tier, t0, work):
    nd.build()
    cases = checks.MAKE[prop](seed * 1000003 + int(prop[1:]), checks.Scale(tier))
    outs = nd.run(cases)
    execs = [slim(prop, nd.execution(c, o)) for c, o in zip(cases, outs)]
    t1 = time.time()
    v = nd.judge(prop, execs, work)
    found = {}
    for cid, step, codes in v.violations:
        found.setdefault(cid, (step, codes))
    for k in known(prop):
        c = dict(k['case'])
        o = nd.run([c])[0]
        if k['shows'] in json.dumps(o):
            print(f'KNOWN-FINDING: property={prop} {k["what"]}')
        else:
            print(f'note: the known finding "{k["what"]}" does not show any more')
    bad = 0
    for cid, (step, codes) in sorted(found.items()):
        bad += 1
        if bad > 10:
            continue
        path = os.path.join(nd.OUT, f'{prop}-{bad}.json')
        with open(path, 'w') as f:
            json.dump({'property': prop, 'violated': codes, 'step': step, 'case': cases[cid], 'outcome': outs[cid]}, f, indent=1)
        print(f'VIOLATION property={prop} replay={os.path.relpath(path, nd.VERIF)}')
        print(f'  {", ".join(codes)} at step {step} of {json.dumps(cases[cid]["in"])[:300]}')
    steps = sum(len(x['steps']) for x in execs)
    kinds = {}
    for o in outs:
        kinds[o['r']] = kinds.get(o['r'], 0) + 1
    ops = {}
    for c in cases:
        for o in c.get('ops', []):
            ops[o['op']] = ops.get(o['op'], 0) + 1
    sample = [{'in': c['in'], 'ops': c.get('ops', [])[:4]} for c in cases[:: max(1, len(cases) // 4)][:4]]
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'violations': len(found), 'wall_s': round(time.time() - t0, 1),
          'coverage': {'states': v.states + sum(m['states'] for m in nd.MODELS), 'transitions': v.transitions, 'traces_validated_against_impl': len(execs),
                       'steps_of_histories': steps, 'distinct_inputs': len({c['in'] for c in cases}), 'outcomes_of_parsing': kinds, 'operations': ops,
                       'stopped_early': v.stops, 'models': nd.MODELS, 'samples': sample, 'exhaustive': False},
          'assumptions': ['The specification in spec/ states the intended behaviour.', 'TLC evaluates it correctly.', 'The harness reports what the public interface returned.']}
    with open(os.path.join(nd.VERIF, 'evidence', f'{prop}.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print(f'{prop}: {len(execs)} executions, {steps} steps, {v.states} states, {len(found)} violations, {time.time() - t0:.1f} s (run {t1 - t0:.1f} s)')
    return 1 if found else 0


if __name__ == '__main__':
    try:
        sys.exit(main())
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.exit(2)
