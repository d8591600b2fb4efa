#!/usr/bin/env python3-vt
"""Check of one property:  check.py C01 [--tier quick|thorough] [--replay FILE] [--scale X]

Exit 0: the property held on everything explored.  Exit 1: violation (with a
VIOLATION line).  Exit 2: error of the check itself.
"""
import argparse
import importlib
import json
import multiprocessing
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.pycache_prefix = '/nonexistent/pycache'
sys.setrecursionlimit(5000)

CHUNK = 100
CAPS = {'quick': 150.0, 'thorough': 700.0}


def chunks_of(tests, tier, scale):
    """Interleaved list of (test index, first case, number of cases)."""
    per = []
    for ti, t in enumerate(tests):
        n = max(1, int((t.quick if tier == 'quick' else t.thorough) * scale))
        per.append([(ti, a, min(CHUNK, n - a)) for a in range(0, n, CHUNK)])
    out = []
    while any(per):
        for p in per:
            if p:
                out.append(p.pop(0))
    return out


def worker(wid, prop, module, jobs, nxt, stop, deadline, seed, conn):
    try:
        result = run_jobs(prop, module, jobs, nxt, stop, deadline, seed)
        conn.send(('ok', result))
    except BaseException:  # pylint: disable=broad-except
        stop.value = 1
        conn.send(('error', traceback.format_exc()))
    conn.close()


def run_jobs(prop, module, jobs, nxt, stop, deadline, seed):
    from vlib import pbt, findings
    tests = module.TESTS
    stats = {}
    failure = None
    capped = False
    while failure is None and not stop.value:
        with nxt.get_lock():
            j = nxt.value
            nxt.value += 1
        if j >= len(jobs):
            break
        if time.monotonic() > deadline:
            capped = True
            break
        ti, first, count = jobs[j]
        test = tests[ti]
        st = stats.setdefault(test.name, {'evaluations': 0, 'labels': {}, 'digests': set(), 'samples': []})
        for index in range(first, first + count):
            src = pbt.Src(seed=pbt.case_seed(seed, prop, test.name, index))
            spec = test.gen(src)
            labels, msg = pbt.judge(test, spec)
            st['evaluations'] += 1
            for lab in set(labels):
                st['labels'][lab] = st['labels'].get(lab, 0) + 1
            if msg is not None:
                stop.value = 1
                rec, small, smsg = pbt.shrink(test, src.rec)
                failure = {'test': test.name, 'index': index, 'message': smsg or msg, 'spec': small if smsg else spec,
                           'original': spec, 'draws': len(rec)}
                break
            if 'invalid' in labels:
                continue
            if test.nontrivial is None or test.nontrivial.intersection(labels):
                st['digests'].add(pbt.digest(spec))
                if len(st['samples']) < 2 and index % 37 == 0:
                    st['samples'].append(spec)
    return {'stats': stats, 'failure': failure, 'capped': capped, 'findings': sorted(findings.SEEN)}


def load_known():
    with open(os.path.join(HERE, 'known_findings.json')) as f:
        return json.load(f)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--replay')
    ap.add_argument('--scale', type=float, default=1.0)
    ap.add_argument('--jobs', type=int, default=min(8, os.cpu_count() or 1))
    args = ap.parse_args()
    prop = args.prop
    tier = 'thorough' if args.tier == 'thorough' else 'quick'
    seed = int(os.environ.get('VERIF_SEED') or '1')
    began = time.monotonic()

    from vlib import pbt, findings
    findings.load(os.path.join(HERE, 'known_findings.json'), prop)
    module = importlib.import_module('props.' + prop.lower())

    if args.replay:
        return replay(module, prop, args.replay)

    jobs = chunks_of(module.TESTS, tier, args.scale)
    ctx = multiprocessing.get_context('fork')
    nxt, stop = ctx.Value('l', 0), ctx.Value('b', 0)
    deadline = began + CAPS[tier]
    procs = []
    for wid in range(args.jobs):
        parent, child = ctx.Pipe(False)
        p = ctx.Process(target=worker, args=(wid, prop, module, jobs, nxt, stop, deadline, seed, child))
        p.start()
        child.close()
        procs.append((p, parent))
    results, errors = [], []
    for p, conn in procs:
        try:
            kind, val = conn.recv()
        except EOFError:
            kind, val = 'error', 'worker died'
        (results if kind == 'ok' else errors).append(val)
    for p, _ in procs:
        p.join(10)
        if p.is_alive():
            p.kill()

    # merge
    stats, failures, seen, capped = {}, [], set(), False
    for r in results:
        capped = capped or r['capped']
        seen.update(r['findings'])
        if r['failure']:
            failures.append(r['failure'])
        for name, st in r['stats'].items():
            m = stats.setdefault(name, {'evaluations': 0, 'labels': {}, 'digests': set(), 'samples': []})
            m['evaluations'] += st['evaluations']
            m['digests'] |= st['digests']
            m['samples'] += st['samples']
            for k, v in st['labels'].items():
                m['labels'][k] = m['labels'].get(k, 0) + v
    order = {t.name: i for i, t in enumerate(module.TESTS)}
    failures.sort(key=lambda f: (order[f['test']], f['draws'], f['index']))

    coverage = {
        'evaluations': sum(m['evaluations'] for m in stats.values()),
        'distinct_nontrivial': sum(len(m['digests']) for m in stats.values()),
        'rule': module.RULE,
        'samples': [{'test': n, 'case': pbt.enc(sp)} for n, m in sorted(stats.items()) for sp in m['samples'][:2]][:12],
        'tests': {n: {'evaluations': m['evaluations'], 'distinct_nontrivial': len(m['digests']),
                      'distribution': dict(sorted(m['labels'].items()))} for n, m in sorted(stats.items())},
        'stopped_by_time_cap': capped,
    }
    evidence = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': coverage,
        'assumptions': getattr(module, 'ASSUMPTIONS', []), 'wall_s': round(time.monotonic() - began, 3),
        'violations': len(failures),
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1, sort_keys=True)
        f.write('\n')

    print('%s %s seed=%d: %d cases, %d distinct non-trivial, %.1f s%s' % (
        prop, tier, seed, coverage['evaluations'], coverage['distinct_nontrivial'], evidence['wall_s'],
        ' (time cap)' if capped else ''))
    for key in sorted(seen):
        print('KNOWN-FINDING: property=%s %s' % (prop, findings.describe(key)))
    if failures:
        f = failures[0]
        folder = os.path.join(HERE, 'replays')
        os.makedirs(folder, exist_ok=True)
        path = os.path.join(folder, '%s-%s-%016x.json' % (prop, f['test'], pbt.digest(f['spec'])))
        with open(path, 'w') as out:
            json.dump({'property': prop, 'test': f['test'], 'message': f['message'], 'seed': seed, 'index': f['index'],
                       'spec': pbt.enc(f['spec'])}, out, indent=1)
            out.write('\n')
        print('test %s, case %d: %s' % (f['test'], f['index'], ascii(f['message'])))
        print('minimal case: %s' % ascii(f['spec']))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if errors:
        sys.stderr.write('error of the check:\n%s\n' % errors[0])
        return 2
    return 0


def replay(module, prop, path):
    from vlib import pbt
    with open(path) as f:
        data = json.load(f)
    spec = pbt.dec(data['spec'])
    test = next(t for t in module.TESTS if t.name == data['test'])
    labels, msg = pbt.judge(test, spec)
    if msg is None:
        print('replay passes: %s' % ', '.join(labels))
        return 0
    print(ascii(msg))
    print('VIOLATION property=%s replay=%s' % (prop, path))
    return 1


if __name__ == '__main__':
    try:
        code = main()
    except Exception:  # pylint: disable=broad-except
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)
