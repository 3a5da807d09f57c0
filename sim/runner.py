"""Exploration, replay, minimisation and evidence for one property."""

import collections
import hashlib
import json
import os
import select
import signal
import subprocess
import sys
import time

from . import engine, env
from .core import CAP, rng_for
from .pool import Pool, rerun_capped, run_scenario, set_cap
from .shrink import shrink, size

REPLAYS = os.path.join(env.VERIF, 'replays')
EVIDENCE = os.path.join(env.VERIF, 'evidence')
TIME_CAP = {'quick': 240, 'thorough': 780}


def one(prop, seed, tier, index, capped, dump):
    """Run a single index (debugging, and the capped re-run of a hang)."""
    scn = prop.generate(rng_for(seed, prop.ID, index), index, tier)
    if dump:
        print(json.dumps(scn, indent=1))
    if capped:
        set_cap()
    record = run_scenario(prop, scn)
    sys.settrace(None)
    record['index'] = index
    if record['status'] == 'violation':
        record['scenario'] = scn
    print(json.dumps(record))
    return 1 if record['status'] == 'violation' else 0


def load_replay(path):
    with open(path, encoding='utf-8') as fh:
        return json.load(fh)


def replay(prop, path, capped):
    data = load_replay(path)
    record = None
    if capped or data.get('capped'):
        set_cap()
    for scn in data['scenarios']:
        CAP.count = 0
        record = run_scenario(prop, scn)
    sys.settrace(None)
    if capped:
        print(json.dumps(record))
        return 0
    print(json.dumps({'status': record['status'], 'kind': record.get('kind'), 'detail': record.get('detail')}))
    if record['status'] == 'violation':
        print(f'VIOLATION property={prop.ID} replay={path}')
        return 1
    print('not reproduced')
    return 0


def isolated(prop, scenarios, seconds=6.0, cap=False, shrinking=False):
    """Run scenarios in a forked child; the record of the last one, or None if it hung or died."""
    rfd, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(rfd)
        try:
            engine.SHRINKING = shrinking
            if cap:
                set_cap()
            for scn in scenarios:
                CAP.count = 0
                record = run_scenario(prop, scn)
            sys.settrace(None)
            record = {'status': record['status'], 'kind': record.get('kind'), 'detail': record.get('detail')}
        except BaseException as exc:  # malformed candidates land here
            record = {'status': 'broken', 'detail': repr(exc)[:200]}
        data = json.dumps(record).encode()
        while data:
            data = data[os.write(wfd, data):]
        os._exit(0)
    os.close(wfd)
    out = b''
    deadline = time.monotonic() + seconds
    while True:
        left = deadline - time.monotonic()
        if left <= 0 or not select.select([rfd], [], [], left)[0]:
            os.kill(pid, signal.SIGKILL)
            out = b''
            break
        data = os.read(rfd, 1 << 20)
        if not data:
            break
        out += data
    os.close(rfd)
    os.waitpid(pid, 0)
    try:
        return json.loads(out)
    except ValueError:
        return None


def fresh_replay(prop, path):
    """Replay a file in a fresh process."""
    try:
        proc = subprocess.run([env.PYTHON, os.path.join(env.VERIF, 'check.py'), prop.ID, '--replay', path],
                              env=env.child_env(), capture_output=True, timeout=200, check=False)
    except subprocess.TimeoutExpired:
        return {'status': 'broken', 'detail': 'timeout'}
    first = proc.stdout.decode().split('\n', maxsplit=1)[0]
    try:
        return json.loads(first)
    except ValueError:
        return {'status': 'broken', 'detail': proc.stderr.decode()[-300:]}


def report(prop, seed, tier, record, chunk):
    """Minimise, write the replay file, verify it in a fresh process, print the VIOLATION line."""
    kind = record['kind']
    scn = record['scenario']
    index = record['index']
    os.makedirs(REPLAYS, exist_ok=True)
    path = os.path.join(REPLAYS, f'{prop.ID}-seed{seed}-run{index}.json')
    data = {'property': prop.ID, 'seed': seed, 'tier': tier, 'index': index, 'kind': kind, 'detail': record['detail'],
            'scenarios': [scn], 'capped': kind == 'no-progress'}
    reproduced = False
    if kind == 'no-progress':
        reproduced = True
    else:
        got = isolated(prop, [scn], 40)
        reproduced = bool(got) and got['status'] == 'violation'
        if not reproduced:
            # State carried over from earlier scenarios in the same process: find how many of them it takes
            earlier = [prop.generate(rng_for(seed, prop.ID, ix), ix, tier) for ix in range(chunk, index)]
            count = 1
            while not reproduced and earlier:
                data['scenarios'] = [*earlier[-count:], scn]
                got = isolated(prop, data['scenarios'], 120)
                reproduced = bool(got) and got['status'] == 'violation'
                if count >= len(earlier):
                    break
                count = min(len(earlier), count * 2)
        elif got['kind'] == kind:
            strings = getattr(prop, 'SHRINK_STRINGS', ())
            small, tests = shrink(scn, lambda cand: _still(prop, cand, kind), 30, 3000, strings)
            data['scenarios'] = [small]
            data['minimised'] = {'from_bytes': size(scn), 'to_bytes': size(small), 'candidates_tried': tests}
            got = isolated(prop, [small], 40)
            if got and got.get('detail'):
                data['detail'] = got['detail']
    data['reproduced'] = reproduced
    with open(path, 'w', encoding='utf-8') as fh:
        json.dump(data, fh, indent=1)
    again = fresh_replay(prop, path)
    data['replays_identically'] = again.get('status') == 'violation' and again.get('kind') == kind
    if not data['replays_identically'] and data['scenarios'] != [scn]:
        data['note'] = 'the minimised form did not replay in a fresh process; this is the original'
        data['scenarios'] = [scn]
    with open(path, 'w', encoding='utf-8') as fh:
        json.dump(data, fh, indent=1)
    print(f'violation kind: {kind}')
    print(f'violation detail: {data["detail"]}')
    print(f'replays identically in a fresh process: {data["replays_identically"]}')
    print(f'VIOLATION property={prop.ID} replay={os.path.relpath(path, env.VERIF)}')
    return path


def _still(prop, cand, kind):
    got = isolated(prop, [cand], 6, shrinking=True)
    return bool(got) and got['status'] == 'violation' and got['kind'] == kind


def explore(prop, seed, tier, runs, begin, digests):
    workers = int(os.environ.get('SIM_WORKERS', '0')) or min(8, os.cpu_count() or 1)
    total = runs or int(os.environ.get('SIM_RUNS', '0')) or prop.RUNS[tier]
    pool = Pool(prop, seed, tier, workers)
    counts = collections.Counter()
    faults = collections.Counter()
    nontrivial = set()
    keys = set()
    histories = set()
    samples = []
    found = []
    all_digests = {}
    reasons = collections.Counter()

    def on_done(record):
        counts[record['status']] += 1
        faults.update(record.get('stats') or {})
        if record['status'] == 'violation':
            found.append(record)
            return True
        if record['status'] == 'invalid':
            reasons[record.get('reason', '')] += 1
            return False
        histories.add(record['digest'])
        keys.update(record['keys'])
        if digests:
            all_digests[record['index']] = record['digest']
        if record.get('nontrivial'):
            nontrivial.add(hashlib.sha1(str(record['nontrivial']).encode()).hexdigest()[:16])
        if 'sample' in record and len(samples) < 4:
            samples.append({'index': record['index'], 'scenario': record['sample']})
        return False

    loop_begin = time.monotonic()
    hung = pool.run(total, TIME_CAP[tier] - (loop_begin - begin), on_done)
    loop_s = time.monotonic() - loop_begin
    # Runs that hit the wall-clock guard are decided by the deterministic step cap, in a fresh process
    for index in sorted(hung):
        if found:
            break
        record = rerun_capped(prop.ID, seed, tier, index)
        counts['hung'] += 1
        if record is None:
            record = {'status': 'violation', 'kind': 'no-progress', 'detail': 'the run does not end', 'index': index,
                      'scenario': prop.generate(rng_for(seed, prop.ID, index), index, tier)}
        if record['status'] == 'violation':
            found.append(record)
        else:
            counts[record['status']] += 1
    done = counts['ok'] + counts['violation']
    if digests:
        print('digest', hashlib.sha256(json.dumps(sorted(all_digests.items())).encode()).hexdigest())
    write_evidence(prop, seed, tier, begin, counts, faults, nontrivial, keys, histories, samples, found, workers, total, loop_s, reasons)
    if found:
        record = min(found, key=lambda rec: rec['index'])
        chunk = max(1, min(200, total // (workers * 4) or 1))
        report(prop, seed, tier, record, record['index'] // chunk * chunk)
        return 1
    if done < total * 0.05 or counts['invalid'] > counts['ok']:
        print(f'CHECK-ERROR property={prop.ID} only {done} of {total} runs completed ({counts})')
        return 2
    print(f'{prop.ID} held: {done} runs ({counts["invalid"]} outside the workload), {len(histories)} distinct histories, '
          f'{len(nontrivial)} non-trivial, {time.monotonic() - begin:.1f} s')
    return 0


def write_evidence(prop, seed, tier, begin, counts, faults, nontrivial, keys, histories, samples, found, workers, total, loop_s, reasons):
    os.makedirs(EVIDENCE, exist_ok=True)
    done = counts['ok'] + counts['violation']
    fault_counts = {name[6:]: count for name, count in sorted(faults.items()) if name.startswith('fault.')}
    switch_counts = {name[7:]: count for name, count in sorted(faults.items()) if name.startswith('switch.')}
    other = {name: count for name, count in sorted(faults.items())
             if not name.startswith(('fault.', 'switch.')) and name not in ('sim_us', 'points', 'switches')}
    data = {
        'property': prop.ID,
        'tier': tier,
        'seed': seed,
        'level': 'exploration',
        'coverage': {
            'evaluations': done,
            'distinct_nontrivial': len(nontrivial),
            'rule': prop.RULE,
            'samples': samples,
            'requested_runs': total,
            'runs_outside_workload': counts['invalid'],
            'outside_workload_reasons': dict(reasons.most_common(6)),
            'seeds': done,
            'runs_per_hour': int(done / loop_s * 3600) if loop_s else 0,
            'simulated_seconds': round(faults.get('sim_us', 0) / 1e6, 3),
            'scheduling_points': faults.get('points', 0),
            'context_switches': faults.get('switches', 0),
            'context_switches_by_seam': switch_counts,
            'faults_injected': fault_counts,
            'workload_counters': other,
            'distinct_histories': len(histories),
            'distinct_histories_measure': 'SHA-256 of the complete observed history of a run (events, outcomes, final state)',
            'coverage_keys': sorted(keys)[:400],
            'coverage_key_count': len(keys),
            'workers': workers,
            'real_components': prop.REAL,
            'stub_components': prop.STUB,
            'clock_shim': env.CLOCK.available,
        },
        'assumptions': prop.ASSUMPTIONS,
        'wall_s': round(time.monotonic() - begin, 2),
        'violations': len(found),
    }
    path = os.path.join(EVIDENCE, f'{prop.ID}.json')
    with open(path + '.tmp', 'w', encoding='utf-8') as fh:
        json.dump(data, fh, indent=1, ensure_ascii=True)
    os.replace(path + '.tmp', path)
