#!/usr/bin/env python3
"""Seeded simulation of one property.

    python3 run.py C01 [--tier quick|thorough] [--runs N] [--seconds S]

Environment: VERIF_SEED (default 1), VERIF_TIER (quick).  Exit 0: the property held in every run; exit 1 with a
line "VIOLATION property=<id> replay=<path>" otherwise; exit 2: the check itself failed.
"""
import json
import os
import re
import subprocess
import sys
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
NWORK = 8
OUT = os.path.join(HERE, 'out')


def spawn(prop, args, hashseed='0', **kw):
    env = dict(os.environ, PYTHONHASHSEED=hashseed, PYTHONDONTWRITEBYTECODE='1', LC_ALL='C.UTF-8', TZ='UTC')
    return subprocess.Popen([sys.executable, '-X', 'utf8', os.path.join(HERE, 'sim_worker.py'), prop] + args, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, text=True, **kw)


def main():
    a = sys.argv[1:]
    prop = a[0]
    opt = {a[i]: a[i + 1] for i in range(1, len(a) - 1, 2)}
    tier = opt.get('--tier') or os.environ.get('VERIF_TIER') or 'quick'
    seed = int(os.environ.get('VERIF_SEED') or 1)
    limit = float(opt.get('--seconds') or (300 if tier == 'quick' else 780))
    from sim import conf
    total = int(opt.get('--runs') or conf.runs(prop, tier))
    t0 = time.time()
    twice = prop == 'C12'
    n = NWORK
    groups = n // 2 if twice else n
    procs = []
    results = {}
    second = {}
    state = dict(best=None)
    lock = threading.Lock()
    errors = []
    pos = [-1] * n

    def reader(k, p):
        for line in p.stdout:
            try:
                d = json.loads(line)
            except ValueError:
                continue
            with lock:
                i = d['i']
                pos[k] = i
                if 'error' in d:
                    errors.append((i, d['error']))
                    continue
                if d.get('again') or (twice and k >= groups):
                    second[i] = d
                else:
                    results[i] = d
                if d['viol'] and (state['best'] is None or i < state['best'][0]):
                    state['best'] = (i, d)
        p.wait()

    threads = []
    for k in range(n):
        hs = '0'
        kk = k
        if twice and k >= groups:
            hs = '54321'
            kk = k - groups
        p = spawn(prop, ['run', str(seed), tier, str(kk), str(groups), str(total), str(limit)], hs)
        procs.append(p)
        th = threading.Thread(target=reader, args=(k, p), daemon=True)
        th.start()
        threads.append(th)
    while any(th.is_alive() for th in threads):
        time.sleep(0.05)
        with lock:
            best = state['best']
            if best is not None:
                for k, p in enumerate(procs):
                    if p.poll() is None and (pos[k] >= best[0] or time.time() - t0 > limit):
                        p.kill()
            for i in list(second):
                d, e = results.get(i), second[i]
                if d is None or 'seen' in e:
                    continue
                e['seen'] = 1
                if d['digest'] != e['digest']:
                    e['mismatch'] = 1
                    if twice and (best is None or i < best[0]) and not d['viol']:
                        d = dict(d, viol=[[prop, -1, 'the same conversions yield something else if the hash seed of the interpreter is another one']], hashseed=True)
                        state['best'] = (i, d)
    for th in threads:
        th.join()
    bad = [p.returncode for k, p in enumerate(procs) if p.returncode not in (0, -9)]
    best = state['best']
    known = load_known(prop)
    rc = 0
    lines = []
    violations = 0
    if best is not None:
        i, d = best
        text = d['viol'][0][2]
        violations = 1
        rp = minimise(prop, seed, tier, i, d)
        lines.append(f'run {i}: {text}')
        lines.append(f'VIOLATION property={prop} replay={rp}')
        rc = 1
    elif errors or bad:
        rc = 2
        lines.append(f'ERROR: {len(errors)} errors of the check, exit codes {bad}; first: {errors[0] if errors else ""}')
    elif not results or sum(1 for d in results.values() if d['skip']) > 0.5 * len(results):
        rc = 2
        lines.append('ERROR: most runs could not be set up: ' + '; '.join(sorted({str(d['skip']) for d in results.values()})[:3]))
    wall = time.time() - t0
    evidence(prop, seed, tier, total, results, second, wall, violations, known)
    for k in known:
        if k.get('hit'):
            lines.append(f'KNOWN-FINDING: property={prop} {k["text"]}')
    done = len(results)
    print(f'{prop}: {done} of {total} runs in {wall:.1f} s, {sum(d["ops"] for d in results.values())} storage operations, '
          f'{sum(sum(d["fired"].values()) for d in results.values())} faults, {len(set().union(*[set(d["states"]) for d in results.values()]) if results else ())} distinct states, '
          f'{sum(1 for d in results.values() if d["skip"])} skipped')
    for x in lines:
        print(x)
    sys.stdout.flush()
    sys.exit(rc)


def load_known(prop):
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p, encoding='utf-8'):
            m = re.match(r'known: property=(\S+) (.*)', line)
            if m and m.group(1) == prop:
                out.append(dict(text=m.group(2)))
    return out


def minimise(prop, seed, tier, i, d):
    os.makedirs(os.path.join(OUT, 'replays'), exist_ok=True)
    if 'plan' not in d:
        d = dict(d, **json.loads(spawn(prop, ['plan', str(seed), tier, str(i)]).communicate()[0].strip().split('\n')[-1]))
    path = os.path.join(OUT, 'replays', f'{prop}-{seed}-{tier}-{i}.json')
    rep = dict(property=prop, seed=seed, tier=tier, run=i, violation=d['viol'][0][2], step=d['viol'][0][1], plan=d['plan'], digest=d['digest'], trace=d.get('brief'), minimised=False)
    if d.get('hashseed'):
        rep['hashseeds'] = ['0', '54321']
        rep['plan'] = shrink_hashseed(prop, rep['plan'], path)
        rep['minimised'] = True
    json.dump(rep, open(path, 'w', encoding='utf-8'), ensure_ascii=False, indent=1)
    if not d.get('hashseed'):
        p = spawn(prop, ['minimise', path, '60'])
        try:
            p.communicate(timeout=150)
        except subprocess.TimeoutExpired:
            p.kill()
    return path


def shrink_hashseed(prop, plan, path):
    """Leave out steps and faults as long as the results still differ between hash seeds."""
    t0 = time.time()
    while time.time() - t0 < 60:
        cands = [dict(plan, steps=plan['steps'][:k] + plan['steps'][k + 1:]) for k in range(len(plan['steps']))]
        cands += [dict(plan, steps=[{x: y for x, y in s.items() if x not in ('faults', 'events') or j != k} for j, s in enumerate(plan['steps'])]) for k in range(len(plan['steps']))
                  if plan['steps'][k].get('faults') or plan['steps'][k].get('events')]
        if not cands:
            break
        with open(path + '.cand', 'w', encoding='utf-8') as f:
            for c in cands:
                f.write(json.dumps(c) + '\n')
        outs = [spawn(prop, ['digests', path + '.cand'], h) for h in ('0', '54321')]
        outs = [[json.loads(x)['digest'] for x in p.communicate()[0].strip().split('\n')] for p in outs]
        os.remove(path + '.cand')
        good = [c for c, a, b in zip(cands, *outs) if a and b and a != b]
        if not good:
            break
        plan = good[0]
    return plan


def evidence(prop, seed, tier, total, results, second, wall, violations, known):
    from sim import conf
    fired, states, points, ops, simtime, stats = {}, set(), set(), 0, 0.0, {}
    for d in results.values():
        for k, v in d['fired'].items():
            fired[k] = fired.get(k, 0) + v
        for k, v in d['stats'].items():
            stats[k] = stats.get(k, 0) + v
        states.update(d['states'])
        points.update(d['points'])
        ops += d['ops']
        simtime += d['simtime']
    n = len(results)
    samples = [dict(run=i, trace=results[i].get('brief') or [], digest=results[i]['digest']) for i in sorted(results) if results[i].get('brief')][:4]
    ev = dict(property=prop, tier=tier, seed=seed, level='exploration', wall_s=round(wall, 2), violations=violations,
              coverage=dict(
                  evaluations=n, distinct_nontrivial=len(states),
                  rule=conf.rule(prop),
                  samples=samples,
                  runs_planned=total, runs_skipped=sum(1 for d in results.values() if d['skip']),
                  runs_per_hour=int(n / max(wall, 0.01) * 3600), seeds_per_hour=int(n / max(wall, 0.01) * 3600),
                  simulated_storage_operations=ops, simulated_time_s=round(simtime, 3),
                  fault_kinds_injected=fired, distinct_fault_points=len(points), fault_points=sorted(points)[:60],
                  outcomes=stats,
                  distinct_states_measure=conf.measure(prop), distinct_states=len(states),
                  reexecutions_for_determinism=sum(1 for e in second.values() if 'seen' in e), reexecutions_that_differed=sum(1 for e in second.values() if 'mismatch' in e),
                  real_components=conf.REAL, stub_components=conf.stubs(prop)),
              known_findings=[k['text'] for k in known])
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    tmp = os.path.join(HERE, 'evidence', f'.{prop}.tmp')
    json.dump(ev, open(tmp, 'w', encoding='utf-8'), ensure_ascii=False, indent=1)
    os.replace(tmp, os.path.join(HERE, 'evidence', f'{prop}.json'))


if __name__ == '__main__':
    main()
