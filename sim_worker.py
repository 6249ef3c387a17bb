"""Worker process of run.py: executes runs, minimises, replays.  Prints JSON lines."""
import copy
import json
import os
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(3000)


def emit(d):
    OUTF.write(json.dumps(d) + '\n')
    OUTF.flush()


OUTF = sys.stdout


def one(prop, seed, tier, i):
    from sim import checks
    from sim.kernel import h64
    plan = checks.generate(prop, h64(seed, prop, i), tier)
    res = checks.execute(prop, plan, True)
    return plan, res


def record(i, plan, res, full):
    d = dict(i=i, viol=[[v.prop, v.step, v.text] for v in res.viol], skip=res.skip, stats=res.stats, states=[f'{s:x}' if isinstance(s, int) else s for s in res.states], fired=res.fired,
             points=sorted(res.points), simtime=res.simtime, ops=res.ops, digest=res.digest)
    if full or res.viol:
        d['brief'] = res.brief[:12]
    if res.viol:
        d['plan'] = plan
    return d


def run(prop, seed, tier, k, n, total, limit):
    from sim import checks
    t0 = time.time()
    for i in range(k, total, n):
        if time.time() - t0 > limit:
            break
        try:
            plan, res = one(prop, seed, tier, i)
        except Exception:
            emit(dict(i=i, error=traceback.format_exc()[-1500:]))
            continue
        emit(record(i, plan, res, i < 8))
        if res.viol:
            return
        # determinism: a run of another worker is repeated here
        if i % 64 == k and prop != 'C12':
            j = (i - k) + (k + 1) % n
            if j < total:
                try:
                    plan, res = one(prop, seed, tier, j)
                    d = record(j, plan, res, False)
                    d['again'] = 1
                    d['viol'] = []
                    emit(d)
                except Exception:
                    pass


def sig(text):
    import re
    t = re.sub(r'"[^"]*"|\S*(\.yw7|\.od[ts]|/sim)\S*|[0-9]+', '', text)
    return ' '.join(t.split()[:7])


def fails(prop, plan, like=None):
    from sim import checks
    p = copy.deepcopy(plan)
    try:
        res = checks.execute(prop, p, False)
    except Exception:
        return None
    if not res.viol or res.skip or (like and sig(res.viol[0].text) != like):
        return None
    return res


def minimise(prop, path, limit):
    from sim import minim
    rep = json.load(open(path, encoding='utf-8'))
    t0 = time.time()
    res = fails(prop, rep['plan'])
    if res is None:
        rep['note'] = 'not reproduced in a second execution'
    else:
        like = sig(res.viol[0].text)
        plan, res = minim.minimise(rep['plan'], res, lambda p: fails(prop, p, like), t0 + limit)
        # once more, for the exact text and digest
        res = fails(prop, plan)
        rep.update(plan=plan, violation=res.viol[0].text, step=res.viol[0].step, digest=res.digest, trace=res.brief, minimised=True)
    tmp = path + '.tmp'
    json.dump(rep, open(tmp, 'w', encoding='utf-8'), ensure_ascii=False, indent=1)
    os.replace(tmp, path)


def replay(prop, path):
    rep = json.load(open(path, encoding='utf-8'))
    from sim import checks
    res = checks.execute(prop, copy.deepcopy(rep['plan']), False)
    for b in res.brief:
        OUTF.write('  ' + b + '\n')
    OUTF.write('digest ' + res.digest + (' (same)' if res.digest == rep['digest'] else f' (recorded: {rep["digest"]})') + '\n')
    for v in res.viol:
        OUTF.write(f'{v}\n')
    OUTF.flush()
    os._exit(1 if res.viol else 0)


def main():
    prop, what = sys.argv[1:3]
    a = sys.argv[3:]
    from sim import checks
    checks.prepare()
    if what == 'run':
        run(prop, int(a[0]), a[1], int(a[2]), int(a[3]), int(a[4]), float(a[5]))
    elif what == 'minimise':
        minimise(prop, a[0], float(a[1]))
    elif what == 'plan':
        plan, res = one(prop, int(a[0]), a[1], int(a[2]))
        emit(dict(plan=plan, brief=res.brief[:40]))
    elif what == 'digests':  # one plan per line of the file
        for line in open(a[0], encoding='utf-8'):
            try:
                emit(dict(digest=checks.execute(prop, json.loads(line), False).digest))
            except Exception:
                emit(dict(digest=None))
    elif what == 'replay':
        replay(prop, a[0])
    OUTF.flush()
    os._exit(0)


main()
