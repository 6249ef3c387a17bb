"""Registry: property -> (plan generator, executor)."""
import hashlib
import signal

from . import kernel, lab, plans, world, worldgen
from .kernel import K, SimStuck, h64


class Result:
    def __init__(self):
        self.viol = []  # world.Violation
        self.stats = {}
        self.states = set()
        self.fired = {}
        self.points = set()  # distinct (fault kind, operation, file class)
        self.simtime = 0.0
        self.ops = 0
        self.brief = []
        self.digest = ''
        self.skip = None


EXEC = {}


def execute(prop, plan, fresh):
    """Run one plan.  fresh: the plan still contains open choices (chaos), which are made and written into it."""
    signal.setitimer(signal.ITIMER_PROF, 60)
    try:
        return inner(prop, plan, fresh)
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)


def inner(prop, plan, fresh):
    lab._refcache.clear()
    res = Result()
    fn = EXEC.get(prop)
    try:
        if fn is None:
            _world(prop, plan, fresh, res)
        else:
            fn(prop, plan, fresh, res)
    except world.Skip as ex:
        res.skip = str(ex)
    except SimStuck as ex:
        K.current = None
        res.viol.append(world.Violation(prop, -1, f'no end within the budget: {ex}'))
    finally:
        K.current = None
        K.sched = None
    for k, v in K.fired.items():
        res.fired[k] = res.fired.get(k, 0) + v
    for f in K.fired_at:
        res.points.add('/'.join(str(x) for x in f[2:]))
    res.simtime += K.now - K.epoch if K.now > K.epoch else 0
    res.ops += K.totalops
    h = hashlib.blake2b(digest_size=12)
    h.update(K.op_hash.digest())
    for p, d in sorted(K.fs.snapshot().items()):
        h.update(p.encode() + b'\0' + (d if d is not None else b'') + b'\1')
    h.update('\n'.join(res.brief).encode('utf-8', 'replace'))
    h.update('\n'.join(map(repr, res.viol)).encode('utf-8', 'replace'))
    res.digest = h.hexdigest()
    return res


def _alarm(*a):
    raise SimStuck('CPU time of a run exceeded')


def prepare():
    lab.setup()
    signal.signal(signal.SIGPROF, _alarm)


def _world(prop, plan, fresh, res):
    w = world.World(plan, [prop], worldgen.decide if fresh else None)
    res.brief = w.brief
    try:
        w.run()
    finally:
        res.stats = w.stats
        res.states = w.states
    res.viol = [v for v in w.viol if v.prop == prop]


def generate(prop, seed, tier):
    if prop in plans.GEN:
        return plans.GEN[prop](seed, tier)
    return GEN[prop](seed, tier)


GEN = {}


def _late():
    from . import apps, built, creation, datafiles, desktop, exports, histories, power, races, settings, splits, tools
    GEN['C22'] = lambda seed, tier: desktop.plan(seed, tier, 'C22')
    EXEC['C22'] = desktop.execute
    GEN['C25'] = lambda seed, tier: power.plan(seed, tier, 'C25')
    EXEC['C25'] = power.execute
    GEN['C26'] = lambda seed, tier: datafiles.plan(seed, tier, 'C26')
    EXEC['C26'] = datafiles.execute
    GEN['C27'] = lambda seed, tier: tools.plan(seed, tier, 'C27')
    EXEC['C27'] = tools.execute
    GEN['C28'] = lambda seed, tier: built.plan(seed, tier, 'C28')
    EXEC['C28'] = built.execute
    GEN['C24'] = lambda seed, tier: exports.plan(seed, tier, 'C24')
    EXEC['C24'] = exports.execute
    GEN['C23'] = lambda seed, tier: creation.plan(seed, tier, 'C23')
    EXEC['C23'] = creation.execute
    GEN['C19'] = lambda seed, tier: races.plan(seed, tier, 'C19')
    EXEC['C19'] = races.execute
    GEN['C17'] = lambda seed, tier: splits.plan(seed, tier, 'C17')
    EXEC['C17'] = splits.execute
    for p in ('C16', 'C20'):
        GEN[p] = lambda seed, tier, p=p: apps.plan(seed, tier, p)
        EXEC[p] = apps.execute
    GEN['C21'] = lambda seed, tier: settings.plan(seed, tier, 'C21')
    EXEC['C21'] = settings.execute
    for p in ('C14', 'C15'):
        GEN[p] = lambda seed, tier, p=p: histories.plan(seed, tier, p)
        EXEC[p] = histories.execute


_late()
