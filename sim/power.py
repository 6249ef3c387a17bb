"""C25: power failures.  Programs export, import and save settings; the power fails at any storage operation or in between.

What the programs have written is on the device only when it has been flushed, or after half a minute (Kernel.power).
The last complete version of the project, of each document and of the settings has to be there afterwards, in the file or in its backup,
and work goes on from there."""
import os
import random

from . import creation, docedit, docs, gen, histories, lab, model, ywstub
from .kernel import K, MUTATING, SimCrash, h64
from .world import EXPORTS, Skip, Violation
from .worldgen import Builder

CONF = 'pywriter.config.configuration'
INI = '/sim/work/app.ini'


def plan(seed, tier, prop):
    b = Builder(seed, level='plain')
    r = b.r
    b.plan['markup'] = False
    t = b.tree(foreign=0)
    b.place()
    while b.base.endswith(tuple(histories.IMPORTS)):
        b.place()
    b.add_project(t)
    b.plan['prj'] = b.prj
    steps = b.plan['steps']
    sufs = [b.suffix(True) for _ in range(r.choice([1, 1, 2]))]

    def fails():
        return dict(seed=r.randrange(1 << 30), on=r.choice(['any', 'target', 'target', 'target']), nth=r.choice([r.randrange(12), r.randrange(60), r.randrange(4)]))

    def pause():
        if r.random() < 0.25:
            steps.append(dict(t='wait', secs=r.choice([0.5, 3, 8, 20, 40, 300])))
    for k in range(r.choice([1, 2, 3, 4] if tier == 'quick' else [2, 4, 6, 9])):
        prog = r.choice([0, 0, 1])
        s = r.choice(sufs)
        x = r.random()
        if x < 0.55:
            # a round trip, the document being imported once or several times in a row
            steps.append(dict(t='export', suffix=s, prog=prog))
            pause()
            for j in range(r.choice([1, 1, 2, 3])):
                if r.random() < 0.8:
                    steps.append(dict(t='docedit', suffix=s, pick=r.randrange(1 << 30), n=r.randint(1, 2), lo=0))
                steps.append(dict(t='import', suffix=s, prog=prog))
                pause()
        elif x < 0.8:
            for j in range(r.choice([1, 2, 2, 3])):
                steps.append(dict(t='export', suffix=r.choice(sufs + [b.suffix(False)]), prog=prog))
                pause()
        elif x < 0.85:
            # another project is created
            steps.append(dict(t='create', doc=f'{os.path.dirname(b.prj)}/neu{k}.odt', prog=prog, suffix='', spec=creation.spec(r, h64(seed, 'doc', k), tier)))
            pause()
        elif x < 0.93:
            steps.append(dict(t='ywedit', pick=r.randrange(1 << 30), n=r.randint(1, 2)))
        else:
            for j in range(r.choice([1, 2, 3])):
                steps.append(dict(t='settings', prog=prog, seed=r.randrange(1 << 30)))
                pause()
        if r.random() < 0.1:
            steps.append(dict(t='restart', prog=prog))
        if r.random() < 0.5:
            # the last thing done is interrupted, or the power fails some time later
            last = steps[-1]
            if last['t'] in ('export', 'import', 'settings', 'create') and r.random() < 0.65:
                last['power'] = fails()
            else:
                steps.append(dict(t='power', seed=r.randrange(1 << 30)))
    if not any('power' in st or st['t'] == 'power' for st in steps):
        steps.append(dict(t='power', seed=r.randrange(1 << 30)))
    return b.plan


def complete(path, data):
    """the file is a whole project or document"""
    try:
        if path.endswith('.yw7'):
            model.canon(data)
        elif path.endswith(('.odt', '.ods')):
            docs.Doc(data)
    except (ywstub.BadProject, docs.BadDoc):
        return False
    return True


class Power(histories.History):
    def __init__(self, prop, plan, fresh):
        super().__init__(prop, plan, fresh)
        self.stats.update(powers=0, powers_inside=0, recovered_from_backup=0, settings=0, creates=0, continued=0)
        self.good = {}  # path -> complete versions, oldest first
        self.failed = False

    def v(self, prop, text):
        if prop == 'C25':
            self.viol.append(Violation('C25', self.i, text))
        elif 'failed:' in text and prop == 'C15':
            self.viol.append(Violation('C25', self.i, ('after a power failure: ' if self.failed else '') + text))

    def run(self):
        self.w.setup()
        K.journal = []
        K.sync()
        self.prj = self.plan['prj']
        self.good[INI] = [None]
        self.note()
        for self.i, st in enumerate(self.plan['steps']):
            getattr(self, 'do_' + st['t'])(st)
            if self.viol:
                break
        return self

    def note(self):
        """remember the complete versions of all files"""
        for path, n in K.files():
            if path.endswith(('.yw7', '.odt', '.ods', '.ini')) and not path.startswith('/sim/tmp'):
                d = bytes(n.data)
                g = self.good.setdefault(path, [])
                if g[-1:] != [d]:
                    g.append(d)

    # ------------------------------------------------------------ power failures
    def arm(self, p, st, target):
        """let the power fail during what the program does"""
        f = st.get('power')
        if not f:
            return
        seen = [0]

        def hook(pr, i, name, path):
            if pr is not p or f['on'] == 'target' and not (path.startswith(target) and (name in MUTATING or name == 'fsync' or name.startswith('close'))):
                return
            seen[0] += 1
            if seen[0] > f['nth']:
                K.op_hook = None
                self.where = (name, 'backup' if path.endswith('.bak') else os.path.splitext(path)[1])
                self.down(f['seed'])
                raise SimCrash()
        K.op_hook = hook

    def down(self, seed):
        self.pre = {path: bytes(n.data) for path, n in K.files()}
        self.lost = K.power(seed)

    def convert(self, st, src, suffix):
        self.lost = None
        p = self.w.program(st.get('prog', 0))
        self.arm(p, st, self.prj if src.endswith(('.odt', '.ods')) and suffix == '' and st['t'] == 'import' else src[:-4] + '.yw7' if st['t'] == 'create' else self.path(suffix))
        try:
            out = super().convert(st, src, suffix)
        finally:
            K.op_hook = None
        if self.lost is not None:
            self.stats['powers_inside'] += 1
            self.after()
            raise PowerDown()
        if self.failed and out.ok:
            self.stats['continued'] += 1
        self.note()
        if st.get('power'):
            # it was over before
            self.where = ('idle', '')
            self.down(st['power']['seed'])
            self.after()
            raise PowerDown()
        return out

    def do_export(self, st):
        try:
            super().do_export(st)
        except PowerDown:
            pass

    def do_import(self, st):
        try:
            super().do_import(st)
        except PowerDown:
            pass

    def do_create(self, st):
        prj = st['doc'][:-4] + '.yw7'
        if K.fs.get(prj) is not None:
            return
        K.fs.put(st['doc'], docs.build_odt(st['spec']))
        K.sync()
        self.note()
        try:
            out = self.convert(st, st['doc'], '')
        except PowerDown:
            return
        self.stats['creates'] += 1
        if not out.ok:
            self.v('C15', f'creating a project failed: {out.brief()[:200]}')

    def do_power(self, st):
        self.where = ('idle', '')
        self.down(st['seed'])
        self.after()

    def do_wait(self, st):
        K.now += st['secs']

    def do_docedit(self, st):
        s = st['suffix']
        if s in self.slots:
            self.slots[s][1] = []  # the same document is edited again
        super().do_docedit(st)
        K.sync()
        self.note()

    def do_ywedit(self, st):
        super().do_ywedit(st)
        K.sync()
        self.note()

    def do_settings(self, st):
        p = self.w.program(st['prog'])
        lab.need(p, CONF)
        r = random.Random(st['seed'])
        self.lost = None
        self.arm(p, st, INI)
        vals = {k: str(r.randrange(10 ** r.choice([1, 5, 30]))) for k in ('a', 'b', 'root_geometry', 'yw_last_open')[:r.randint(1, 4)]}
        try:
            res, x = lab.call(p, lambda m: m[CONF].Configuration(vals, {'x': r.random() < 0.5}).write(INI))
        finally:
            K.op_hook = None
        self.stats['settings'] += 1
        self.brief.append(f'{self.i}: settings -> {res} {x or ""}')
        if self.lost is not None:
            self.stats['powers_inside'] += 1
            self.after()
            return
        if res != 'ok':
            self.v('C25', f'writing the settings failed: {x}')
            return
        self.note()
        if st.get('power'):
            self.do_power(dict(seed=st['power']['seed']))

    def after(self):
        self.stats['powers'] += 1
        self.failed = True
        self.brief.append(f'{self.i}: the power fails at {self.where}: {self.lost}')
        self.states.add(h64(self.where, sorted((os.path.splitext(k)[1], v) for k, v in self.lost.items() if not k.startswith('/sim/tmp'))))
        self.w.programs.clear()
        self.w.keepers.clear()
        self.slots.clear()
        for path, g in sorted(self.good.items()):
            have = [K.fs.get(path), K.fs.get(path + '.bak')]
            ok = g[-2:] if path.endswith('.ini') else g[-1:]
            if have[0] not in ok and have[0] == self.pre.get(path) and complete(path, have[0]):
                ok = ok + [have[0]]  # was being written, and is complete
            if have[0] in ok:
                self.good[path] = [have[0]]
            elif have[1] in ok and not path.endswith('.ini'):
                self.good[path] = [have[1]]
                K.fs.put(path, have[1])
                self.stats['recovered_from_backup'] += 1
            else:
                self.v('C25', f'power failure at {self.where} of "{os.path.basename(path)}": the last complete version is lost (now '
                       f'{[None if x is None else len(x) for x in have]} bytes in the file and its backup, last version {len(g[-1])} bytes; lost {self.lost})')
                return
        # incomplete files that never were complete are thrown away
        for path, n in K.files():
            if path not in self.good and path.endswith(('.odt', '.ods', '.yw7')) and not path.startswith('/sim/tmp'):
                if complete(path, bytes(n.data)):
                    self.good[path] = [bytes(n.data)]
                else:
                    K.fs.delete(path)
        K.sync()


class PowerDown(Exception):
    pass


def execute(prop, plan, fresh, res):
    h = Power(prop, plan, fresh)
    res.brief = h.brief
    try:
        h.run()
    finally:
        K.op_hook = None
        K.journal = None
        res.stats, res.states, res.viol = h.stats, h.states, h.viol
