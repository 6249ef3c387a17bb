"""C19: exporting programs and a saving program at the same time, every switch between them decided by the plan."""
import copy
import random

from . import docedit, docs, gen, lab, model, ywstub
from .kernel import K, MUTATING, Scheduler, h64
from .world import EXPORTS, IMPORTS, TMP, Skip, Violation, World
from .worldgen import Builder

YW, NV = 'pywriter.yw.yw7_file', 'pywriter.model.novel'
KINDS = ['eio', 'enospc', 'eacces', 'ebusy', 'crash', 'crash', 'intr']


def plan(seed, tier, prop):
    b = Builder(seed)
    r = b.r
    t = b.tree(markup=r.random() < 0.3, foreign=0)
    b.place()
    while b.base.endswith(tuple(IMPORTS)):
        b.place()
    b.add_project(t)
    b.plan['prj'] = b.prj
    for p in b.plan['progs'].values():
        p['env'] = dict(p.get('env') or {}, bufsize=r.choice([256, 512, 1024, 8192]))
    b.plan['progs']['3'] = copy.deepcopy(b.plan['progs']['0'])
    for _ in range(r.choice([1, 1, 2, 3] if tier == 'quick' else [1, 2, 4, 6])):
        sufs = r.sample(sorted(EXPORTS), r.choice([1, 1, 1, 2, 3]))
        ex = [dict(suffix=s, times=r.choice([1, 1, 1, 2, 3]), keep=r.random() < 0.2) for s in sufs]
        if r.random() < 0.45:
            s = r.choice([x for x in sorted(IMPORTS) if x not in sufs])
            sv = dict(kind='import', suffix=s, pick=r.randrange(1 << 30))
        else:
            sv = dict(kind='app', times=r.choice([1, 1, 2, 3]), pick=r.randrange(1 << 30))
        st = dict(t='race', saver=sv, ex=ex, pick=r.randrange(1 << 30))
        if r.random() < 0.7:
            st['short'] = r.randrange(1 << 30)
        if r.random() < 0.3:
            st['old'] = True  # an older document of this name exists
        if r.random() < 0.2:
            st['trouble'] = r.choice(['saver', 'saver', 'exporter'])
        b.plan['steps'].append(st)
        if r.random() < 0.1:
            b.plan['steps'].append(dict(t='restart', prog=r.randrange(4)))
    return b.plan


class Race:
    def __init__(self, prop, plan, fresh):
        self.prop, self.plan, self.fresh = prop, plan, fresh
        self.w = World(plan)
        self.viol, self.brief, self.states = [], [], set()
        self.stats = dict(races=0, exports=0, delivered_old=0, delivered_new=0, refused=0, saves=0, switches=0, overlapping=0)

    def v(self, text):
        self.viol.append(Violation(self.prop, self.i, text))

    def run(self):
        self.w.setup()
        self.prj = self.plan['prj']
        for self.i, st in enumerate(self.plan['steps']):
            getattr(self, 'do_' + st['t'])(st)
            if self.viol:
                break

    def do_restart(self, st):
        self.w.programs.pop(st['prog'], None)
        self.w.keepers.pop(st['prog'], None)

    # ------------------------------------------------------------ the saving program
    def prepare(self, sv):
        """Make the saving program ready; returns (function that saves, versions, outcomes and storage operations when alone)."""
        p = self.w.program(0)
        data = K.fs.get(self.prj)
        prj = self.prj
        if sv['kind'] == 'import':
            src = prj[:-4] + sv['suffix'] + EXPORTS[sv['suffix']]
            env = self.plan['progs'].get('0', {}).get('env')
            cls, doc, out, _ = lab.reference({prj: data}, prj, sv['suffix'], env=env)
            if cls != 'ok':
                raise Skip(f'export {sv["suffix"]}: {out.brief()}')
            if 'edits' not in sv:
                if not self.fresh:
                    sv['edits'] = []
                else:
                    r = random.Random(sv['pick'])
                    sv['edits'] = docedit.edits(r, gen.Gen(h64(sv['pick'], 'g'), 'medium'), model.canon(data), sv['suffix'], 3, 0.3)
            try:
                doc = docs.edit(doc, sv['suffix'], sv['edits'])
            except docs.BadDoc as ex:
                raise Skip(str(ex))
            K.fs.put(src, doc)
            cls, new, out, tr = lab.reference(K.fs.snapshot(), src, '', env=env)
            if cls != 'ok':
                raise Skip(f'import {sv["suffix"]}: {out.brief()}')

            def save(note):
                note()
                o = lab.convert(p, src, '')
                note()
                return [o.cls()]
            return p, save, [data, new], ['ok'], [(x[1], x[2]) for x in tr]
        g = gen.Gen(h64(sv['pick'], 'g'), 'medium')
        new = [[g.text(3) for _ in range(3)] for _ in range(sv.get('times', 1))]

        def load(m):
            nv = m[NV].Novel()
            f = m[YW].Yw7File(prj)
            f.novel = nv
            f.read()
            return f

        def change(f, k):
            scs = sorted(f.novel.scenes)
            for j, t in enumerate(new[k]):
                f.novel.scenes[scs[(j + k) % len(scs)]].sceneContent = f'{k} {t}'
            f.novel.title = f'Version {k} {new[k][0][:20]}'
        # alone
        vs, res = [data], []
        with lab.Isolated({k: x for k, x in K.fs.snapshot().items() if not k.startswith(TMP)}):
            q = lab.start(env=self.plan['progs'].get('0', {}).get('env'))
            ok, f = lab.call(q, load, gcnow=False)
            if ok != 'ok':
                raise Skip(f'load: {f}')
            K.trace = []
            for k in range(len(new)):
                res.append(lab.call(q, lambda m: (change(f, k), f.write()) and None, gcnow=False)[0])
                vs.append(K.fs.get(prj))
            tr = [(x[2], x[3]) for x in K.trace]
            f = None
            lab.collect(q)
        ok, held = lab.call(p, load, gcnow=False)
        if ok != 'ok':
            raise Skip(f'load: {held}')
        held = [held]

        def save(note):
            out = []
            f = held.pop()
            for k in range(len(new)):
                note()
                out.append(lab.call(p, lambda m: (change(f, k), f.write()) and None, gcnow=False)[0])
                note()
            return out
        return p, save, vs, res, tr

    # ------------------------------------------------------------
    def segments(self, st, straces, etraces):
        """Who runs how long: a list of [slot, number of storage operations] (slot 0 saves, the others export)."""
        r = random.Random(st['pick'])
        n = len(etraces)
        wr = [i for i, (name, path) in enumerate(straces) if path == self.prj and name in MUTATING]
        first = wr[0] if wr else 0
        k = r.random()
        seg = []
        if k < 0.2:
            mean = r.choice([1, 2, 5, 20])
            for _ in range(400):
                seg.append([r.randrange(n + 1), 1 + int(r.expovariate(1 / mean))])
            return seg
        # bring the saving program to (about) a chosen operation of its saving, an exporting one to (about) its reading
        seg.append([0, max(0, r.choice([first, first, r.choice(wr or [0]), len(straces) - 3]) + r.randint(-3, 3))])
        for s in r.sample(range(1, n + 1), n):
            tr = etraces[s - 1]
            op = [i for i, (name, path) in enumerate(tr) if path == self.prj]
            seg.append([s, max(0, (r.choice(op) if op else 0) + r.randint(-1, 3)) if r.random() < 0.8 else r.randrange(len(tr) + 1)])
        mean = r.choice([1, 1, 2, 4, 12])
        for _ in range(r.choice([10, 40, 120])):
            seg.append([r.randrange(n + 1), 1 + int(r.expovariate(1 / mean))])
        return seg

    def do_race(self, st):
        prj = self.prj
        data = K.fs.get(prj)
        if data is None or not model.loadable(data):
            return
        K.disk.clear()
        K.sticky.clear()
        p, save, versions, alone, straces = self.prepare(st['saver'])
        if any(a != 'ok' for a in alone) or None in versions:
            raise Skip('the saving does not work alone')
        exps = []
        for k, e in enumerate(st['ex']):
            tgt = prj[:-4] + e['suffix'] + EXPORTS[e['suffix']]
            if st.get('old'):
                K.fs.put(tgt, b'an older document')
            q = self.w.program(k + 1)
            exps.append([q, e, tgt, [], k + 1])
        refs = {}

        def ref(k, suffix, prog):
            env = self.plan['progs'].get(str(prog), {}).get('env')
            key = k, suffix, prog
            if key not in refs:
                refs[key] = lab.reference({prj: versions[k]}, prj, suffix, env=env)
            return refs[key]
        if 'sched' not in st and self.fresh:
            ets = [[(x[1], x[2]) for x in lab.reference({prj: data}, prj, e['suffix'], env=self.plan['progs'].get(str(k + 1), {}).get('env'))[3]] for k, e in enumerate(st['ex'])]
            st['sched'] = self.segments(st, straces, ets)
            if st.get('trouble'):
                r = random.Random(st['pick'] + 1)
                who = 0 if st['trouble'] == 'saver' else r.randint(1, len(exps))
                tr = straces if who == 0 else ets[who - 1]
                wr = [i for i, (name, path) in enumerate(tr) if path.startswith(prj) and name in MUTATING] or [0]
                at = r.choice(wr) if who == 0 else r.randrange(len(tr) + 1)
                st['faults'] = [dict(who=who, at=at, kind=r.choice(KINDS), frac=round(r.random(), 3))]
        if st.get('short') is not None:
            # data reach the file, or are read from it, in several pieces
            r = random.Random(st['short'])
            p.faults = {p.nops + i: dict(at=i, kind='short', frac=round(r.random(), 3), only='write') for i in range(len(straces) + 30) if r.random() < 0.8}
            for x in exps:
                x[0].faults = {x[0].nops + i: dict(at=i, kind='short', frac=round(r.random(), 3), only='read') for i in range(12) if r.random() < 0.4}
        for f in st.get('faults') or ():
            q = p if f['who'] == 0 else exps[(f['who'] - 1) % len(exps)][0]
            q.faults[q.nops + f['at']] = f
        troubled = {0 if f['who'] == 0 else (f['who'] - 1) % len(exps) + 1 for f in st.get('faults') or ()}
        seg = [list(x) for x in st.get('sched') or []]
        procs = [p] + [e[0] for e in exps]
        slot = {q.pid: i for i, q in enumerate(procs)}

        def choose(alive, cur):
            while seg:
                s, n = seg[0]
                if n <= 0 or s >= len(procs) or procs[s].pid not in alive:
                    seg.pop(0)
                    continue
                seg[0][1] -= 1
                return procs[s].pid
            return min(alive, key=lambda x: -slot[x])
        sch = Scheduler(K, choose)
        begun, ended = [0], [0]

        def note():
            if begun[0] == ended[0]:
                begun[0] += 1
            else:
                ended[0] += 1

        def saver():
            return save(note)

        def exporter(rec):
            q, e, tgt, outs, k = rec
            for _ in range(e.get('times', 1)):
                before = (K.fs.get(tgt), K.fs.get(tgt + '.bak'))
                lo = ended[0]
                keeper = self.w.keepers.get(k) if e.get('keep') else None
                keep = [] if e.get('keep') and keeper is None else None
                o = lab.convert(q, prj, e['suffix'], conv=keeper, keep=keep)
                if keep:
                    self.w.keepers[k] = keep[0]
                outs.append((o, lo, begun[0], before, (K.fs.get(tgt), K.fs.get(tgt + '.bak'))))
                if q.dead:
                    break
            return 'ok'
        trace0, K.trace = K.trace, []
        tmp0 = set(K.fs.snapshot())
        sch.spawn(p, saver)
        for rec in exps:
            sch.spawn(rec[0], lambda rec=rec: exporter(rec))
        sch.run()
        trace, K.trace = K.trace, trace0
        for q in procs:
            q.faults = {}
        self.stats['races'] += 1
        self.stats['saves'] += len(alone)
        self.stats['switches'] += sch.switches
        # ------------------------------------------------ judgement
        for q in procs:
            if isinstance(q.result, BaseException):
                raise q.result
        got = p.result
        final = K.fs.get(prj)
        kinds = []
        if 0 not in troubled:
            if got != alone:
                self.v(f'saving ({st["saver"]["kind"]}) gives {got} instead of {alone}')
            elif final != versions[-1]:
                self.v('the saved project differs from the one saved without the export')
        for q, e, tgt, outs, k in exps:
            for o, lo, hi, before, after in outs:
                self.stats['exports'] += 1
                if hi > lo:
                    self.stats['overlapping'] += 1
                if k in troubled:
                    kinds.append('troubled')
                    continue
                if o.ok:
                    if 0 in troubled:
                        lo = 0
                    fit = [n for n in range(lo, min(hi, len(versions) - 1) + 1) if ref(n, e['suffix'], k)[0] == 'ok' and lab.same_doc(ref(n, e['suffix'], k)[1], after[0])]
                    if not fit:
                        self.v(f'export {e["suffix"]!r} beside a saving program ({st["saver"]["kind"]}) reports success, but the document is not that of version {lo}..{hi} of the project')
                        return
                    self.stats['delivered_old' if fit[0] == 0 else 'delivered_new'] += 1
                    kinds.append('v%d' % min(fit[0], 2))
                elif o.failed:
                    self.stats['refused'] += 1
                    kinds.append('refused')
                    if before != after:
                        self.v(f'export {e["suffix"]!r} reports {o.final[0]!r}, but changed the document or its backup')
                        return
                else:
                    self.v(f'export {e["suffix"]!r} beside a saving program ends with {o.brief()[:200]}')
                    return
            if q.result == 'crash' and k not in troubled:
                self.v('an exporting program crashed')
        # temporary data
        owner = {}
        for pid, i, name, path, size, src in trace:
            if path.startswith(TMP):
                top = path[len(TMP):].split('/')[0]
                if name in ('mkdir', 'open_w') and top not in owner:
                    owner[top] = pid
                elif name in MUTATING and owner.get(top, pid) != pid:
                    self.v(f'program {slot.get(pid)} touches the temporary data of program {slot.get(owner[top])}: {name} {path}')
                    return
        if not troubled:
            left = [x for x in K.fs.snapshot() if x.startswith(TMP) and x not in tmp0]
            if left:
                self.v(f'temporary data is left: {left[:3]}')
        self.brief.append(f'{self.i}: {st["saver"]["kind"]} {got} exports {[(e[1]["suffix"], [x[0].brief()[:60] for x in e[3]]) for e in exps]} {sch.switches} switches {kinds}')
        self.states.add(h64(tuple(sch.order[:4000]), tuple(kinds)))


def execute(prop, plan, fresh, res):
    h = Race(prop, plan, fresh)
    res.brief = h.brief
    try:
        h.run()
    finally:
        res.stats, res.states, res.viol = h.stats, h.states, h.viol
