"""The simulated world: executes a plan (projects, documents, programs, steps, faults, acts of other programs)
against the real code and judges every step against the independent rules of the properties C01-C13, C18.

A plan is plain JSON and contains every decision; executing it twice gives the same execution.
"""
import os
import random

from . import kernel, lab, ywstub, model, docs
from .kernel import K, FS, MUTATING, h64

EXPORTS = {'': '.odt', '_proof': '.odt', '_manuscript': '.odt', '_brf_synopsis': '.odt', '_scenes': '.odt', '_chapters': '.odt', '_parts': '.odt', '_characters': '.odt',
           '_items': '.odt', '_locations': '.odt', '_charlist': '.ods', '_loclist': '.ods', '_itemlist': '.ods', '_scenelist': '.ods', '_xref': '.odt', '_notes': '.odt', '_todo': '.odt'}
IMPORTS = {s: e for s, e in EXPORTS.items() if s not in ('', '_brf_synopsis', '_xref')}
LOCK = '.lock'
TMP = '/sim/tmp/'


def rule(src, suffix, exists):
    """Independent statement of what a conversion of this source is: (kind, target path or None)."""
    base, ext = os.path.splitext(src)
    if ext == '.yw7':
        if suffix in EXPORTS:
            return 'export', base + suffix + EXPORTS[suffix]
        return 'unsupported', None
    for s, e in sorted(IMPORTS.items()):
        if src.endswith(s + e):
            t = src[:-len(s + e)] + '.yw7'
            return ('import', t) if exists(t) else ('noproject', t)
    if ext == '.odt':
        if src.endswith(('_xref.odt', '_brf_synopsis.odt')):
            return 'unsupported', None
        return 'create', base + '.yw7'
    return 'unsupported', None


def lockfile(prj):
    return prj + LOCK


class Violation:
    def __init__(self, prop, step, text):
        self.prop, self.step, self.text = prop, step, text

    def __repr__(self):
        return f'{self.prop} step {self.step}: {self.text}'


class Skip(Exception):
    """The plan does not make sense on this tree (e.g. a document could not be prepared)."""


def render_spec(plan, spec):
    """bytes of a file given by its description in the plan"""
    if spec is None:
        return None
    if 'tree' in spec:
        data = ywstub.render(plan['trees'][spec['tree']], spec.get('style') or plan['styles'][spec['tree']])
        if spec.get('ops'):
            data = ywstub.edit_bytes(data, spec['ops'], spec.get('style') or plan['styles'][spec['tree']])
        return data
    if 'doc' in spec:
        return make_doc(plan, spec)
    if 'text' in spec:
        return spec['text'].encode('utf-8')
    if 'b64' in spec:
        import base64
        return base64.b64decode(spec['b64'])
    if 'odt' in spec:
        return docs.build_odt(spec['odt'])
    if 'damage' in spec:
        return docs.damage(render_spec(plan, spec['of']), spec['damage'])
    raise ValueError(spec)


def make_doc(plan, spec):
    """A document as exported fault-free from project tree number spec['doc'] by a fresh program, then edited."""
    prj = render_spec(plan, dict(tree=spec['doc'], ops=spec.get('ops')))
    cls, data, out, _ = lab.reference({'/sim/home/n.yw7': prj}, '/sim/home/n.yw7', spec['suffix'], env=spec.get('env'))
    if cls != 'ok' or data is None:
        raise Skip(f'export {spec["suffix"]}: {out.brief()}')
    if spec.get('edits'):
        try:
            data = docs.edit(data, spec['suffix'], spec['edits'])
        except docs.BadDoc as ex:
            raise Skip(f'exported document: {ex}')
    return data


class World:
    def __init__(self, plan, want=(), decide=None):
        self.plan = plan
        self.want = set(want)
        self.decide = decide  # callable(world, step index, step) that completes the step (faults, events)
        self.viol = []
        self.stats = dict(convs=0, ok=0, fail=0, crash=0, exc=0, asked=0, faults=0, ops=0)
        self.programs = {}
        self.keepers = {}
        self.lineage = {}  # project path -> list of acceptable contents
        self.states = set()
        self.brief = []
        self.ideal = None  # the files as they would be had the trouble never happened (C13)

    # ------------------------------------------------------------ setup
    def setup(self):
        plan = self.plan
        K.reset(plan.get('seed', 0), plan.get('epoch', 1_700_000_000.0))
        for d in plan.get('dirs', ()):
            K.fs.mkdirs(d)
        for path, spec in sorted(plan['files'].items()):
            K.fs.put(path, render_spec(plan, spec))

    def program(self, k):
        p = self.programs.get(k)
        if p is None or p.dead:
            pr = self.plan.get('progs', {}).get(str(k), {})
            p = lab.start(pr.get('cwd', '/sim/home'), pr.get('env'))
            self.programs[k] = p
            self.keepers.pop(k, None)
        return p

    def v(self, prop, text):
        self.viol.append(Violation(prop, self.i, text))

    # ------------------------------------------------------------ acts of the surroundings
    def act(self, a, shadow=None):
        """Something another program, the user or the machine does.  Also applied to the shadow copy."""
        k = a['a']
        fs = K.fs
        cur, K.current = K.current, None
        try:
            if k == 'put':
                self._put(a['path'], render_spec(self.plan, a['data']), shadow)
            elif k == 'del':
                fs.delete(a['path'])
                if shadow is not None:
                    shadow.pop(a['path'], None)
                self.lineage.pop(a['path'], None)
            elif k == 'mv':
                if fs.isfile(a['from']):
                    d = fs.get(a['from'])
                    fs.delete(a['from'])
                    if shadow is not None:
                        shadow.pop(a['from'], None)
                    self._put(a['to'], d, shadow)
            elif k == 'cp':
                if fs.isfile(a['from']):
                    self._put(a['to'], fs.get(a['from']), shadow)
            elif k == 'lock':
                self._put(lockfile(a['path']), b'', shadow)
            elif k == 'unlock':
                fs.delete(lockfile(a['path']))
                if shadow is not None:
                    shadow.pop(lockfile(a['path']), None)
            elif k == 'edit':  # yWriter saves its version of the project
                if fs.isfile(a['path']):
                    d = fs.get(a['path'])
                    try:
                        self._put(a['path'], ywstub.edit_bytes(d, a['ops'], a.get('style')), shadow)
                    except ywstub.BadProject:
                        pass
            elif k == 'discard':  # the user deletes a torn new project
                if fs.isfile(a['path']) and (not model.loadable(fs.get(a['path'])) or self.ideal is not None and a['path'] not in self.ideal):
                    fs.delete(a['path'])
                    self.lineage.pop(a['path'], None)
            elif k == 'recover':  # the user restores the last good version of a project by hand
                prj = a['path']
                if not (fs.isfile(prj) and model.loadable(fs.get(prj))):
                    bak = prj + '.bak'
                    if fs.isfile(bak) and model.loadable(fs.get(bak)):
                        d = fs.get(bak)
                        fs.delete(bak)
                        if shadow is not None:
                            shadow.pop(bak, None)
                        self._put(prj, d, shadow)
                    elif fs.isfile(prj):
                        fs.delete(prj)
                        if shadow is not None:
                            shadow.pop(prj, None)
                        self.lineage.pop(prj, None)
            elif k == 'heal':
                K.disk.clear()
                K.sticky.clear()
            elif k == 'clock':
                K.now += a['dt']
            elif k == 'disk':
                K.disk[a.get('vol', '/sim')] = a['left']
            else:
                raise ValueError(k)
        finally:
            K.current = cur

    def _put(self, path, data, shadow):
        K.fs.put(path, data)
        if shadow is not None:
            shadow[path] = data
        if path.endswith('.yw7'):
            self.lineage[path] = [data]

    # ------------------------------------------------------------ run
    def run(self):
        self.setup()
        steps = self.plan['steps']
        self.i = -1
        for self.i, st in enumerate(steps):
            if self.decide is not None:
                self.decide(self, self.i, st)
            t = st['t']
            if t == 'act':
                self.act(st['act'], None if self.ideal is None or st['act']['a'] in ('recover', 'discard') else self.ideal)
            elif t == 'restart':
                p = self.programs.pop(st['prog'], None)
                self.keepers.pop(st['prog'], None)
            elif t == 'conv':
                self.conv(st)
            else:
                raise ValueError(t)
        self.i = len(steps)
        if 'C11' in self.want:
            self.finish_c11()
        if K.harness_errors:
            raise RuntimeError(f'harness: {K.harness_errors[:3]}')
        return self

    def finish_c11(self):
        pass

    # ------------------------------------------------------------ one conversion
    def conv(self, st):
        p = self.program(st.get('prog', 0))
        src, suffix = st['src'], st.get('suffix', '')
        asrc = src if src.startswith('/') else os.path.normpath(os.path.join(p.cwd, src))
        S0 = K.fs.snapshot()
        shadow = dict(S0)
        kind, target = rule(asrc, suffix, lambda x: S0.get(x) is not None)
        base = p.nops
        p.faults = {base + f['at']: f for f in st.get('faults', ())}
        p.events = {}
        timeline = []
        for e in st.get('events', ()):
            p.events.setdefault(base + e['at'], []).append(lambda e=e: (timeline.append((K.totalops, e)), self.act(e['act'], shadow)))
        asks = []

        def answer(q):
            asks.append((q, K.fs.snapshot()))
            for a in st.get('askacts', ()):
                self.act(a, shadow)
            asks[-1] += (dict(shadow),)
            a = st.get('ans', 'yes')
            if a == 'yes':
                return True
            if a == 'no':
                return False
            if a == 'eof':
                raise EOFError('EOF when reading a line')
            if a == 'intr':
                raise KeyboardInterrupt()
            raise RuntimeError('the dialog failed')

        K.trace = []
        fired0 = len(K.fired_at)
        cwd0, fds0 = p.cwd, set(K.fds)
        conv = None
        keep = None
        if st.get('keep'):
            conv = self.keepers.get(st.get('prog', 0), {}).get(st.get('cls'))
            if conv is None:
                keep = []
        out = lab.convert(p, src, suffix, ui=st.get('ui', 'silent'), answer=answer, cls=st.get('cls', 'Yw7Converter'), conv=conv, keep=keep)
        if keep:
            self.keepers.setdefault(st.get('prog', 0), {})[st.get('cls')] = keep[0]
        conv = keep = None
        trace, K.trace = K.trace, None
        fired = K.fired_at[fired0:]
        p.faults, p.events = {}, {}
        S1 = K.fs.snapshot()
        r = Rec()
        r.__dict__.update(step=st, p=p, src=asrc, suffix=suffix, kind=kind, target=target, S0=S0, S1=S1, shadow=shadow, out=out, asks=asks, trace=trace, fired=fired,
                          base=base, cwd0=cwd0, fds0=fds0, acted=bool(timeline or (asks and st.get('askacts'))), timeline=timeline, env=p.env)
        r.fault_idx = {i - base for (pid, i, *_x) in fired if pid == p.pid}
        s = self.stats
        s['convs'] += 1
        s[out.cls() if out.cls() in s else 'exc'] = s.get(out.cls() if out.cls() in s else 'exc', 0) + 1
        s['asked'] += len(asks)
        s['faults'] += len(fired)
        s['ops'] += len(trace)
        self.states.add(h64(kind, suffix, out.cls(), tuple((f[2], f[3], f[4]) for f in fired), st.get('ans', 'yes'), bool(asks), S1.get(target) == S0.get(target) if target else None))
        self.brief.append(f'{self.i}: {kind} {os.path.basename(asrc)} {suffix} -> {out.brief()[:160]} faults={[(f[2], f[3], f[4]) for f in fired]}')
        self.last = r
        self.judge(r)
        if out.crashed:
            self.programs.pop(st.get('prog', 0), None)
            self.keepers.pop(st.get('prog', 0), None)

    # ------------------------------------------------------------ oracles
    def ref(self, r, snap=None):
        """What a fresh program makes of these files without faults: (class, bytes)."""
        if snap is None:
            snap = r.shadow_at_answer()
        cls, data, out, _ = lab.reference(snap, r.src, r.suffix, env={k: r.env[k] for k in ('locale',)}, cls=r.step.get('cls', 'Yw7Converter'))
        return cls, data

    def equal(self, target, a, b):
        return a == b if target.endswith('.yw7') else lab.same_doc(a, b)

    def judge(self, r):
        want = self.want
        for prop in ('C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C11', 'C12', 'C13', 'C18'):
            if prop in want:
                getattr(self, 'judge_' + prop)(r)

    # --- C10
    def judge_C10(self, r):
        allowed = {r.target, (r.target or '') + '.bak'} if r.target else set()
        if r.kind in ('noproject', 'unsupported'):
            allowed = set()
        for path in sorted(set(r.shadow) | set(r.S1)):
            if path in allowed or path.startswith(TMP):
                continue
            a, b = r.shadow.get(path, 'absent'), r.S1.get(path, 'absent')
            if a != b:
                what = 'created' if a == 'absent' else 'removed' if b == 'absent' else 'changed'
                self.v('C10', f'{r.desc()} {what} "{path}" (target is "{r.target}")')
                return
        if K.outside:
            self.v('C10', f'{r.desc()} attempted to change something outside: {K.outside[0]}')
            K.outside.clear()

    # --- C11
    def judge_C11(self, r):
        if r.out.crashed:
            return
        # faults that hit the removal of the temp data or the return to the working directory are excepted
        for i in r.fault_idx:
            if i < len(r.trace):
                name, path = r.trace[i][2], r.trace[i][3]
                if name in ('stat', 'unlink', 'rmdir', 'scandir') and path.startswith('/sim/tmp'):
                    return
                if name == 'chdir':
                    return
        if r.step.get('keep'):
            return
        kinds = {f[2] for f in r.fired}
        if any(k.startswith('sticky') for k in kinds) and any(path.startswith(TMP) for path, _ in K.sticky):
            return
        left = sorted(x for x in r.S1 if x.startswith(TMP) and x not in r.S0)
        if left:
            self.v('C11', f'{r.desc()} left temporary data: {left[:3]} ({len(left)} entries)')
        if r.p.cwd != r.cwd0:
            self.v('C11', f'{r.desc()} left the program in directory {r.p.cwd} instead of {r.cwd0}')
        op = [K.fds[fd].path for fd in K.fds if fd not in r.fds0 and K.fds[fd].proc is r.p]
        if op:
            self.v('C11', f'{r.desc()} left open: {op[:3]}')

    # --- C04
    def judge_C04(self, r):
        o = r.out
        if o.crashed:
            return
        intr = any(f[2] == 'intr' for f in r.fired) or (r.asks and r.step.get('ans') == 'intr')
        if o.exc is not None and not (intr and o.exc.startswith('KeyboardInterrupt')):
            if o.exc.startswith('MemoryError') and any(f[2] == 'nomem' for f in r.fired) and not any(not m.startswith('!') for m in o.final):
                return  # not a storage error
            self.v('C04', f'{r.desc()} did not return to its caller: {o.exc}')
            return
        if len(o.final) != 1 and not (o.exc is not None and not o.final):
            self.v('C04', f'{r.desc()} made {len(o.final)} final reports: {o.final}')
            return
        if o.shown is not None:
            if not o.shown[0]:
                self.v('C04', f'{r.desc()}: the user does not see the report "{o.final[0]}" ({o.ui})')
            elif o.shown[1] != o.final[0].startswith('!'):
                self.v('C04', f'{r.desc()}: the report "{o.final[0]}" is shown {"as an error" if o.shown[1] else "without being marked as an error"} ({o.ui})')
        if o.exc is not None:
            if o.final and not o.final[0].startswith('!'):
                # interrupted after the work was done: the report has to be true
                cls, data = self.ref(r)
                if cls != 'ok' or not self.equal(r.target, r.S1.get(r.target), data):
                    self.v('C04', f'{r.desc()} interrupted, but reported "{o.final[0]}"')
            return
        if o.final[0].startswith('!'):
            if o.newFile is not None:
                self.v('C04', f'{r.desc()} reported failure "{o.final[0]}" but announces {o.newFile}')
            return
        if o.newFile is None:
            self.v('C04', f'{r.desc()} reported success "{o.final[0]}" but announces no file')
            return
        nf = o.newFile if o.newFile.startswith('/') else os.path.normpath(os.path.join(r.p.cwd, o.newFile))
        if nf != r.target:
            self.v('C04', f'{r.desc()} reported success with {nf} instead of {r.target}')
            return
        if r.S1.get(r.target) is None:
            self.v('C04', f'{r.desc()} reported success, but {r.target} does not exist')
            return
        if r.timeline:
            return  # files were changed by others in the course of the conversion
        cls, data = self.ref(r)
        if cls != 'ok':
            self.v('C04', f'{r.desc()} reported success, although it is to be refused')
        elif not self.equal(r.target, r.S1.get(r.target), data):
            self.v('C04', f'{r.desc()} reported success, but the result is not the complete one ({len(r.S1[r.target])} bytes, expected {len(data)})')

    # --- C01
    def judge_C01(self, r):
        if r.kind not in ('import', 'create'):
            return
        prj, bak = r.target, r.target + '.bak'
        old = self.lineage.get(prj)
        if old is None:
            old = [r.S0[prj]] if r.S0.get(prj) is not None and model.loadable(r.S0[prj]) else []
        if r.out.ok:
            self.lineage[prj] = [r.S1.get(prj)]
            if not (r.S1.get(prj) and model.loadable(r.S1[prj])):
                self.v('C01', f'{r.desc()} succeeded, but the project is not complete')
            return
        acc = list(old)
        # the complete new version is as good, even if the program could only report trouble after writing it
        cls, data = self.ref(r)
        if cls == 'ok' and data is not None:
            acc.append(data)
        if acc and old:
            have = [x for x in (r.S1.get(prj), r.S1.get(bak)) if x is not None]
            if not any(h in acc for h in have):
                st = ['torn' if not model.loadable(h) else 'some other version' for h in have]
                self.v('C01', f'{r.desc()}: neither the version before nor the new one exists afterwards (there is: {st})')
        # the version that has to survive from now on
        self.lineage[prj] = [x for x in (r.S1.get(prj), r.S1.get(bak)) if x is not None and x in acc][:1] or (acc if old else [])

    # --- C02 / C03
    def _rollback_blocked(self, r):
        bak, tgt = r.target + '.bak', r.target
        seized = {sp for sp, _ in K.sticky}
        for pid, i, name, path, size, src in r.trace:
            if name in ('rename', 'chdir'):
                hit = (i - r.base) in r.fault_idx
                if name == 'chdir' and hit:
                    return True
                if name == 'rename' and src == bak and path == tgt and (hit or tgt in seized or bak in seized):
                    return True
        return False

    def _removal_blocked(self, r):
        seized = {sp for sp, _ in K.sticky}
        for pid, i, name, path, size, src in r.trace:
            if (name == 'unlink' and path == r.target or name == 'chdir') and ((i - r.base) in r.fault_idx or path in seized):
                return True
        return False

    def judge_C02(self, r, prop='C02', kinds=('import', 'create')):
        if r.kind not in kinds or r.out.crashed or r.out.ok or r.timeline or (r.asks and r.step.get('askacts')):
            return
        if r.out.exc and self.want_done(r):
            return
        old = r.S0.get(r.target)
        now = r.S1.get(r.target)
        if old is not None:
            if now == old:
                return
            if self._rollback_blocked(r) and r.S1.get(r.target + '.bak') == old:
                return
            self.v(prop, f'{r.desc()} failed and the previous version is not in place: target {self.about(now, old)}, .bak {self.about(r.S1.get(r.target + ".bak"), old)}')
        elif now is not None:
            if self._removal_blocked(r):
                return
            self.v(prop, f'{r.desc()} failed and left a new file of {len(now)} bytes at {r.target}')

    def want_done(self, r):
        """An interrupt (Ctrl-C) after the save was complete is not a failed save."""
        cls, data = self.ref(r)
        return cls == 'ok' and self.equal(r.target, r.S1.get(r.target), data)

    @staticmethod
    def about(data, old):
        return 'missing' if data is None else 'previous version' if data == old else f'{len(data)} other bytes'

    def judge_C03(self, r):
        if r.kind != 'export':
            return
        if not r.out.crashed:
            return self.judge_C02(r, 'C03', ('export',))
        if r.timeline or (r.asks and r.step.get('askacts')):
            return
        old = r.S0.get(r.target)
        if old is None:
            return
        if old in (r.S1.get(r.target), r.S1.get(r.target + '.bak')):
            return
        cls, data = self.ref(r)
        if cls == 'ok' and self.equal(r.target, r.S1.get(r.target), data):
            return
        self.v('C03', f'{r.desc()} killed: the previous document is neither in place nor in .bak, and the new one is not complete')

    # --- C05
    def judge_C05(self, r):
        if r.target is None or r.timeline:
            return
        bak = r.target + '.bak'
        at = r.shadow_at_answer()
        b0, b1, t0 = at.get(bak), r.S1.get(bak), at.get(r.target)
        if r.out.ok:
            if t0 is not None:
                if b1 != t0:
                    self.v('C05', f'{r.desc()} replaced a version of {len(t0)} bytes, but .bak is {self.about(b1, t0)}' + (' (the older backup)' if b1 == b0 and b1 is not None else ''))
            elif b1 != b0:
                self.v('C05', f'{r.desc()} replaced nothing, but changed the backup')
            return
        if b1 is None:
            if b0 is not None and not (t0 is not None and r.S1.get(r.target) == t0):
                self.v('C05', f'{r.desc()} did not succeed, and the backup is gone')
        elif b1 != b0 and b1 != t0:
            self.v('C05', f'{r.desc()} did not succeed, and the backup is neither the former backup nor the replaced version')

    # --- C06
    def judge_C06(self, r):
        prj = r.target if r.kind in ('import', 'create') else r.src if r.kind == 'export' else None
        if prj is None or r.S0.get(prj) is None or r.out.crashed:
            return
        if r.kind == 'create':
            return
        lf = lockfile(prj)
        locked = r.S0.get(lf) is not None
        late = False
        if not locked:
            # a lock that appears while the conversion is under way
            deadline = self._deadline(r, prj)
            for tot, e in r.timeline:
                if e['act']['a'] == 'lock' and e['act']['path'] == prj and e['at'] <= deadline:
                    locked = late = True
            if r.asks and any(a['a'] == 'lock' and a['path'] == prj for a in r.step.get('askacts', ())):
                locked = late = True
        if not locked:
            return
        if r.out.ok or not r.out.failed:
            self.v('C06', f'{r.desc()} was not refused although the project is locked' + (' meanwhile' if late else '') + f': {r.out.brief()[:120]}')
            return
        for path in sorted(set(r.shadow) | set(r.S1)):
            if path.startswith(TMP):
                continue
            if r.shadow.get(path, 'absent') != r.S1.get(path, 'absent'):
                self.v('C06', f'{r.desc()} was refused because of the lock, but "{path}" was changed')
                return
        if not late:
            for pid, i, name, path, size, src in r.trace:
                if path == prj and name in ('open_r', 'read', 'open_w'):
                    self.v('C06', f'{r.desc()} read the locked project')
                    return

    def _deadline(self, r, prj):
        """Relative index of the last operation before which a lock has to be respected (measured without a lock)."""
        tr = lab.reference(r.S0, r.src, r.suffix, env={k: r.env[k] for k in ('locale',)}, cls=r.step.get('cls', 'Yw7Converter'))[3]
        if r.kind == 'export':
            idx = [i - 3 for (i, name, path) in tr if path == prj and name == 'open_r'][:1]
        else:
            idx = [i for (i, name, path) in tr if path == r.src and name in ('open_r', 'read')][-1:]
        return idx[0] if idx else -1

    # --- C07
    def judge_C07(self, r):
        if r.out.crashed:
            return
        at0 = r.S0.get(r.target) if r.target else None
        if at0 is None or r.kind in ('create', 'noproject', 'unsupported'):
            if r.asks:
                self.v('C07', f'{r.desc()} asked "{r.asks[0][0]}" although nothing is to be overwritten')
            return
        if len(r.asks) > 1:
            self.v('C07', f'{r.desc()} asked {len(r.asks)} times')
            return
        if not r.asks:
            if not (r.S1.get(r.target) == r.shadow.get(r.target)) or r.out.ok:
                self.v('C07', f'{r.desc()} replaced {r.target} without asking')
            return
        q, snap = r.asks[0][0], r.asks[0][1]
        if os.path.basename(r.target) not in q:
            self.v('C07', f'{r.desc()} asked "{q}", which does not name {os.path.basename(r.target)}')
        for path in sorted(set(r.S0) | set(snap)):
            if not path.startswith(TMP) and r.S0.get(path, 'absent') != snap.get(path, 'absent'):
                self.v('C07', f'{r.desc()} had changed "{path}" before the user was asked')
                break
        if r.step.get('ans', 'yes') != 'yes':
            a = r.step['ans']
            if r.out.ok or r.out.newFile is not None or (r.out.final and not r.out.final[0].startswith('!')) or not r.out.final:
                self.v('C07', f'{r.desc()} with answer "{a}" did not report a failure: {r.out.brief()[:150]}')
            for path in sorted(set(r.shadow) | set(r.S1)):
                if not path.startswith(TMP) and r.shadow.get(path, 'absent') != r.S1.get(path, 'absent'):
                    self.v('C07', f'{r.desc()} changed "{path}" although the answer was "{a}"')
                    break

    # --- C08
    def judge_C08(self, r):
        if r.out.crashed or r.fired or r.timeline or not r.asks or not r.step.get('askacts') or r.step.get('ans', 'yes') != 'yes':
            return
        at = r.shadow_at_answer()
        cls, data = self.ref(r, at)
        if cls == 'ok':
            if not r.out.ok:
                self.v('C08', f'{r.desc()} failed after others saved during the dialog: {r.out.brief()[:150]}')
            elif not self.equal(r.target, r.S1.get(r.target), data):
                cls0, data0 = self.ref(r, r.S0)
                old = cls0 == 'ok' and self.equal(r.target, r.S1.get(r.target), data0)
                self.v('C08', f'{r.desc()} ignored what was saved during the dialog' + (' (result of the files before the dialog)' if old else ''))
            elif at.get(r.target) is not None and r.S1.get(r.target + '.bak') != at.get(r.target):
                self.v('C08', f'{r.desc()}: the version saved during the dialog is not the backup')
        elif r.out.ok:
            self.v('C08', f'{r.desc()} succeeded, although the files on disk after the dialog cannot be converted')

    # --- C09
    def judge_C09(self, r):
        if r.kind != 'create':
            return
        t = r.target
        if r.S0.get(t) is not None:
            if not r.out.crashed:
                if not r.out.failed and not (r.out.exc and r.fired):
                    self.v('C09', f'{r.desc()} was not refused although the project exists: {r.out.brief()[:120]}')
                elif r.asks:
                    self.v('C09', f'{r.desc()} asked the user instead of refusing')
            for path in sorted(set(r.shadow) | set(r.S1)):
                if not path.startswith(TMP) and r.shadow.get(path, 'absent') != r.S1.get(path, 'absent'):
                    self.v('C09', f'{r.desc()} changed "{path}" although the project exists')
                    return
            return
        tr = lab.reference(r.S0, r.src, r.suffix, env={k: r.env[k] for k in ('locale',)}, cls=r.step.get('cls', 'Yw7Converter'))[3]
        begin = ([i for (i, name, path) in tr if path == t and name in MUTATING] or [0])[0]
        for tot, e in r.timeline:
            a = e['act']
            if a['a'] == 'put' and a['path'] == t and e['at'] <= begin - 2:
                d = render_spec(self.plan, a['data'])
                if d not in (r.S1.get(t), r.S1.get(t + '.bak')):
                    self.v('C09', f'{r.desc()} destroyed the project that had appeared before operation {e["at"]}')

    # --- C12: the result depends on the files alone
    def judge_C12(self, r):
        if r.out.crashed or r.fired or r.timeline or K.disk or K.sticky or (r.asks and (r.step.get('askacts') or r.step.get('ans', 'yes') != 'yes')):
            return
        cls, data = self.ref(r, r.S0)
        if r.out.cls() != cls:
            self.v('C12', f'{r.desc()} yields {r.out.brief()[:140]}; a fresh program: {cls}')
        elif cls == 'ok' and not self.equal(r.target, r.S1.get(r.target), data):
            self.v('C12', f'{r.desc()} differs from the result of a fresh program: {docs.first_difference(r.S1.get(r.target), data)}')

    # --- C13: steps marked "again" have to give what would have been had the trouble never happened
    def judge_C13(self, r):
        st = r.step
        if st.get('mark'):
            old, now = r.S0.get(r.target) if r.target else None, r.S1.get(r.target) if r.target else None
            done = r.out.ok
            if not done and (r.out.crashed or r.out.exc) and now is not None and now != old:
                if r.target.endswith('.yw7'):
                    done = model.loadable(now)
            elif r.out.failed and now is not None and now != old and any(f[3] == 'rename' for f in r.fired):
                # written completely, reported as failed (closing), and taking it back was refused
                cls, data = self.ref(r)
                done = cls == 'ok' and self.equal(r.target, now, data)
            if done:
                self.ideal = None
            elif self.ideal is None and not (r.step.get('again') and r.out.failed):
                self.ideal = dict(r.shadow)
        if not st.get('again') or r.out.crashed or r.fired or self.ideal is None:
            return
        cls, data = self.ref(r, self.ideal)
        if cls != 'ok':
            return
        if not r.out.ok:
            self.v('C13', f'{r.desc()} still fails after the cause is gone: {r.out.brief()[:160]}')
        elif not self.equal(r.target, r.S1.get(r.target), data):
            self.v('C13', f'{r.desc()} does not yield what it would have yielded without the failure: {docs.first_difference(r.S1.get(r.target), data)}')
        self.ideal = None

    # --- C18: damaged or unreadable sources
    def judge_C18(self, r):
        if r.out.crashed:
            return
        good = r.step.get('undamaged')
        if good is None:
            return
        if r.step.get('project_damaged') and model.loadable(r.S0.get(r.target if r.kind == 'import' else r.src)):
            return
        if r.kind == 'create' and not docs.has_member(r.S0[r.src], 'meta.xml'):
            return  # documents without metadata are accepted by design
        if r.out.ok:
            snap = dict(r.S0)
            snap[r.src] = render_spec(self.plan, good)
            cls, data = self.ref(r, snap)
            if r.step.get('project_damaged'):
                self.v('C18', f'{r.desc()} succeeded on a damaged project')
            elif cls != 'ok' or not self.equal(r.target, r.S1.get(r.target), data):
                self.v('C18', f'{r.desc()}: the result of a damaged source is not that of the undamaged one: {docs.first_difference(r.S1.get(r.target), data)}')
            return
        if not r.out.failed and not r.out.exc:
            self.v('C18', f'{r.desc()}: no proper error report: {r.out.brief()[:150]}')
        elif r.out.exc and not r.out.exc.startswith('KeyboardInterrupt'):
            self.v('C18', f'{r.desc()}: did not end with an error report: {r.out.exc[:150]}')
        for path in sorted(set(r.shadow) | set(r.S1)):
            if not path.startswith(TMP) and r.shadow.get(path, 'absent') != r.S1.get(path, 'absent'):
                self.v('C18', f'{r.desc()} failed because of the damaged source, but "{path}" was changed')
                return


class Rec:
    def desc(self):
        return f'{self.kind} of {os.path.basename(self.src)}{" as " + (self.suffix or "document") if self.kind == "export" else ""}'

    def shadow_at_answer(self):
        """The files as they were when the user had answered (or at the beginning, if not asked)."""
        if self.asks and len(self.asks[0]) > 2 and self.step.get('askacts'):
            return self.asks[0][2]
        return self.S0
