"""C26: data files (characters, locations, items) exported from projects: complete, current, never lost."""
import copy
import os
import random
import re
import xml.etree.ElementTree as ET

from . import exports, gen, histories, lab, model, ywstub
from .kernel import K, h64
from .world import IMPORTS, Violation, Skip
from .worldgen import Builder

DF = 'pywriter.yw.data_files'
PARTS = (('characters', 'Characters', 'CHARACTERS'), ('locations', 'Locations', 'LOCATIONS'), ('items', 'Items', 'ITEMS'))
KINDS = ['eio', 'eacces', 'enospc', 'emfile', 'ebusy', 'erofs', 'edquot', 'short', 'nomem', 'intr', 'full', 'crash', 'crash', 'crash']


def plan(seed, tier, prop):
    b = Builder(seed, level=random.Random(h64(seed, 'lv')).choice(['plain', 'medium', 'medium', 'hard']))
    r = b.r
    b.plan['prjs'] = []
    for k in range(r.choice([1, 1, 2])):
        t = b.tree()
        b.place()
        while b.base.endswith(tuple(IMPORTS)) or b.prj in b.plan['files']:
            b.place()
        b.add_project(t)
        b.decoys(r.randint(0, 4))
        b.plan['prjs'].append(b.prj)
    b.plan['dirs'] = sorted({os.path.dirname(p) for p in b.plan['prjs']} | {'/sim/work'})
    b.plan['prj'] = b.plan['prjs'][0]
    steps = b.plan['steps']
    for k in range(r.choice([1, 2, 3, 4, 6] if tier == 'quick' else [3, 6, 9, 14])):
        n = r.randrange(len(b.plan['prjs']))
        prog = r.choice([0, 0, 0, 1])
        if k and r.random() < 0.55:
            steps.append(dict(t='ywedit', prj=n, pick=r.randrange(1 << 30), n=r.randint(1, 4)))
        if r.random() < 0.1:
            steps.append(dict(t='restart', prog=prog))
        if r.random() < 0.15:
            steps.append(dict(t='export', prj=n, prog=prog, suffix=r.choice(['_characters', '_charlist', '_manuscript', '_xref'])))
        st = dict(t='data', prj=n, prog=prog)
        if r.random() < 0.5:
            st['keep'] = True
        x = r.random()
        if x < 0.5:
            st['faults'] = [dict(at=r.randrange(40), kind=r.choice(KINDS), frac=round(r.random(), 3))]
            if r.random() < 0.25:
                st['faults'].append(dict(at=st['faults'][0]['at'] + r.randint(1, 4), kind=r.choice(KINDS), frac=round(r.random(), 3)))
        elif x < 0.6:
            st['short'] = r.randrange(1 << 30)
        steps.append(st)
        if r.random() < 0.5:
            steps.append(dict(t='data', prj=n, prog=prog))
    return b.plan


def content(key, tag, data):
    """What a data file says; BadProject if it is not a complete data file."""
    if data is None:
        raise ywstub.BadProject('missing')
    try:
        text = data.decode('utf-8')
    except UnicodeError as ex:
        raise ywstub.BadProject(f'cannot decode: {ex}') from None
    m = re.match(r'\ufeff?<\?xml[^>]*\?>\s*', text)
    if not m:
        raise ywstub.BadProject('XML header missing')
    body = text[m.end():]
    try:
        root = ET.fromstring(ywstub.CONTROL.sub('', body))
    except ET.ParseError as ex:
        raise ywstub.BadProject(f'not well-formed: {ex}') from None
    if root.tag != tag:
        raise ywstub.BadProject(f'root element {root.tag}')
    whole = '<YWRITER7><PROJECT></PROJECT>' + ''.join(f'<{t}></{t}>' for k, n, t in PARTS if t != tag) + body + '<SCENES></SCENES><CHAPTERS></CHAPTERS></YWRITER7>'
    return tidy(model.canon(whole.encode('utf-8'))[key])


def tidy(elements):
    return [[i, {k: (v.rstrip() if isinstance(v, str) else v) for k, v in d.items() if not isinstance(v, str) or v.rstrip()}] for i, d in elements]


class Data(histories.History):
    def v(self, prop, text):
        self.viol.append(Violation('C26', self.i, text))

    def run(self):
        self.w.setup()
        self.stats = dict(data_exports=0, complete=0, failed=0, crashed=0, ywedits=0, exports=0, restored=0)
        self.prev = {}  # path -> the last complete version a data export has left there
        for self.i, st in enumerate(self.plan['steps']):
            if 'prj' in st:
                self.prj = self.plan['prjs'][st['prj']]
            getattr(self, 'do_' + st['t'])(st)
            if self.viol:
                break
        return self

    def do_ywedit(self, st):
        if 'ops' not in st and self.fresh:
            tree = ywstub.parse(K.fs.get(self.prj))
            g = gen.Gen(h64(st['pick'], 'y'), 'medium')
            # mostly the elements in question are edited
            st['ops'] = [op for op in copy.deepcopy(g.edits(tree, st['n'] * 4)) if op[0] != 'del' or len(op) < 3 or op[1] in ('CHARACTERS', 'LOCATIONS', 'ITEMS')]
        super().do_ywedit(st)

    def do_export(self, st):
        out = lab.convert(self.w.program(st['prog']), self.prj, st['suffix'])
        self.brief.append(f'{self.i}: export {st["suffix"]} -> {out.brief()[:140]}')
        self.stats['exports'] += 1

    def converter(self, prog, keep):
        """As src/sample/cnv_data.py does it."""
        p = self.w.program(prog)
        conv = self.w.keepers.get(prog) if keep else None
        if conv is None:
            lab.need(p, DF)

            def make(m):
                cls = m['pywriter.converter.yw7_exporter'].Yw7Exporter
                m[DF].DataFiles.SUFFIX = '_data'
                c = cls()
                c.ui = m['pywriter.ui.ui'].Ui('')
                if m[DF].DataFiles not in c.EXPORT_TARGET_CLASSES:
                    c.EXPORT_TARGET_CLASSES.append(m[DF].DataFiles)
                return c
            res, conv = lab.call(p, make)
            if res != 'ok':
                self.v('', f'no converter: {conv}')
                return p, None
            if keep:
                self.w.keepers[prog] = conv
        return p, conv

    def do_data(self, st):
        want = self.canon()
        snap = K.fs.snapshot()
        p, conv = self.converter(st['prog'], st.get('keep'))
        if conv is None:
            return
        if st.get('faults'):
            p.faults = {p.nops + f['at']: dict(f) for f in st['faults']}
        elif st.get('short') is not None:
            r = random.Random(st['short'])
            p.faults = {p.nops + i: dict(at=i, kind='short', frac=round(r.random(), 3)) for i in range(200) if r.random() < 0.3}
        n = len(K.fired_at)
        out = lab.convert(p, self.prj, '_data', conv=conv)
        conv = None
        p.faults = {}
        K.disk.clear()
        K.sticky.clear()
        fired = [f for f in K.fired_at[n:] if f[2] != 'short']
        self.stats['data_exports'] += 1
        self.brief.append(f'{self.i}: data -> {out.brief()[:140]} {[f[2:4] for f in fired]}')
        self.states.add(h64(out.cls(), tuple(sorted(f[2:] for f in fired)), tuple(len(want[k]) > 0 for k, n, t in PARTS), len(self.prev)))
        if out.crashed:
            self.w.programs.pop(st['prog'], None)
            self.w.keepers.pop(st['prog'], None)
        base = self.prj[:-4] + '_data_'
        paths = {base + n + '.xml': (k, t) for k, n, t in PARTS}
        mine = set(paths) | {x + '.bak' for x in paths}
        after = K.fs.snapshot()
        for f in sorted(set(snap) | set(after)):
            if f not in mine and not f.startswith('/sim/tmp') and snap.get(f, 0) != after.get(f, 0):
                self.v('', f'{f} was {"removed" if f not in after else "created" if f not in snap else "changed"}')
                return
        if not out.crashed and not out.ok and not out.failed and not (out.exc and any(f[2] in ('intr', 'nomem') for f in fired)):
            self.v('', f'neither a success nor a failure is reported: {out.brief()[:200]}')
            return
        if not fired and not out.ok:
            self.v('', f'the export failed without any trouble: {out.brief()[:200]}')
            return
        self.stats['complete' if out.ok else 'crashed' if out.crashed else 'failed'] += 1
        for f, (key, tag) in paths.items():
            new = tidy(want[key])
            old = self.prev.get(f)
            data = after.get(f)
            try:
                have = content(key, tag, data)
            except ywstub.BadProject as ex:
                have = None
                why = str(ex)
            else:
                why = None
            if have is not None and model.diff(new, have) is None and (data != old or out.ok):
                # the new version
                if old is not None and data != old and after.get(f + '.bak') != old:
                    self.v('', f'{f} was replaced, but the replaced version is not the backup')
                self.prev[f] = data
                continue
            if out.ok:
                self.v('', f'the export is reported as successful, but {f}: {why or model.diff(new, have)}')
                return
            if data is not None and data == old:
                continue
            if not out.crashed and len(fired) < 2:
                if old is not None:
                    self.v('', f'after a failed export {f} is not the previous version: {why or "another content"}')
                    return
                if data is not None and snap.get(f) != data:
                    self.v('', f'after a failed export there is an incomplete {f}: {why or "another content"}')
                    return
            elif old is not None and after.get(f + '.bak') != old:
                self.v('', f'the last complete version of {f} is neither there nor in the backup')
                return
            if old is not None:
                # the user takes the backup
                K.fs.put(f, old)
                K.fs.delete(f + '.bak')
                self.stats['restored'] += 1
            elif data is not None and snap.get(f) != data:
                K.fs.delete(f)


def execute(prop, plan, fresh, res):
    h = Data(prop, plan, fresh)
    res.brief = h.brief
    try:
        h.run()
    finally:
        res.stats, res.states, res.viol = h.stats, h.states, h.viol
