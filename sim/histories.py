"""Histories of exports, document edits, yWriter edits and imports (C14, C15), judged against an independent model."""
import copy
import os
import random

from . import docedit, docs, gen, lab, model, world, worldgen, ywstub
from .kernel import K, h64
from .world import EXPORTS, IMPORTS, Violation, Skip
from .worldgen import Builder

RATINGS = ('Field1', 'Field2', 'Field3', 'Field4')


def markup(t):
    """Markup may or may not be closed and opened again at the end of a line: the same text with markup per line."""
    if '[' not in t:
        return t
    return '\n'.join(docedit.per_line(t.split('\n'), True))


def norm(c):
    c = copy.deepcopy(c)
    for s in c['scenes'].values():
        for f in RATINGS:
            s.setdefault(f, '1')
        for f in ('SceneContent', 'Desc', 'Notes', 'Goal', 'Conflict', 'Outcome', 'Title'):
            if f in s:
                s[f] = markup(s[f].rstrip())
                if not s[f]:
                    del s[f]
    for i, s in c['chapters']:
        for f in ('Desc', 'Title'):
            if f in s:
                s[f] = s[f].rstrip()
                if not s[f]:
                    del s[f]
    for k in ('characters', 'locations', 'items'):
        for i, s in c[k]:
            for f in ('Desc', 'Bio', 'Goals', 'Notes', 'Title', 'AKA', 'FullName'):
                if f in s:
                    s[f] = s[f].rstrip()
                    if not s[f]:
                        del s[f]
    return c


def plan(seed, tier, prop):
    b = Builder(seed)
    r = b.r
    mk = r.random() < 0.3
    t = b.tree(markup=mk, foreign=0)
    b.place()
    while b.base.endswith(tuple(IMPORTS)):
        b.place()
    b.add_project(t)
    b.plan['prj'] = b.prj
    b.plan['markup'] = mk
    sufs = [b.suffix(True) for _ in range(r.choice([1, 1, 2, 3]))]
    n = r.choice([1, 1, 2, 2, 3, 4, 6] if tier == 'quick' else [1, 2, 3, 4, 6, 9, 14])
    steps = b.plan['steps']
    for k in range(n):
        s = r.choice(sufs)
        prog = r.choice([0, 0, 0, 1, 2])
        steps.append(dict(t='export', suffix=s, prog=prog))
        if prop == 'C14' or r.random() < 0.2:
            if r.random() < 0.6:
                steps.append(dict(t='ywedit', pick=r.randrange(1 << 30), n=r.randint(1, 4)))
        if r.random() < 0.8:
            steps.append(dict(t='docedit', suffix=s, pick=r.randrange(1 << 30), n=r.randint(1, 4), lo=0.35))
        if r.random() < 0.3:
            s2 = r.choice(sufs)
            steps.append(dict(t='export', suffix=s2, prog=prog))
        if prop == 'C14' and r.random() < 0.4:
            steps.append(dict(t='ywedit', pick=r.randrange(1 << 30), n=r.randint(1, 3)))
        if r.random() < 0.15:
            steps.append(dict(t='restart', prog=prog))
        st = dict(t='import', suffix=s, prog=prog)
        if r.random() < 0.15:
            st['short'] = r.randrange(1 << 30)
        if r.random() < 0.1:
            st['keep'] = True
        steps.append(st)
        if r.random() < 0.15:
            steps.append(dict(t='import', suffix=s, prog=prog))
        if r.random() < 0.1 and len(sufs) > 1:
            steps.append(dict(t='import', suffix=r.choice(sufs), prog=prog))
    return b.plan


class History:
    def __init__(self, prop, plan, fresh):
        self.prop, self.plan, self.fresh = prop, plan, fresh
        self.w = world.World(plan)
        self.viol = []
        self.brief = []
        self.stats = dict(exports=0, imports=0, docedits=0, ywedits=0, refused=0, edit_ops=0)
        self.states = set()
        self.slots = {}  # suffix -> (canon at export, ops)

    def v(self, prop, text):
        if prop == self.prop:
            self.viol.append(Violation(prop, self.i, text))

    def run(self):
        self.w.setup()
        prj = self.prj = self.plan['prj']
        for self.i, st in enumerate(self.plan['steps']):
            getattr(self, 'do_' + st['t'])(st)
            if self.viol:
                break
        return self

    def canon(self):
        try:
            return model.canon(K.fs.get(self.prj))
        except ywstub.BadProject as ex:
            raise Skip(f'project broken: {ex}')

    def path(self, suffix):
        return self.prj[:-4] + suffix + EXPORTS[suffix]

    def convert(self, st, src, suffix):
        p = self.w.program(st.get('prog', 0))
        if st.get('short') is not None:
            # benign disturbance: partial reads and writes
            r = random.Random(st['short'])
            p.faults = {p.nops + i: dict(at=i, kind='short', frac=round(r.random(), 3)) for i in range(200) if r.random() < 0.3}
        keeper = None
        keep = None
        if st.get('keep'):
            keeper = self.w.keepers.get(st.get('prog', 0))
            keep = [] if keeper is None else None
        out = lab.convert(p, src, suffix, conv=keeper, keep=keep)
        if keep:
            self.w.keepers[st.get('prog', 0)] = keep[0]
        p.faults = {}
        self.brief.append(f'{self.i}: {st["t"]} {st["suffix"]} -> {out.brief()[:140]}')
        return out

    def do_restart(self, st):
        self.w.programs.pop(st['prog'], None)
        self.w.keepers.pop(st['prog'], None)

    def do_export(self, st):
        s = st['suffix']
        c = self.canon()
        out = self.convert(st, self.prj, s)
        self.stats['exports'] += 1
        if not out.ok:
            self.v('C15', f'export as {s} failed: {out.brief()[:200]}')
            self.slots.pop(s, None)
            return
        self.slots[s] = [c, []]

    def do_docedit(self, st):
        s = st['suffix']
        slot = self.slots.get(s)
        if slot is None or slot[1]:
            return
        if 'ops' not in st:
            if not self.fresh:
                return
            r = random.Random(st['pick'])
            g = gen.Gen(h64(st['pick'], 'g'), 'medium')
            st['ops'] = docedit.edits(r, g, slot[0], s, st['n'], st['lo'], markup=self.plan.get('markup', False))
        data = K.fs.get(self.path(s))
        try:
            K.fs.put(self.path(s), docs.edit(data, s, st['ops']))
        except docs.BadDoc as ex:
            self.v('C15', f'the exported document {s} cannot be edited: {ex}')
            return
        slot[1] = st['ops']
        self.stats['docedits'] += 1
        self.stats['edit_ops'] += len(st['ops'])
        self.brief.append(f'{self.i}: docedit {s} {str(st["ops"])[:150]}')

    def do_ywedit(self, st):
        data = K.fs.get(self.prj)
        if 'ops' not in st:
            if not self.fresh:
                return
            g = gen.Gen(h64(st['pick'], 'y'), 'medium')
            tree = ywstub.parse(data)
            st['ops'] = [op for op in copy.deepcopy(g.edits(tree, st['n'])) if op[0] not in ('del',)]
            # elements a document carries are not deleted, rows of lists not added (documents create or remove them again, by design)
            lists = {docedit.LIST[s].upper() for s in self.slots if s in docedit.LIST and s.endswith('list')}
            st['ops'] = [op for op in st['ops'] if not (op[0] == 'add' and op[1] in lists)]
        try:
            K.fs.put(self.prj, ywstub.edit_bytes(data, st['ops']))
        except ywstub.BadProject as ex:
            raise Skip(str(ex))
        self.stats['ywedits'] += 1
        self.brief.append(f'{self.i}: ywedit {str(st["ops"])[:150]}')

    def do_import(self, st):
        s = st['suffix']
        if s not in self.slots:
            return
        doc_canon, ops = self.slots[s]
        before = self.canon()
        try:
            for k in docedit.carried(doc_canon, s):
                if s in docedit.FIELDS:
                    docedit.get_text(before, k, s)
                elif s == '_scenelist':
                    before['scenes'][k.split(':')[1]]
        except KeyError:
            return  # the document would create an element again that has been deleted meanwhile: by design
        out = self.convert(st, self.path(s), '')
        self.stats['imports'] += 1
        self.states.add(h64(s, tuple(sorted({o[0] for o in ops})), len(self.slots), out.cls()))
        if not out.ok:
            self.v('C15', f'import of {s} failed: {out.brief()[:200]} after {str(ops)[:200]}')
            self.stats['refused'] += 1
            return
        try:
            after = model.canon(K.fs.get(self.prj))
        except ywstub.BadProject as ex:
            self.v('C15', f'import of {s} makes the project unreadable: {ex}')
            self.v('C14', f'import of {s} makes the project unreadable: {ex}')
            return
        exp = norm(docedit.expected(doc_canon, before, s, ops))
        aft = norm(after)
        keys = docedit.carried(doc_canon, s)
        if s in ('_charlist', '_loclist', '_itemlist'):
            keys = [k for k in keys if k in {i for i, d in exp[docedit.LIST[s]]}]
        ge, re_ = docedit.mask(exp, s, keys)
        ga, ra = docedit.mask(aft, s, keys)
        d = model.diff(ge, ga)
        if d:
            self.v('C15', f'import of {s}: what the document contains is not what the project contains: {d}')
        la, lb = re_.pop('lang'), ra.pop('lang')
        ga_, gb_ = re_.pop('langs'), ra.pop('langs')
        if model.plausible(la) and la != lb:
            self.v('C14', f'import of {s} changed the language: {la} -> {lb}')
        if not set(ga_) <= set(gb_) and s not in ('_manuscript', '_proof', '_notes', '_todo'):
            self.v('C14', f'import of {s} changed the languages: {ga_} -> {gb_}')
        d = model.diff(re_, ra)
        if d:
            self.v('C14', f'import of {s} changed what it does not carry: {d}')


def execute(prop, plan, fresh, res):
    h = History(prop, plan, fresh)
    res.brief = h.brief
    try:
        h.run()
    finally:
        res.stats, res.states, res.viol = h.stats, h.states, h.viol
