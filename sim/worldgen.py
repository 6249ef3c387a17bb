"""Seeded generation of worlds and plans for the conversion properties (C01-C13, C18), and the choice of fault positions."""
import copy
import os
import random

from . import gen, lab
from .kernel import K, FAULTABLE, MUTATING, h64
from .world import EXPORTS, IMPORTS, rule

DIRS = ['/sim/home', '/sim/home', '/sim/home/My Novel', '/sim/home/a_notes', '/sim/home/Bücher & Co', '/sim/home/x_manuscript/y_proof', '/sim/work/p.yw7s']
NAMES = ['n', 'n', 'novel', 'My Novel', 'a_notes', 'b_manuscript', 'c_characters', 'Tür & Tor', "it's", 'v1.2', 'x_proof_proof', 'd_', '_e', 'ABC', 'n.odt', 'p(1)', 'q%20r', '$Title', 'w_scenes_x', 'k_scenelist']
ERRS = ['eio', 'enospc', 'eacces', 'eperm', 'emfile', 'ebusy', 'erofs', 'edquot', 'etimedout', 'enoent']
ENVS = [dict(), dict(), dict(bufsize=8192), dict(bufsize=512), dict(bufsize=1024), dict(locale=('de_DE', 'UTF-8')), dict(bufsize=4096, locale=('en_GB', 'UTF-8')), dict(encoding='cp1252', locale=('de_DE', 'cp1252'))]


class Builder:
    def __init__(self, seed, level='medium', nscenes=None):
        self.r = random.Random(seed)
        self.seed = seed
        self.plan = dict(seed=seed & 0xffffffff, trees=[], styles=[], files={}, steps=[], progs={}, epoch=1_600_000_000 + self.r.randrange(200_000_000))
        self.level = level
        self.nscenes = nscenes
        self.ng = 0
        self.cur = {}

    def gen(self, **kw):
        self.ng += 1
        return gen.Gen(h64(self.seed, self.ng), kw.pop('level', self.level), **kw)

    def tree(self, nsc=None, nch=None, **kw):
        r = self.r
        if 'foreign' not in kw:
            kw['foreign'] = r.choice([0, 0, 0.1, 0.4])
        g = self.gen(**kw)
        if nsc is None:
            nsc = self.nscenes or r.choice([1, 2, 2, 3, 3, 4, 5, 9])
            if not self.nscenes and not nch and r.random() < 0.04:
                # a novel: more than ten of everything
                nsc, nch, g.size = r.randint(12, 40), r.randint(2, 14), 4
        t = g.project(nsc=nsc, nch=nch or r.randint(1, max(1, min(4, nsc))), lang=r.choice([('en', 'US'), ('de', 'DE'), ('en', 'US'), ('fr', 'FR'), None]))
        self.plan['trees'].append(t)
        self.plan['styles'].append(g.style())
        return len(self.plan['trees']) - 1

    def place(self):
        self.dir = self.r.choice(DIRS)
        self.base = self.r.choice(NAMES)
        self.path = f'{self.dir}/{self.base}'
        self.prj = self.path + '.yw7'
        self.plan['dirs'] = [self.dir]
        for k in range(3):
            self.plan['progs'][str(k)] = dict(cwd=self.r.choice(['/sim/home', self.dir, '/sim/work', '/sim']), env=self.r.choice(ENVS))
        self.plan['dirs'] += ['/sim/work']
        return self.path

    def decoys(self, n=None):
        """Files with similar names that nothing may touch."""
        r = self.r
        cand = []
        b, p = self.base, self.path
        stems = {p, p + '2', p + '_notes', p.replace('_notes', ''), p.replace('_manuscript', ''), p[:-1], p + ' (copy)', self.dir + '/other', p + '_'}
        for st in sorted(stems):
            for ext in ('.yw7', '.yw7.bak', '.odt', '.odt.bak', '_manuscript.odt', '_proof.odt.bak', '_scenelist.ods', '.txt', '.yw7.tmp', '.yw7.orig', '.ods', '_characters.odt', '.yw7.bak.bak', '.xml'):
                cand.append(st + ext)
        cand = [c for c in cand if c not in self.plan['files'] and not c.endswith('/')]
        for c in r.sample(cand, min(len(cand), n if n is not None else r.randint(2, 10))):
            if os.path.basename(c) in ('.yw7', '.odt', '.ods') or c.startswith(self.dir + '/.'):
                continue
            if c == self.prj or c == self.prj + '.bak':
                continue
            self.plan['files'][c] = dict(text=f'decoy {r.randrange(10**6)}') if not c.endswith('.yw7') or r.random() < 0.3 else dict(tree=r.randrange(len(self.plan['trees'])))

    def suffix(self, imports=False):
        return self.r.choice(sorted(IMPORTS if imports else EXPORTS))

    def docpath(self, suffix):
        return self.path + suffix + EXPORTS[suffix]

    def add_project(self, tree):
        self.plan['files'][self.prj] = dict(tree=tree)

    def doc_spec(self, tree, suffix, edited=True):
        """The document of this type of the project, possibly edited by the user."""
        spec = dict(doc=tree, suffix=suffix)
        if edited:
            e = self.doc_edits(self.plan['trees'][tree], suffix)
            if e:
                spec['edits'] = e
        return spec

    def doc_edits(self, tree, suffix, n=None, lo=0.3):
        from . import docedit
        return docedit.edits(self.r, self.gen(), tree, suffix, n or self.r.randint(1, 3), lo)

    def ywedits(self, t, n=1):
        """What the user does in yWriter to the project of tree t (each call goes on where the last one ended)."""
        if t not in self.cur:
            self.cur[t] = copy.deepcopy(self.plan['trees'][t])
        return copy.deepcopy(self.gen().edits(self.cur[t], n))

    def create_spec(self):
        r = self.r
        g = self.gen()
        outline = r.random() < 0.5
        blocks = []
        for c in range(r.randint(1, 3)):
            blocks.append([r.choice(['h1', 'h2', 'h2']), [g.title()]])
            if outline and r.random() < 0.5:
                blocks.append(['p', [g.line(9)]])
            for s in range(r.randint(1, 3)):
                if outline:
                    blocks.append(['h3', [g.title()]])
                elif s:
                    blocks.append(['h4', ['* * *']])
                for k in range(r.randint(1, 3)):
                    blocks.append(['p' if k == 0 else 'f', [g.line(12)]])
        return dict(odt=dict(title=g.title(), author='A. Uthor', desc=g.line(6), blocks=blocks, lang=r.choice(['en', 'de']), ctr='US'))

    # ------------------------------------------------------------ steps
    def conv(self, src, suffix='', **kw):
        st = dict(t='conv', src=src, suffix=suffix, prog=kw.pop('prog', 0))
        x = self.r.random()
        if x < 0.4:
            st['ui'] = 'cmd' if x < 0.2 else 'tk' if x < 0.3 else 'mb'
        if self.r.random() < 0.15:
            # the converters that do only one of the two
            s = st['src']
            if s.endswith('.yw7'):
                st['cls'] = 'Yw7Exporter'
            elif s.endswith(tuple(a + b for a, b in IMPORTS.items())):
                st['cls'] = 'Yw7Importer'
            if self.r.random() < 0.15:
                # the wrong one
                st['cls'] = self.r.choice(['Yw7Exporter', 'Yw7Importer'])
        st.update(kw)
        self.plan['steps'].append(st)
        return st

    def act(self, a, **kw):
        self.plan['steps'].append(dict(t='act', act=dict(a=a, **kw)))

    def restart(self, k=0):
        self.plan['steps'].append(dict(t='restart', prog=k))

    def scenario(self, kinds=('import', 'export', 'create')):
        """Set up files for one conversion of a kind; returns (kind, src, suffix, target)."""
        r = self.r
        kind = r.choice(kinds)
        t = self.tree()
        self.place()
        if kind == 'export':
            self.add_project(t)
            s = self.suffix()
            tgt = self.docpath(s)
            if r.random() < 0.7:
                self.plan['files'][tgt] = r.choice([dict(text='an older document'), dict(doc=t, suffix=s)])
            if r.random() < 0.5:
                self.plan['files'][tgt + '.bak'] = dict(text='an even older document')
            src = self.prj
        elif kind == 'import':
            self.add_project(t)
            s = self.suffix(True)
            src = self.docpath(s)
            self.plan['files'][src] = self.doc_spec(t, s)
            tgt = self.prj
            if r.random() < 0.6:
                self.plan['files'][tgt + '.bak'] = dict(tree=t, ops=[['set', 'PROJECT', None, 'Title', 'An older version']])
            s = ''
        else:
            src, s, tgt = self.path + '.odt', '', self.prj
            while rule(src, '', lambda x: True)[0] != 'create':
                self.place()
                src, tgt = self.path + '.odt', self.prj
            self.plan['files'][src] = self.create_spec()
            if r.random() < 0.3:
                self.plan['files'][tgt + '.bak'] = dict(tree=t)
        self.decoys()
        return kind, src, s, tgt


# ---------------------------------------------------------------- choice of faults
def choose_faults(w, st, chaos):
    """Complete a step with faults/events at positions taken from a fault-free execution of the same step."""
    r = random.Random(chaos['seed'])
    p = w.program(st.get('prog', 0))
    src = st['src'] if st['src'].startswith('/') else os.path.normpath(os.path.join(p.cwd, st['src']))
    snap = K.fs.snapshot()
    kind, target = rule(src, st.get('suffix', ''), lambda x: snap.get(x) is not None)
    tr = lab.reference(snap, src, st.get('suffix', ''), env={k: p.env[k] for k in ('locale', 'bufsize')}, cls=st.get('cls', 'Yw7Converter'))[3]
    if not tr:
        return
    n = len(tr)
    hot = [i for i, name, path in tr if path in (target, (target or '') + '.bak') and name in MUTATING]
    mut = [i for i, name, path in tr if name in MUTATING]
    flt = [i for i, name, path in tr if name in FAULTABLE]
    srcops = [i for i, name, path in tr if path == src]
    mode = chaos['mode']
    faults = []

    def pick(pools):
        pools = [x for x in pools if x]
        return r.choice(r.choice(pools)) if pools else r.randrange(n)

    def err(at):
        f = dict(at=at, kind=r.choice(chaos.get('kinds') or ERRS))
        if tr[at][1] == 'write' if at < n else False:
            if r.random() < 0.6:
                f['frac'] = round(r.random(), 3)
        return f
    if mode == 'crash':
        at = pick([hot, mut, list(range(n))]) if r.random() < 0.9 else n - 1
        f = dict(at=at, kind='crash')
        if tr[at][1] == 'write' and r.random() < 0.8:
            f['frac'] = round(r.random(), 3)
        faults.append(f)
        if r.random() < 0.25:  # an error first, then killed while handling it
            e = max(0, at - r.randint(1, 4))
            faults = [err(pick([hot, mut]))]
            faults.append(dict(at=faults[0]['at'] + r.randint(1, 5), kind='crash'))
    elif mode == 'error':
        faults.append(err(pick([hot, hot, mut, flt])))
        if r.random() < 0.35:
            faults.append(dict(at=faults[0]['at'] + r.randint(1, 6), kind=r.choice(ERRS)))
        if r.random() < 0.1:
            faults.append(dict(at=faults[0]['at'] + r.randint(1, 12), kind=r.choice(ERRS)))
    elif mode == 'read':
        faults.append(err(pick([srcops, flt])))
    elif mode == 'sticky':
        faults.append(dict(at=pick([hot, mut, flt]), kind='sticky', err=r.choice(['eacces', 'ebusy', 'eperm'])))
    elif mode == 'full':
        faults.append(dict(at=pick([mut, hot]), kind='full', left=r.choice([0, 0, 1, 10, 100, 1000, 4000])))
    elif mode == 'intr':
        faults.append(dict(at=pick([hot, mut, list(range(n))]), kind='intr'))
    elif mode == 'nomem':
        faults.append(dict(at=pick([hot, mut, flt]), kind='nomem'))
    elif mode == 'short':
        rw = [i for i, name, path in tr if name in ('read', 'write')]
        for i in sorted(r.sample(rw, min(len(rw), r.randint(1, 4)))):
            faults.append(dict(at=i, kind='short', frac=round(r.random(), 3)))
    elif mode == 'any':
        c = dict(chaos)
        c['mode'] = r.choice(chaos.get('modes') or ['error', 'error', 'sticky', 'full', 'nomem', 'short'])
        c['seed'] = r.randrange(1 << 30)
        return choose_faults(w, st, c)
    elif mode == 'event':
        hi = chaos.get('max')
        if hi == 'source':
            if kind == 'export':
                ix = [i - 3 for i, name, path in tr if path == src and name == 'open_r'][:1]
            else:
                ix = [i for i, name, path in tr if path == src and name in ('open_r', 'read')][-1:]
            hi = ix[0] if ix else n - 1
        else:
            hi = n - 1
        at = r.randint(0, hi) if r.random() < 0.7 else max(0, hi - r.randint(0, 3))
        st.setdefault('events', []).append(dict(at=at, act=chaos['act']))
    seen = {}
    for f in faults:
        seen.setdefault(f['at'], f)
    if faults:
        st['faults'] = sorted(seen.values(), key=lambda f: f['at'])


def decide(w, i, st):
    c = st.pop('chaos', None)
    if c is not None:
        for x in (c if isinstance(c, list) else [c]):
            choose_faults(w, st, x)
