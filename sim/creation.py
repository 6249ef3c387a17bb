"""C23: projects created from documents the user has written (work in progress, outline): what the document contains, and that one can go on working with it."""
import re

from . import docedit, docs, gen, histories, model, ywstub
from .kernel import K, h64
from .world import EXPORTS, IMPORTS, Violation, rule
from .worldgen import Builder

KINDS = ['eio', 'eacces', 'enospc', 'emfile', 'ebusy', 'short', 'nomem', 'intr', 'crash', 'crash']
LANGS = [('en', 'US'), ('de', 'DE'), ('fr', 'CA'), ('zxx', 'none'), ('en', 'none')]


# ---------------------------------------------------------------- documents
def clean(s):
    return s.replace('#', '+').replace('*', '+').replace('~', '-').strip() or 'x'


def words(g, n):
    return clean(docedit.line(g, n))


def runs(r, g, mk):
    x = docedit.runs(r, g, mk, mk)
    return [clean_run(y) for y in x]


def clean_run(y):
    f = lambda s: s.replace('#', '+').replace('*', '+').replace('~', '-')
    return f(y) if isinstance(y, str) else [y[0], f(y[1])] + y[2:]


def wip(r, g, mk, tier):
    out = []
    if r.random() < 0.15:
        out += [[r.choice(['p', 'Title', 'li']), [words(g, 4)]] for _ in range(r.randint(1, 2))]  # a title page
    for c in range(r.choice([1, 1, 2, 3, 4] if tier == 'quick' else [1, 2, 4, 8])):
        out.append([r.choice(['h1', 'h2', 'h2', 'h2', 'h1A', 'h2A', 'h1P', 'h2P', 'h2PA']), heading(r, g)])
        if r.random() < 0.05:
            out.append(['h4', ['* * *']])
        for s in range(r.choice([0, 1, 1, 2, 3])):
            if s:
                out.append([r.choice(['h4', 'h4', 'p', 'H4', 'Centered']), ['* * *']])
            for k in range(r.choice([1, 1, 2, 3, 5])):
                st = 'p' if k == 0 else 'f'
                if r.random() < 0.2:
                    st = r.choice(['li', 'Quotations', 'PQ', 'H4', 'Standard'] + (['PI', 'PB'] if mk else []))
                x = runs(r, g, mk)
                if st == 'H4':
                    x = [words(g, 6)]
                elif k == 0 and st == 'p' and r.random() < 0.3:
                    x.insert(0, ['note', words(g, 5)])
                elif st not in ('PI', 'PB') and r.random() < 0.06:
                    x = ['']
                elif k and r.random() < 0.1:
                    x.insert(0, ['note', words(g, 5)])
                out.append([st, x])
    return out


def heading(r, g):
    t = words(g, 4)
    if r.random() < 0.15:
        return [t + ' ', [r.choice(['i', 'TB', 'TIB', 'L:fr-FR']), words(g, 2)], r.choice(['', ' ' + words(g, 2)])]
    if r.random() < 0.1:
        return [t + r.choice(['\n', '  ']) + words(g, 2)]
    return [t]


def outline(r, g, mk, tier):
    out = []
    if r.random() < 0.15:
        out.append(['p', [words(g, 4)]])

    def text(n):
        for _ in range(r.choice(n)):
            st = r.choice(['p', 'p', 'f', 'Standard', 'li', 'Quotations', 'PQ', 'H4'])
            x = [y for y in runs(r, g, mk) if isinstance(y, str) or y[0] not in ('note', 'fn', 'en')]
            if st == 'H4':
                x = [words(g, 6)]
            elif r.random() < 0.06:
                x = ['']
            out.append([st, x])
    n = r.choice([1, 1, 2, 3, 4] if tier == 'quick' else [1, 2, 4, 8])
    for c in range(n):
        out.append([r.choice(['h1', 'h2', 'h2', 'h1A', 'h2A', 'h2P', 'h1PA']), heading(r, g)])
        text([0, 0, 1, 2])
        for s in range(r.choice([0, 1, 2, 3]) + (c == n - 1)):
            out.append([r.choice(['h3', 'h3', 'h3A', 'h3P', 'h3PA']), heading(r, g)])
            text([0, 1, 1, 2, 3])
    return out


def spec(r, seed, tier):
    g = gen.Gen(h64(seed, 'doc'), r.choice(['plain', 'medium', 'medium', 'hard']))
    mk = r.random() < 0.4
    ol = r.random() < 0.4
    lang = r.choice(LANGS)
    s = dict(blocks=(outline if ol else wip)(r, g, mk, tier), outline=ol, lang=lang[0], ctr=lang[1], meta=r.random() < 0.9)
    for k, p in (('title', 0.8), ('author', 0.7), ('desc', 0.5)):
        if r.random() < p:
            s[k] = words(g, 5)
    if s['outline'] and r.random() < 0.1:
        s['meta'] = False
    if r.random() < 0.4:
        s['lo'] = r.randrange(1 << 30)
    return s


# ---------------------------------------------------------------- reference model
def level(st):
    return int(st[1]) if st[0] == 'h' and st[1:2] in ('1', '2', '3') else 0


def reference(s):
    """[(part?, title, description lines, [[title or None, text lines, description lines]])]"""
    chs, scs, sc, desc = [], None, None, None
    for st, rs in s['blocks']:
        n = level(st)
        if n in (1, 2):
            scs, sc, desc = [], None, []
            chs.append((n == 1, one_line(rs), desc, scs))
        elif scs is None:
            continue  # text before the first chapter
        elif s['outline']:
            if n == 3:
                desc = []
                scs.append([one_line(rs), [], desc])
            else:
                desc.extend(docs.runs_text(rs, '').split('\n'))
        elif docs.runs_text(rs, '') == '* * *':
            if sc is None and st == 'p':
                scs.append([None, [], []])
            sc = None
        else:
            if sc is None:
                sc = [None, [], []]
                scs.append(sc)
                if st == 'p' and not isinstance(rs[0], str) and rs[0][0] == 'note':
                    sc[0] = rs[0][1].strip()
                    rs = rs[1:]
            head = '> ' if st in docs.QUOTES else '- ' if st == 'li' else ''
            sc[1].append(head + docs.runs_text(rs, st))
    return chs


def one_line(rs):
    return ' '.join(docs.runs_text(rs, '').split())


def squeeze(t):
    return ' '.join((t or '').split())


def lines(t):
    return [x.strip() for x in (t or '').split('\n') if x.strip()]


def judge(s, c):
    """what the project (canonical) has otherwise than the document"""
    exp = reference(s)
    if len(exp) != len(c['chapters']):
        return f'{len(c["chapters"])} chapters instead of {len(exp)}'
    ids = [i for i, d in c['chapters']]
    if len(set(ids)) != len(ids) or not all(ids):
        return f'chapter IDs {ids}'
    seen = [x for i, d in c['chapters'] for x in d['scenes']]
    if sorted(seen) != sorted(c['scenes']):
        return f'the chapters list the scenes {seen}, but there are {sorted(c["scenes"])}'
    for (i, d), (part, title, desc, scs) in zip(c['chapters'], exp):
        if squeeze(d.get('Title')) != title:
            return f'chapter {i} has the title {d.get("Title")!r} instead of {title!r}'
        if d['level'] != part or d['type'] != 0:
            return f'chapter {i} has level {d["level"]} and type {d["type"]}, expected a {"part" if part else "chapter"}'
        if lines(d.get('Desc')) != [x.strip() for x in desc if x.strip()]:
            return f'chapter {i} has the description {d.get("Desc")!r} instead of {desc!r}'
        got = [[x, c['scenes'][x]] for x in d['scenes']]
        if not s['outline']:
            # scenes without any text may or may not be there
            got = [x for x in got if x[1].get('SceneContent', '').strip()]
            scs = [x for x in scs if ''.join(x[1]).strip()]
        if len(got) != len(scs):
            return f'chapter {i} has {len(got)} scenes instead of {len(scs)}'
        for (k, x), (title, text, desc) in zip(got, scs):
            if x['type'] != 0:
                return f'scene {k} has type {x["type"]}'
            if title is not None and squeeze(x.get('Title')) != squeeze(title) or not x.get('Title', '').strip():
                return f'scene {k} has the title {x.get("Title")!r} instead of {title!r}'
            t = '\n'.join(text).strip()
            if histories.markup(x.get('SceneContent', '').strip()) != histories.markup(t):
                return f'scene {k} has the text {x.get("SceneContent")!r} instead of {t!r}'
            if lines(x.get('Desc')) != [y.strip() for y in desc if y.strip()]:
                return f'scene {k} has the description {x.get("Desc")!r} instead of {desc!r}'
            n = len(t.split())
            least = len(re.sub(r'/\*.*?\*/|\[.+?\]', ' ', t, flags=re.S).split())
            want = '1' if n < 4 else '2' if least > 20 else None  # outline or draft
            if want and x.get('Status') != want:
                return f'scene {k} with {n} words has the status {x.get("Status")}'
    for tag, k in (('Title', 'title'), ('AuthorName', 'author'), ('Desc', 'desc')):
        e = s.get(k, '') if s['meta'] else ''
        if squeeze(c['project'].get(tag)) != squeeze(e):
            return f'the project has the {tag} {c["project"].get(tag)!r} instead of {e!r}'
    lang = [s['lang'], s['ctr']]
    if model.plausible(lang) and c['lang'] != lang:
        return f'the project has the language {c["lang"]} instead of {lang}'
    for k in ('characters', 'locations', 'items'):
        if c[k]:
            return f'there are {k}'


# ---------------------------------------------------------------- plans
def plan(seed, tier, prop):
    b = Builder(seed)
    r = b.r
    b.place()
    while rule(b.path + '.odt', '', lambda x: True)[0] != 'create' or b.base.endswith(tuple(x for x in EXPORTS if x)):
        b.place()
    b.plan['prj'] = b.prj
    b.plan['doc'] = b.path + '.odt'
    b.plan['markup'] = r.random() < 0.3
    b.plan['specs'] = [spec(r, h64(seed, k), tier) for k in range(r.choice([1, 1, 2]))]
    b.plan['files'][b.plan['doc']] = dict(odt=b.plan['specs'][0])
    steps = b.plan['steps']
    for k in range(len(b.plan['specs'])):
        if k:
            # the user starts again with a revised document
            steps.append(dict(t='revise', spec=k))
        for _ in range(r.choice([0, 0, 0, 1, 1, 2])):
            f = dict(at=r.randrange(30), kind=r.choice(KINDS), frac=round(r.random(), 3))
            steps.append(dict(t='create', prog=r.choice([0, 0, 1]), faults=[f]))
        st = dict(t='create', prog=r.choice([0, 0, 0, 1, 2]))
        if r.random() < 0.2:
            st['short'] = r.randrange(1 << 30)
        if r.random() < 0.2:
            st['keep'] = True
        steps.append(st)
        if r.random() < 0.2:
            steps.append(dict(t='create', prog=r.choice([0, 1])))
        for _ in range(r.choice([0, 1, 1, 2, 3] if tier == 'quick' else [1, 2, 4, 8])):
            prog = r.choice([0, 0, 1])
            s = r.choice(['_manuscript', '_manuscript', '_proof', '_scenes', '_chapters', '_parts', '_scenelist'])
            steps.append(dict(t='export', suffix=s, prog=prog))
            if r.random() < 0.3:
                steps.append(dict(t='ywedit', pick=r.randrange(1 << 30), n=r.randint(1, 3)))
            if r.random() < 0.6:
                steps.append(dict(t='docedit', suffix=s, pick=r.randrange(1 << 30), n=r.randint(1, 3), lo=0.35))
            steps.append(dict(t='import', suffix=s, prog=prog))
    return b.plan


class Creation(histories.History):
    def v(self, prop, text):
        self.viol.append(Violation('C23', self.i, text))

    def run(self):
        self.spec = self.plan['specs'][0]
        self.stats.update(creates=0, created=0, refused_creates=0, outlines=0)
        return super().run()

    def do_revise(self, st):
        self.spec = self.plan['specs'][st['spec']]
        K.fs.put(self.plan['doc'], docs.build_odt(self.spec))
        for p in (self.prj, self.prj + '.bak'):
            K.fs.delete(p)
        self.slots.clear()

    def do_create(self, st):
        p = self.w.program(st['prog'])
        old = K.fs.get(self.prj)
        doc = K.fs.get(self.plan['doc'])
        st['suffix'] = ''
        if st.get('faults'):
            p.faults = {p.nops + f['at']: dict(f) for f in st['faults']}
        out = self.create(st, p)
        self.stats['creates'] += 1
        now = K.fs.get(self.prj)
        if K.fs.get(self.plan['doc']) != doc:
            self.v('', 'creating a project changes the document')
        if old is not None:
            self.stats['refused_creates'] += 1
            if out.ok:
                self.v('', 'the project exists, but creating it is reported as successful')
            elif now != old:
                self.v('', 'the project exists, and creating it again changes it')
            elif not out.failed and not st.get('faults'):
                self.v('', f'the project exists: {out.brief()}')
            return
        if out.ok:
            self.created(now)
            return
        if not st.get('faults'):
            self.v('', f'no project is created: {out.brief()}')
            return
        if now is not None:
            # complete (then the program was interrupted after writing it), or removed by the user
            try:
                if out.crashed or out.exc or out.failed:
                    c = model.canon(now)
                    if judge(self.spec, c) is None:
                        return
            except ywstub.BadProject:
                pass
            K.fs.delete(self.prj)

    def create(self, st, p):
        from . import lab
        if st.get('faults'):
            out = lab.convert(p, self.plan['doc'], '')
            p.faults = {}
            self.brief.append(f'{self.i}: create {st["faults"]} -> {out.brief()[:140]}')
            return out
        return self.convert(st, self.plan['doc'], '')

    def created(self, data):
        self.stats['created'] += 1
        self.stats['outlines'] += self.spec['outline']
        if data is None:
            self.v('', 'the creation is reported as successful, but there is no project')
            return
        try:
            c = model.canon(data)
        except ywstub.BadProject as ex:
            self.v('', f'the created project cannot be read: {ex}')
            return
        exp = reference(self.spec)
        self.states.add(h64(self.spec['outline'], tuple((x[0], len(x[2]) > 0, tuple(len(y[1]) + len(y[2]) for y in x[3])) for x in exp)))
        d = judge(self.spec, c)
        if d:
            self.v('', f'created from {"an outline" if self.spec["outline"] else "a work in progress"}: {d}')

    def do_export(self, st):
        if K.fs.get(self.prj) is not None:
            super().do_export(st)

    def do_ywedit(self, st):
        if K.fs.get(self.prj) is not None:
            super().do_ywedit(st)


def execute(prop, plan, fresh, res):
    h = Creation(prop, plan, fresh)
    res.brief = h.brief
    try:
        h.run()
    finally:
        res.stats, res.states, res.viol = h.stats, h.states, h.viol
