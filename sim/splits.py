"""Histories of splitting scenes by dividers typed into exported documents (C17), judged against a reference splitter."""
import copy
import random

from . import docedit, docs, gen, histories, lab, model, worldgen, ywstub
from .kernel import K, h64
from .histories import markup
from .world import EXPORTS, IMPORTS, Skip
from .worldgen import Builder

WARN = '(!)'
MARKED = ('Desc', 'Goal', 'Conflict', 'Outcome')
DEPTH = {'h1': '# ', 'h2': '## '}


def plan(seed, tier, prop):
    b = Builder(seed)
    r = b.r
    mk = r.random() < 0.3
    t = b.tree(markup=mk, foreign=0)
    b.place()
    while b.base.endswith(tuple(IMPORTS)):
        b.place()
    if r.random() < 0.5:
        # number signs in scenes the documents do not carry (and rarely in others)
        g = gen.Gen(h64(seed, 'hash'), 'medium')
        shown = {k.split(':')[1] for k in docedit.carried(model.canon_tree(b.plan['trees'][t]), '_manuscript')}
        for m in ywstub.members(b.plan['trees'][t], 'SCENES'):
            if r.random() < (0.05 if ywstub.text(m, 'ID') in shown else 0.7):
                ls = [docedit.line(g) for _ in range(r.randint(0, 4))]
                for _ in range(r.randint(1, 2)):
                    ls.insert(r.randint(0, len(ls)), r.choice(['#', '##', '###']) + r.choice(['', ' ']) + docedit.line(g, 3))
                if ywstub.text(m, 'SceneContent', '').startswith(('<HTML>', '<TEX>')):
                    ls.insert(0, '<HTML>')
                ywstub.set_child(m, 'SceneContent', '\n'.join(ls))
    b.add_project(t)
    b.plan['prj'] = b.prj
    b.plan['markup'] = mk
    steps = b.plan['steps']
    n = r.choice([1, 1, 2, 2, 3, 4] if tier == 'quick' else [1, 2, 3, 4, 6, 9])
    for k in range(n):
        s = r.choice(['_manuscript', '_manuscript', '_proof'])
        prog = r.choice([0, 0, 0, 1, 2])
        if r.random() < 0.3:
            steps.append(dict(t='ywedit', pick=r.randrange(1 << 30), n=r.randint(1, 3), dele=True))
        steps.append(dict(t='export', suffix=s, prog=prog))
        if r.random() < 0.4:
            steps.append(dict(t='ywedit', pick=r.randrange(1 << 30), n=r.randint(1, 3), dele=False))
        if r.random() < 0.92:
            steps.append(dict(t='split', suffix=s, pick=r.randrange(1 << 30), n=r.choice([1, 1, 2, 3, 5]), lo=0.35))
        if r.random() < 0.15:
            steps.append(dict(t='restart', prog=prog))
        st = dict(t='import', suffix=s, prog=prog)
        if r.random() < 0.15:
            st['short'] = r.randrange(1 << 30)
        if r.random() < 0.15:
            st['keep'] = True
        steps.append(st)
        if r.random() < 0.35:
            # what has been split is exported and read back: nothing more happens
            s = r.choice(['_manuscript', '_proof'])
            steps.append(dict(t='export', suffix=s, prog=prog))
            steps.append(dict(t='import', suffix=s, prog=prog))
    return b.plan


# ---------------------------------------------------------------- the user's edits
def heading(r, g):
    def words(n):
        return docedit.line(g, n).replace('|', '/').replace('#', '+').strip() or 'x'
    k = r.random()
    if k < 0.15:
        return ''
    if k < 0.7:
        return words(4)
    return words(3) + r.choice(['|', ' | ', '| ']) + words(6) + (' | ' + words(3) if r.random() < 0.1 else '')


def edits(r, g, c, suffix, n, lo, markup):
    keys = docedit.carried(c, suffix)
    out = []
    few = r.sample(keys, min(len(keys), r.choice([1, 1, 2, 3]))) if keys else []
    for _ in range(n if keys else 0):
        key = r.choice(few)
        k = r.random()
        if k < 0.62:
            lvl = r.choice(['#', '##', '##', '###', '###', '###'])
            h = heading(r, g)
            if lvl != '###' and h and r.random() < 0.6:
                out.append(['ins', key, r.choice([0, 1, r.randrange(14), 99]), [h], 'h' + str(len(lvl))])
            else:
                out.append(['ins', key, r.choice([0, 1, r.randrange(14), 99]), [lvl + (' ' if r.random() < 0.8 and h else '') + h]])
        elif k < 0.75:
            out.append(['ins', key, r.randrange(14), docedit.runs(r, g, markup)])
        elif k < 0.82:
            out.append(['set', key, r.randrange(14), docedit.runs(r, g, markup)])
        elif k < 0.86:
            out.append(['del', key, r.randrange(14)])
        else:
            body = []
            for _ in range(r.randint(1, 7)):
                q = r.random()
                if q < 0.45:
                    body.append(docedit.runs(r, g, markup))
                elif q < 0.55:
                    body.append([''])
                elif q < 0.75:
                    body.append(['### ' + heading(r, g)] if r.random() < 0.7 else ['###'])
                elif q < 0.85:
                    body.append([r.choice(['# ', '## ']) + heading(r, g)])
                else:
                    body.append(dict(h=r.choice([1, 2]), runs=[heading(r, g) or 'x']))
            out.append(['all', key, body])
    if r.random() < lo:
        out.append(['lo', r.randrange(1 << 30)])
    return out


def doc_lines(doc_canon, suffix, ops):
    """scene ID -> the lines the edited document holds for it"""
    res = {}
    for key in docedit.carried(doc_canon, suffix):
        ls = [['> ' if suffix == '_manuscript' and x.startswith('> ') else '', x] for x in docedit.per_line(docedit.get_text(doc_canon, key, suffix).rstrip().split('\n'))]
        for e in ls:
            if e[0]:
                e[1] = e[1][2:]
        res[key] = ls
    for e in ops:
        if e[0] == 'lo' or e[1] not in res:
            continue
        ls = res[e[1]]
        if e[0] == 'set':
            x = ls[e[2] % len(ls)]
            x[1] = docs.runs_text(e[3])
            if x[0].startswith('#'):  # a heading is one line
                x[1] = x[1].replace('\n', ' ')
        elif e[0] == 'ins':
            ls.insert(e[2] % (len(ls) + 1), [DEPTH.get(e[4], '') if len(e) > 4 else '', docs.runs_text(e[3])])
        elif e[0] == 'del':
            if len(ls) > 1:
                del ls[e[2] % len(ls)]
        elif e[0] == 'all':
            ls[:] = [[DEPTH[f'h{x["h"]}'], docs.runs_text(x['runs'])] if isinstance(x, dict) else ['', docs.runs_text(x)] for x in e[2]]
    out = {}
    for k, ls in res.items():
        t = '\n'.join(a + b for a, b in ls)
        out[k.split(':')[1]] = (t.strip() if suffix == '_proof' else t.rstrip()).split('\n')
    return out


def divider(line):
    for n, m in ((3, '###'), (2, '##'), (1, '#')):
        if line.startswith(m):
            title, _, desc = line.strip('# ').partition('|')
            return n, title.strip(), desc.strip()
    return None


def reference(before, lines):
    """The structure after the import:
    [(old chapter ID or None, level, title, desc, [(old scene ID or None, parent, title, desc, text)])], IDs of split scenes"""
    chs, split = [], set()
    for ch, d in before['chapters']:
        cur = []
        chs.append((ch, None, None, None, cur))
        for sc in d['scenes']:
            if sc not in lines:
                cur.append((sc, sc, None, None, None))
                continue
            part = [sc, sc, None, None, []]
            cur.append(part)
            for ln in lines[sc]:
                v = divider(ln)
                if v is None:
                    if part is None:
                        part = [None, sc, '', '', []]
                        cur.append(part)
                    part[4].append(ln)
                    continue
                split.add(sc)
                if v[0] == 3:
                    part = [None, sc, v[1], v[2], []]
                    cur.append(part)
                else:
                    cur = []
                    chs.append((None, v[0], v[1], v[2], cur))
                    part = None
    return chs, split


def drafted(status):
    return status if status in (None, '1', '2') else '2'


def loose(data):
    """IDs used twice, references to nothing"""
    tree = ywstub.parse(data)
    for sec in ('SCENES', 'CHAPTERS'):
        ids = [ywstub.text(m, 'ID') for m in ywstub.members(tree, sec)]
        for i in ids:
            if ids.count(i) > 1:
                yield f'ID {i} is used twice in {sec}'
        if sec == 'SCENES':
            known = set(ids)
    for m in ywstub.members(tree, 'CHAPTERS'):
        lst = ywstub.child(m, 'Scenes')
        for c in ywstub.kids(lst) if lst is not None else []:
            if c[1] not in known:
                yield f'chapter {ywstub.text(m, "ID")} refers to scene {c[1]}, which does not exist'


class SplitHistory(histories.History):
    def v17(self, text):
        self.v('C17', text)

    def do_ywedit(self, st):
        data = K.fs.get(self.prj)
        if 'ops' not in st:
            if not self.fresh:
                return
            g = gen.Gen(h64(st['pick'], 'y'), 'medium')
            st['ops'] = [op for op in copy.deepcopy(g.edits(ywstub.parse(data), st['n'])) if op[0] != 'del' or st['dele']]
        try:
            K.fs.put(self.prj, ywstub.edit_bytes(data, st['ops']))
        except ywstub.BadProject as ex:
            raise Skip(str(ex))
        if st['dele']:
            self.slots.clear()
        self.stats['ywedits'] += 1
        self.brief.append(f'{self.i}: ywedit {str(st["ops"])[:150]}')

    def do_split(self, st):
        s = st['suffix']
        slot = self.slots.get(s)
        if slot is None or slot[1]:
            return
        if 'ops' not in st:
            if not self.fresh:
                return
            r = random.Random(st['pick'])
            g = gen.Gen(h64(st['pick'], 'g'), 'medium')
            st['ops'] = edits(r, g, slot[0], s, st['n'], st['lo'], self.plan.get('markup', False))
        try:
            K.fs.put(self.path(s), docs.edit(K.fs.get(self.path(s)), s, st['ops']))
        except docs.BadDoc as ex:
            self.v17(f'the exported document {s} cannot be edited: {ex}')
            return
        slot[1] = st['ops']
        self.stats['docedits'] += 1
        self.stats['edit_ops'] += len(st['ops'])
        self.brief.append(f'{self.i}: docedit {s} {str(st["ops"])[:150]}')

    def do_export(self, st):
        super().do_export(st)
        if st['suffix'] not in self.slots and not self.viol:
            self.v17(f'export as {st["suffix"]} failed: {self.brief[-1]}')

    def do_import(self, st):
        s = st['suffix']
        if s not in self.slots:
            return
        doc_canon, ops = self.slots.pop(s)  # documents with split scenes are imported once
        before = self.canon()
        loose0 = set(loose(K.fs.get(self.prj)))
        was = [x for i, d in before['chapters'] for x in d['scenes']]
        if len(set(was)) != len(was):
            raise Skip('a scene is in several chapters')
        lines = doc_lines(doc_canon, s, ops)
        if not set(lines) <= set(before['scenes']):
            return  # deleted meanwhile
        out = self.convert(st, self.path(s), '')
        self.stats['imports'] += 1
        if not out.ok:
            self.v17(f'import of {s} failed: {out.brief()[:200]} after {str(ops)[:200]}')
            self.stats['refused'] += 1
            return
        try:
            after = model.canon(K.fs.get(self.prj))
        except ywstub.BadProject as ex:
            self.v17(f'import of {s} makes the project unreadable: {ex}')
            return
        new = set(loose(K.fs.get(self.prj))) - loose0
        if new:
            self.v17(f'import of {s}: {sorted(new)[0]}')
            return
        chs, split = reference(before, lines)
        nnew = sum(1 for c in chs if c[0] is None)
        shape = tuple((c[0] is None, len(c[4]), sum(1 for x in c[4] if x[0] is None)) for c in chs)
        self.states.add(h64(s, shape))
        self.stats['new_chapters'] = self.stats.get('new_chapters', 0) + nnew
        self.stats['new_scenes'] = self.stats.get('new_scenes', 0) + sum(1 for c in chs for x in c[4] if x[0] is None)
        self.stats['split_scenes'] = self.stats.get('split_scenes', 0) + len(split)
        d = self.judge(before, after, chs, split, lines)
        if d:
            self.v17(f'import of {s}: {d}')

    def judge(self, before, after, chs, split, lines):
        old_sc, old_ch = before['scenes'], dict(before['chapters'])
        seen = [x for i, d in after['chapters'] for x in d['scenes']]
        for x in seen:
            if seen.count(x) > 1:
                return f'scene {x} is in more than one place'
            if x not in after['scenes']:
                return f'scene {x} is listed but does not exist'
        was = {x for i, d in before['chapters'] for x in d['scenes']}
        for x in after['scenes']:
            if x not in seen and (x in was or x not in old_sc):
                return f'scene {x} is in no chapter'
        for x in old_sc:
            if x not in after['scenes']:
                return f'scene {x} is lost'
        ids = [i for i, d in after['chapters']]
        if len(set(ids)) != len(ids):
            return f'chapter IDs are not unique: {ids}'
        if len(ids) != len(chs):
            return f'{len(ids)} chapters instead of {len(chs)}'

        def blank(i):
            d = after['scenes'][i]
            return i not in old_sc and not d.get('SceneContent', '').strip()
        after_ch = []
        for (i, d), (ch, level, title, desc, scs) in zip(after['chapters'], chs):
            if ch is not None:
                if i != ch:
                    return f'chapter {i} is where chapter {ch} belongs'
                x, y = dict(old_ch[i]), dict(d)
                x.pop('scenes'), y.pop('scenes')
                if x != y:
                    return f'chapter {i} has changed: {model.diff(x, y)}'
            else:
                if i in old_ch:
                    return f'chapter {i} is where a new one belongs'
                if d['type'] != 0 or d['level'] != (level == 1):
                    return f'new chapter {i} has type {d["type"]} level {d["level"]}, expected {"part" if level == 1 else "chapter"}'
                if title and markup(d.get('Title', '').strip()) != markup(title) or not d.get('Title', '').strip():
                    return f'new chapter {i}: title {d.get("Title")!r} instead of {title!r}'
                if markup(d.get('Desc', '').strip()) != markup(desc):
                    return f'new chapter {i}: description {d.get("Desc")!r} instead of {desc!r}'
            # scenes without a heading and without any text may or may not be there
            exp = [x for x in scs if x[0] is not None or x[2] or x[3] or ''.join(x[4]).strip()]
            titled = [x for x in exp if x[0] is None and not ''.join(x[4]).strip()]
            got = list(d['scenes'])
            if len(got) != len(exp) or any(blank(g) for g in got):
                got = self.align(got, exp, after, old_sc)
                if got is None:
                    return f'chapter {i} has the scenes {d["scenes"]}, expected {[x[0] or "new: " + str(x[2] or x[4])[:40] for x in exp]}'
            for g, x in zip(got, exp):
                a = after['scenes'][g]
                if x[0] is not None:
                    if g != x[0]:
                        return f'scene {g} is where scene {x[0]} belongs'
                    p, q = dict(old_sc[g]), dict(a)
                    tp, tq = p.pop('SceneContent', ''), q.pop('SceneContent', '')
                    if x[4] is None:
                        if markup(tp.rstrip()) != markup(tq.rstrip()):
                            return f'the text of scene {g}, which the document does not carry, has changed: {tp[:60]!r} -> {tq[:60]!r}'
                    elif markup('\n'.join(x[4]).strip()) != markup(tq.strip()):
                        return f'text of scene {g} is {tq[:80]!r} instead of {chr(10).join(x[4])[:80]!r}'
                    if g in split:
                        # back to draft, if it was beyond
                        if p.pop('Status', None) != q.pop('Status', None) and a.get('Status') != drafted(old_sc[g].get('Status')):
                            return f'scene {g} has been split, its status is {a.get("Status")} after {old_sc[g].get("Status")}'
                        for f in MARKED:
                            if f in q and q[f] == WARN + p.get(f, ''):
                                q[f] = p[f]
                    diff = model.diff(histories.norm(dict(scenes={g: p}, chapters=[], characters=[], locations=[], items=[])), histories.norm(dict(scenes={g: q}, chapters=[], characters=[], locations=[], items=[])))
                    if diff:
                        return f'scene {g} has changed: {diff}'
                else:
                    if g in old_sc:
                        return f'scene {g} is where a new one belongs'
                    t = a.get('SceneContent', '')
                    if markup('\n'.join(x[4]).strip()) != markup(t.strip()):
                        return f'text of new scene {g} is {t[:80]!r} instead of {chr(10).join(x[4])[:80]!r}'
                    if x[2] and markup(a.get('Title', '').strip()) != markup(x[2]):
                        return f'new scene {g}: title {a.get("Title")!r} instead of {x[2]!r}'
                    if markup(a.get('Desc', '').strip()) != markup(x[3]):
                        return f'new scene {g}: description {a.get("Desc")!r} instead of {x[3]!r}'
                    if a['type'] != old_sc[x[1]]['type']:
                        return f'new scene {g} has type {a["type"]}'
                    w = old_sc[x[1]]
                    if after['scenes'][x[1]].get('Status') != drafted(w.get('Status')):
                        return f'scene {x[1]} has been split, its status is {after["scenes"][x[1]].get("Status")} after {w.get("Status")}'
                    if a.get('Status') != drafted(w.get('Status')):
                        return f'new scene {g} has status {a.get("Status")}, the scene it comes from {w.get("Status")}'
                    for k in ('when', 'LastsDays', 'LastsHours', 'LastsMinutes'):
                        if (a.get(k) or None) != (w.get(k) or None):
                            return f'new scene {g} has {k} {a.get(k)}, the scene it comes from {w.get(k)}'
        ra = {k: v for k, v in after.items() if k not in ('scenes', 'chapters', 'langs')}
        rb = {k: v for k, v in before.items() if k not in ('scenes', 'chapters', 'langs')}
        if not model.plausible(rb['lang']):
            ra.pop('lang'), rb.pop('lang')
        return model.diff(rb, ra)

    def align(self, got, exp, after, old_sc):
        """drop new scenes without text that have no counterpart"""
        out, j = [], 0
        for g in got:
            d = after['scenes'][g]
            empty = g not in old_sc and not d.get('SceneContent', '').strip()
            if j < len(exp):
                x = exp[j]
                if x[0] is None and empty and not (not ''.join(x[4]).strip() and (not x[2] or d.get('Title', '').strip() == x[2])):
                    continue
                if x[0] is not None and empty:
                    continue
            elif empty:
                continue
            out.append(g)
            j += 1
        return out if len(out) == len(exp) else None


def execute(prop, plan, fresh, res):
    h = SplitHistory(prop, plan, fresh)
    res.brief = h.brief
    try:
        h.run()
    finally:
        res.stats, res.states, res.viol = h.stats, h.states, h.viol
