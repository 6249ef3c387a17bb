"""C24: every export shows the project as it is: what a document contains (headings, texts with their markup, comments, notes, table rows, links, metadata) is compared with the project."""
import copy
import os
import random
import re
import xml.etree.ElementTree as ET
from urllib.parse import unquote

from . import docedit, docs, gen, histories, lab, model, ywstub
from .docs import q, T_P, T_H, T_SPAN, T_S, T_SECTION, T_A, T_TAB, T_BR, T_LIST, T_STYLE
from .kernel import K, h64
from .world import EXPORTS, IMPORTS, Violation, Skip
from .worldgen import Builder

KINDS = ['eio', 'eacces', 'enospc', 'emfile', 'ebusy', 'short', 'nomem', 'intr', 'crash', 'crash']
FORMATTED = ('', '_proof', '_manuscript', '_notes', '_todo')
MIME = {'.odt': 'application/vnd.oasis.opendocument.text', '.ods': 'application/vnd.oasis.opendocument.spreadsheet'}
NOTE, NOTE_END = '\u0001', '\u0002'


def squeeze(t):
    return ' '.join((t or '').split())


# ---------------------------------------------------------------- reading a document
class Reader:
    def __init__(self, data, suffix):
        self.suffix = suffix
        self.d = docs.Doc(data)
        self.auto = {}
        xml = {}
        for n in ('content.xml', 'styles.xml', 'meta.xml', 'settings.xml', 'META-INF/manifest.xml'):
            try:
                xml[n] = ET.fromstring(self.d.members[n])
            except Exception as ex:
                raise docs.BadDoc(f'{n}: {type(ex).__name__} {ex}')
        self.mime = self.d.members.get('mimetype')
        self.meta = {e.tag.partition('}')[2]: e.text or '' for e in xml['meta.xml'].iter() if len(e) == 0}
        self.lang = None
        for st in xml['styles.xml'].iter(q('style:default-style')):
            if st.get(q('style:family')) == ('paragraph' if EXPORTS[suffix] == '.odt' else 'table-cell'):
                tp = st.find(q('style:text-properties'))
                if tp is not None:
                    self.lang = [tp.get(q('fo:language')), tp.get(q('fo:country'))]
        for st in self.d.root.iter(q('style:style')):
            tp = st.find(q('style:text-properties'))
            m = []
            if tp is not None:
                if tp.get(q('fo:font-style')) == 'italic':
                    m.append('i')
                if tp.get(q('fo:font-weight')) == 'bold':
                    m.append('b')
                if tp.get(q('fo:language')):
                    c = tp.get(q('fo:country'))
                    m.append('lang=' + tp.get(q('fo:language')) + (f'-{c}' if c not in (None, '', 'none') else ''))
            self.auto[st.get(q('style:name'))] = m
        self.links = []
        self.flow = []

    # marked runs of a paragraph
    def runs(self, el, marks, out):
        def add(t):
            if t:
                out.append([tuple(sorted(marks)), t])
        add(el.text)
        for e in el:
            if e.tag == T_SPAN:
                name = e.get(T_STYLE)
                m = ['i'] if name == 'Emphasis' else ['b'] if name == 'Strong_20_Emphasis' else self.auto.get(name)
                if m is None:
                    raise docs.BadDoc(f'style {name} is not defined')
                self.runs(e, marks | set(m), out)
            elif e.tag == T_A:
                self.links.append(e.get(q('xlink:href')))
                self.runs(e, marks, out)
            elif e.tag == T_S:
                add(' ' * int(e.get(q('text:c'), '1')))
            elif e.tag in (T_TAB, T_BR):
                add('\t' if e.tag == T_TAB else '\n')
            elif e.tag == q('office:annotation'):
                self.creators.add(e.findtext(q('dc:creator')) or '')
                self.note(e, '', marks, out)
            elif e.tag == q('text:note'):
                cls = e.get(q('text:note-class'))
                kind = {'footnote': '@fn', 'endnote': '@en'}.get(cls, f'@{cls}')
                cit = e.find(q('text:note-citation'))
                if cit is not None and cit.get(q('text:label')) == '*':
                    kind += '*'
                else:
                    self.labels.append(cit.get(q('text:label')) if cit is not None else None)
                self.note(e.find(q('text:note-body')), kind + ' ', marks, out)
            else:
                raise docs.BadDoc(f'unexpected {e.tag} in a paragraph')
            add(e.tail)

    def note(self, el, head, marks, out):
        out.append([tuple(sorted(marks)), '/*' + head])
        for k, p in enumerate(x for x in el if x.tag == T_P):
            if k:
                out.append([tuple(sorted(marks)), '\n'])
            if p.get(T_STYLE) == 'Quotations':
                out.append([(), '> '])
            self.runs(p, marks, out)
        out.append([tuple(sorted(marks)), '*/'])

    def para(self, el):
        out = []
        self.runs(el, frozenset(), out)
        if self.suffix not in FORMATTED:
            t = ''.join(t for m, t in out)
        else:
            t = joined(out)
        return '> ' + t if el.get(T_STYLE) == 'Quotations' else t

    def odt(self):
        self.labels = []
        self.creators = set()

        def walk(box, path):
            for e in box:
                if e.tag == T_SECTION:
                    walk(e, path + (e.get(q('text:name')),))
                elif e.tag == T_H:
                    k = 'h' + str(e.get(q('text:outline-level')))
                    self.flow.append((path, k, '' if k == 'h3' and self.suffix == '_characters' else squeeze(self.para(e))))
                elif e.tag == T_P:
                    st = e.get(T_STYLE) or ''
                    k = {'Title': 'title', 'Subtitle': 'author', 'Heading_20_4': 'div', 'scene_20_mark': 'mark'}.get(st, 'mark' if st.startswith('scene_20_mark') else 'p')
                    t = self.para(e)
                    self.flow.append((path, k, t if k == 'p' and self.suffix not in ('_xref', '_brf_synopsis') else squeeze(t)))
                elif e.tag in (q('text:sequence-decls'), q('office:forms'), q('text:soft-page-break')):
                    pass
                else:
                    raise docs.BadDoc(f'unexpected {e.tag} in the text')
        walk(self.d.body(), ())
        return tidy(self.flow)

    def ods(self):
        rows = []
        for r in self.d.table().findall(docs.T_ROW):
            for cell in r.findall(docs.T_CELL):
                v, t = cell.get(q('office:value')), docs.cell_text(cell)
                if v is not None and v != t:
                    raise docs.BadDoc(f'a cell with the value {v!r} shows {t!r}')
                f = cell.get(q('table:formula'))
                if f is not None:
                    m = re.fullmatch(r'of:=HYPERLINK\("([^"]*)";"([^"]*)"\)', f)
                    if not m or not m.group(2) == t == cell.get(q('office:string-value')):
                        raise docs.BadDoc(f'a cell with the formula {f!r} shows {t!r}')
                    self.links.append(m.group(1))
            rows.append([docs.cell_text(c).rstrip() for c in docs.expand(copy.deepcopy(r), docs.ODS_COLS[self.suffix])][:docs.ODS_COLS[self.suffix]])
        return rows


COMMENT = re.compile(r'(/\*(?: *@[ef]n\** )?)(?:.*?(\*/)|)', re.DOTALL)


def joined(runs):
    """text of marked runs, in the normal form of docedit.per_line; what delimits comments is not marked itself"""
    text = ''.join(t for m, t in runs)
    marks = [m for m, t in runs for x in t]
    for c in COMMENT.finditer(text):
        for a, b in (c.span(1), c.span(2)):
            marks[max(a, 0):max(b, 0)] = [()] * (b - a)
    out = []
    for m, x in zip(marks, text):
        if x == '\n':
            out.append([(), x])
        elif out and out[-1][0] == m and out[-1][1] != '\n':
            out[-1][1] += x
        else:
            out.append([m, x])
    return ''.join(''.join(f'[{x}]' for x in m) + t + ''.join(f'[/{x}]' for x in reversed(m)) for m, t in out)


def tidy(flow):
    """joins the lines of a text, without blank lines at its end"""
    out = []
    for path, kind, t in flow:
        if kind == 'p' and out and out[-1][1] == 'p' and out[-1][0] == path:
            out[-1][2] += '\n' + t
        else:
            out.append([path, kind, t])
    for x in out:
        if x[1] == 'p':
            x[2] = x[2].rstrip()
    return [x for x in out if x[2] or x[1] != 'p']


# ---------------------------------------------------------------- what a document has to contain
INLINE = re.compile('|'.join(rf'<{c} .+?/{c}>' for c in ('HTM', 'TEX', 'RTF', 'epub', 'mobi', 'rtfimg')) + '|<RTFBRK>')


def formatted(t, suffix):
    t = t or ''
    if suffix == '':
        t = INLINE.sub('', t)
    t = '\n'.join(docedit.per_line(t.rstrip().split('\n')))
    runs, on = [], []
    for x in re.split(r'(\[/?(?:[ib]|lang=[^\]]*)\])', t):
        tag = docedit.TAG.fullmatch(x)
        if tag and not tag.group(1):
            on.append(tag.group(2))
        elif tag and tag.group(2) in on:
            on.remove(tag.group(2))
        else:
            runs.append([tuple(sorted(on)), x])
    t = joined(runs)
    t = re.sub(r'\[/?[hcrsu]\d*\]', '', t)
    if suffix == '':
        t = re.sub(r'/\* *@([ef]n\**) ', r'/*@\1 ', t)
    return t


def scene_flow(c, s, suffix, path):
    x = c['scenes'][s]
    t = squeeze(x.get('Title'))
    text = formatted(x.get('SceneContent'), suffix) if suffix in FORMATTED else x.get('Desc', '')
    if suffix == '_brf_synopsis':
        return [(path, 'p', t)]
    if suffix == '':
        return [(path, 'p', text)]
    if suffix == '_proof':
        return [(path, 'h3', t), (path, 'mark', f'[ScID:{s}]'), (path, 'p', text), (path, 'mark', '[/ScID]')]
    return [(path, 'h3', t), (path + (f'ScID:{s}',), 'p', text)]


def chapters_flow(c, suffix, name):
    out, links = [], []
    want = dict(_notes=1, _todo=2).get(suffix, 0)
    shown = {k.split(':')[1] for k in docedit.carried(c, '_manuscript' if suffix in ('', '_brf_synopsis', '_proof', '_scenes', '_manuscript') else suffix)} if suffix not in ('_chapters', '_parts') else set()
    for ch, d in c['chapters']:
        part = d['level'] == 1
        title = squeeze(d.get('Title'))
        if d.get('suppressTitle') and suffix in ('', '_manuscript', '_notes', '_todo'):
            title = ''
        none = d['scenes'] and all(c['scenes'][s]['noexport'] for s in d['scenes'])
        head = d['type'] == want and not (want == 0 and none)
        path = ()
        if suffix in ('_chapters', '_parts'):
            if head and suffix == '_chapters' and part:
                out.append(((), 'h1', title))
            elif head and part == (suffix == '_parts'):
                path = (f'ChID:{ch}',)
                out.append((path, 'h1' if part else 'h2', title))
                out.append((path, 'p', d.get('Desc', '')))
                links.append(f'../{name}_manuscript.odt#ChID:{ch}|region')
            continue
        if head:
            if suffix in ('_manuscript', '_scenes', '_notes', '_todo'):
                path = (f'ChID:{ch}',)
            out.append((path, 'h1' if part else 'h2', title))
            if suffix == '_scenes' and not part:
                links.append(f'../{name}_manuscript.odt#ChID:{ch}|region')
        first = True
        for s in d['scenes']:
            if s not in shown:
                continue
            if not first and not c['scenes'][s]['append'] and suffix in ('', '_manuscript', '_scenes'):
                out.append((path, 'div', '* * *'))
            first = False
            out.extend(scene_flow(c, s, suffix, path))
    return out, links


def world_flow(c, suffix):
    out = []
    for i, d in c[suffix[1:]]:
        t = d.get('Title', '')
        if suffix == '_characters' and d.get('FullName'):
            t += '/' + d['FullName']
        if d.get('AKA'):
            t += f' ("{d["AKA"]}")'
        out.append(((), 'h2', squeeze(t)))
        if suffix == '_characters':
            for k in ('desc', 'bio', 'goals', 'notes'):
                out.append(((f'CrID:{i}',), 'h3', ''))  # in the user's language
                out.append(((f'CrID:{i}', f'CrID_{k}:{i}'), 'p', d.get(docedit.CR[k], '')))
        else:
            out.append(((('ItID:' if suffix == '_items' else 'LcID:') + i,), 'p', d.get('Desc', '')))
    return out


def xref_flow(c, name):
    out, links = [], []
    order = [(s, k) for k, (ch, d) in enumerate(c['chapters'], 1) for s in d['scenes']]

    def scenes(head, test):
        ls, lk = [], []
        for n, (s, k) in enumerate(order, 1):
            x = c['scenes'][s]
            if test(x):
                ls.append(((), 'mark', squeeze(f'{n} (Ch {k}) {x.get("Title", "")}' + {0: '', 1: ' (Notes)', 2: ' (ToDo)', 3: ' (Unused)'}[x['type']])))
                if x['type'] == 0:
                    lk.append(f'../{name}_manuscript.odt#ScID:{s}|region')
        if ls:
            out.append(((), 'h2', squeeze(head)))
            out.extend(ls)
            links.extend(lk)
    for kind, key, word in (('characters', 'chars', 'Character'), ('locations', 'locs', 'Location'), ('items', 'items', 'Item')):
        for i, d in c[kind]:
            scenes(f'Scenes with {word} {d.get("Title", "")}:', lambda x: i in x[key])
    for t in uniq(t for s, k in order for t in c['scenes'][s]['tags']):
        scenes(f'Scenes tagged {t}:', lambda x: t in x['tags'])
    for kind, word, doc, pre in (('characters', 'Characters', '_characters', 'CrID'), ('locations', 'Locations', '_locations', 'LcID'), ('items', 'Items', '_items', 'ItID')):
        for t in uniq(t for i, d in c[kind] for t in d.get('Tags', [])):
            out.append(((), 'h2', squeeze(f'{word} tagged {t}:')))
            for i, d in c[kind]:
                if t in d.get('Tags', []):
                    out.append(((), 'p', squeeze(d.get('Title', '') + (' ' + d.get('FullName', '') if kind == 'characters' else ''))))
                    links.append(f'../{name}{doc}.odt#{pre}:{i}|region')
    return out, links


def uniq(xs):
    return list(dict.fromkeys(xs))


def expected_flow(c, suffix, name):
    head = [((), 'title', squeeze(c['project'].get('Title'))), ((), 'author', squeeze(c['project'].get('AuthorName')))]
    links = []
    if suffix == '_xref':
        out, links = xref_flow(c, name)
        return tidy(head + out), links
    if suffix in ('_characters', '_items', '_locations'):
        out = world_flow(c, suffix)
    else:
        out, links = chapters_flow(c, suffix, name)
    return tidy(head + out), links


def names(c, kind, ids):
    d = dict(c[kind])
    return ', '.join(d[i].get('Title', '') for i in ids)


def judge_table(c, suffix, rows):
    ids = [k.split(':')[-1] for k in docedit.carried(c, suffix)]
    head, rows = rows[0], [r for r in rows[1:] if any(r)]
    if [r[0] for r in rows] != [docs.ODS_ID[suffix] + i for i in ids]:
        return f'rows {[r[0] for r in rows]} instead of {ids}'
    src = c['scenes'] if suffix == '_scenelist' else dict(c[docedit.LIST[suffix]])
    total = 0
    for n, (i, r) in enumerate(zip(ids, rows), 1):
        d = src[i]
        for col, f in docedit.CELLS[suffix]:
            e = docedit.value_of(d, f)
            if f.startswith('Field') and e == '1':
                e = ''
            if squeeze(r[col]) != squeeze(e) or '\n' in e.strip() and r[col].strip() != e.strip():
                return f'row {r[0]}, column {col}: {r[col]!r} instead of {e!r}'
        if suffix != '_scenelist':
            continue
        if r[9] != str(n):
            return f'row {r[0]} has the number {r[9]} instead of {n}'
        t = d.get('SceneContent', '')
        if not re.search(r'[\[\]/>—–…]|-', t):
            if r[15] != str(len(t.split())):
                return f'row {r[0]}: {r[15]} words instead of {len(t.split())}'
            if r[16] != str(len(t.replace('\n', ''))):
                return f'row {r[0]}: {r[16]} letters instead of {len(t.replace(chr(10), ""))}'
        total += int(r[15])
        if r[10] != str(total):
            return f'row {r[0]}: {r[10]} words in total instead of {total}'
        for col, k, key in ((18, 'characters', 'chars'), (19, 'locations', 'locs'), (20, 'items', 'items')):
            if squeeze(r[col]) != squeeze(names(c, k, d[key])):
                return f'row {r[0]}, column {col}: {r[col]!r} instead of {names(c, k, d[key])!r}'
    if suffix == '_scenelist':
        for k in '1234':
            e = c['project'].get('FieldTitle' + k)
            if e and squeeze(head[10 + int(k)]) != squeeze(e):
                return f'the heading of rating {k} is {head[10 + int(k)]!r} instead of {e!r}'


def judge(c, suffix, name, data):
    """what the document shows otherwise than the project has it"""
    try:
        d = Reader(data, suffix)
        got = d.odt() if EXPORTS[suffix] == '.odt' else d.ods()
    except docs.BadDoc as ex:
        return f'the document is not well-formed: {ex}'
    if d.mime != MIME[EXPORTS[suffix]].encode():
        return f'type {d.mime}'
    for k, tag in (('title', 'Title'), ('description', 'Desc'), ('initial-creator', 'AuthorName')):
        if squeeze(d.meta.get(k)) != squeeze(c['project'].get(tag)):
            return f'the metadata have the {k} {d.meta.get(k)!r} instead of {c["project"].get(tag)!r}'
    if model.plausible(c['lang']) and d.lang is not None and d.lang != c['lang']:
        return f'language {d.lang} instead of {c["lang"]}'
    if EXPORTS[suffix] == '.ods':
        if suffix == '_scenelist':
            links = [unquote(x) for x in d.links]
            ids = [k.split(':')[-1] for k in docedit.carried(c, suffix)]
            if len(links) != len(ids) or not all(x.endswith(f'/{name}_manuscript.odt#ScID:{i}|region') for x, i in zip(links, ids)):
                return f'links {links}'
        return judge_table(c, suffix, got)
    exp, links = expected_flow(c, suffix, name)
    diff = model.diff([list(map(list_, x)) for x in exp], [list(map(list_, x)) for x in got])
    if diff:
        return diff
    if [unquote(x or '') for x in d.links] != links:
        return f'links {d.links} instead of {links}'
    if any(squeeze(x) != squeeze(c['project'].get('AuthorName')) for x in d.creators):
        return f'comments of {d.creators} instead of {c["project"].get("AuthorName")!r}'
    if suffix == '' and d.labels != [str(i) for i in range(1, len(d.labels) + 1)]:
        return f'notes numbered {d.labels}'


def list_(x):
    return list(x) if isinstance(x, tuple) else x


# ---------------------------------------------------------------- texts
def plain(g, n=8):
    return g.line(n).replace('/*', '/ *').replace('*/', '* /')


def rich(r, g):
    """A text the way yWriter users write it: markup, comments, notes, quotations, lists, foreign words, codes"""
    out = []
    for _ in range(r.choice([1, 1, 2, 3, 4, 6])):
        s = plain(g)
        k = r.random()
        if k < 0.12:
            s = '> ' + s
        elif k < 0.2:
            s = '- ' + s
        elif k < 0.25:
            s = ''
        if s and r.random() < 0.3:
            m = r.choice(['i', 'b', 'i', 'b', 'lang=fr-FR', 'lang=la', 'lang=en-AU'])
            s += f' [{m}]{plain(g, 3)}[/{m}]' + r.choice(['', ' ' + plain(g, 2)])
            if r.random() < 0.2:
                s += f' [i]{plain(g, 2)} [b]{plain(g, 1)}[/b] {plain(g, 1)}[/i]'
        if s and r.random() < 0.15:
            s += f' /*{r.choice(["", "", "@fn ", "@en ", "@fn* ", " @fn "])}{plain(g, 4)}*/' + r.choice(['', '.', ' ' + plain(g, 2)])
        if s and r.random() < 0.05:
            s += f' /*{plain(g, 3)}\n{plain(g, 3)}*/'
        if s and r.random() < 0.05:
            s = f'/*{plain(g, 3)}*/' + r.choice(['', ' ']) + s.lstrip('> ')
        if s and r.random() < 0.03:
            s += ' ' + r.choice(['<HTML>', '<TEX>'])
        if r.random() < 0.05:
            t = r.choice(['h1', 'c', 'r', 's', 'u'])
            s = f'[{t}]{s}[/{t}]'
        if s and r.random() < 0.05:
            s += r.choice([' <HTM <br> /HTM>', ' <RTFBRK>', ' <TEX \\x /TEX>']) + ' ' + plain(g, 2)
        out.append(s)
    if r.random() < 0.1 and len(out) > 1:
        # markup over several lines
        i = r.randrange(len(out) - 1)
        if not any('[' in x or '/*' in x for x in out[i:i + 2]) and all(x.strip() for x in out[i:i + 2]) and not out[i + 1].startswith('> '):
            m = r.choice('ib')
            out[i] = out[i] + f' [{m}]x'
            out[i + 1] = f'y[/{m}] ' + out[i + 1]
    k = r.random()
    w = lambda n=3: plain(g, n)
    m, n = r.choice(['ib', 'bi', ['lang=la', 'i'], ['b', 'lang=fr-FR']])
    if k < 0.03:
        out.append(f'{w()} [{m}]{w()} /*{w()}[/{m}] {w()}*/ {w()}')
    elif k < 0.06:
        out.append(f'{w()} /*{w()}[{m}] {w()}*/ {w()}[/{m}] {w()}')
    elif k < 0.09:
        out.append(f'{w()} [{m}]{w()} [{n}]{w()}[/{m}] {w()}[/{n}] {w()}')
    elif k < 0.12:
        out += [f'{w()} [{m}]x', '> ' + w(), f'> y[/{m}] {w()}']
    elif k < 0.15:
        out += [f'[{m}]x /*{w()}', f'{w()}*/ y[/{m}] {w()}']
    elif k < 0.17:
        out.insert(0, f'/*{w()}*/ {w()} /*{w()}*/' + r.choice(['', '> ']) + w())
    elif k < 0.19:
        out.append(f'[{m}]{w()}')
    elif k < 0.2:
        out.append(f'{w()} [lang="fr-FR"]{w()}[/lang="fr-FR"] {w()}')
    t = '\n'.join(out)
    if r.random() < 0.06:
        # no comments: a part of one
        t = plain(g, 3) + r.choice([' /* ', ' */ ', ' /*@fn ', '/*']) + plain(g, 3)
    return t


def enrich(tree, r, g):
    for sec, tag in (('CHARACTERS', 'CHARACTER'), ('LOCATIONS', 'LOCATION'), ('ITEMS', 'ITEM')):
        ids = [ywstub.text(x, 'ID') for x in ywstub.members(tree, sec)]
        if ids and r.random() < 0.2:
            top = max(int(x) for x in ids)
            for k in range(1, r.choice([2, 4, 8])):
                ywstub.child(tree, sec)[1].append([tag, [['ID', str(top + k)], ['Title', plain(g, 2)]]])
    for m in ywstub.members(tree, 'SCENES'):
        if r.random() < 0.6:
            ywstub.set_child(m, 'SceneContent', rich(r, g))
        elif r.random() < 0.05:
            ywstub.set_child(m, 'SceneContent', r.choice(['<HTML>', '<TEX>']) + plain(g))
        for sec, box, it in (('CHARACTERS', 'Characters', 'CharID'), ('LOCATIONS', 'Locations', 'LocID'), ('ITEMS', 'Items', 'ItemID')):
            ids = [ywstub.text(x, 'ID') for x in ywstub.members(tree, sec)]
            if len(ids) > 3 and r.random() < 0.3:
                r.shuffle(ids)
                e = ywstub.child(m, box)
                if e is not None:
                    e[1] = [[it, x] for x in ids]


# ---------------------------------------------------------------- plans
def plan(seed, tier, prop):
    b = Builder(seed, level=random.Random(h64(seed, 'lv')).choice(['plain', 'medium', 'medium', 'hard']))
    r = b.r
    b.plan['prjs'] = []
    for k in range(r.choice([1, 1, 2])):
        t = b.tree()
        b.place()
        while b.base.endswith(tuple(IMPORTS)) or b.prj in b.plan['files']:
            b.place()
        enrich(b.plan['trees'][t], r, gen.Gen(h64(seed, 'rich', k), b.level))
        b.add_project(t)
        b.plan['prjs'].append(b.prj)
    b.plan['dirs'] = sorted({os.path.dirname(p) for p in b.plan['prjs']} | {'/sim/work'})
    b.plan['prj'] = b.plan['prjs'][0]
    b.plan['markup'] = True
    steps = b.plan['steps']
    sufs = [r.choice(sorted(EXPORTS)) for _ in range(r.choice([1, 2, 3]))]
    for k in range(r.choice([1, 2, 2, 3, 4, 5] if tier == 'quick' else [2, 4, 6, 9, 14])):
        n = r.randrange(len(b.plan['prjs']))
        prog = r.choice([0, 0, 0, 1])
        s = r.choice(sufs) if r.random() < 0.7 else r.choice(sorted(EXPORTS))
        x = r.random()
        if x < 0.3 and k:
            steps.append(dict(t='ywedit', prj=n, pick=r.randrange(1 << 30), n=r.randint(1, 4), rich=r.randrange(1 << 30) if r.random() < 0.5 else None))
        elif x < 0.45 and k:
            steps.append(dict(t='reimport', prj=n, prog=prog, suffix=s, pick=r.randrange(1 << 30)))
        st = dict(t='export', suffix=s, prog=prog, prj=n)
        if r.random() < 0.5:
            st['keep'] = True
        if r.random() < 0.2:
            f = dict(st)
            f['faults'] = [dict(at=r.randrange(60), kind=r.choice(KINDS), frac=round(r.random(), 3))]
            steps.append(f)
        if r.random() < 0.2:
            st['short'] = r.randrange(1 << 30)
        steps.append(st)
        if r.random() < 0.1:
            steps.append(dict(t='restart', prog=prog))
    return b.plan


class Exports(histories.History):
    def v(self, prop, text):
        self.viol.append(Violation('C24', self.i, text))

    def run(self):
        self.w.setup()
        self.stats.update(shown=0, elements=0, disturbed=0)
        self.all = {}
        for self.i, st in enumerate(self.plan['steps']):
            if 'prj' in st:
                self.prj = self.plan['prjs'][st['prj']]
                self.slots = self.all.setdefault(st['prj'], {})
            getattr(self, 'do_' + st['t'])(st)
            if self.viol:
                break
        return self

    def do_ywedit(self, st):
        if 'ops' not in st and self.fresh:
            data = K.fs.get(self.prj)
            g = gen.Gen(h64(st['pick'], 'y'), 'medium')
            tree = ywstub.parse(data)
            ops = copy.deepcopy(g.edits(tree, st['n']))
            if st.get('rich') is not None:
                r = random.Random(st['rich'])
                ids = [ywstub.text(m, 'ID') for m in ywstub.members(tree, 'SCENES')]
                if ids:
                    ops.append(['set', 'SCENES', r.choice(ids), 'SceneContent', rich(r, gen.Gen(h64(st['rich'], 'x'), 'medium'))])
            st['ops'] = ops
        super().do_ywedit(st)

    def do_reimport(self, st):
        """the project is changed by importing a document that has been exported before"""
        s = st['suffix']
        if s not in IMPORTS or K.fs.get(self.path(s)) is None:
            return
        p = self.w.program(st['prog'])
        before = K.fs.get(self.prj)
        out = lab.convert(p, self.path(s), '', conv=self.w.keepers.get(st['prog']))
        self.brief.append(f'{self.i}: import {s} -> {out.brief()[:140]}')
        if not out.ok:
            K.fs.put(self.prj, before)

    def do_export(self, st):
        s = st['suffix']
        c = self.canon()
        seen = [x for ch, d in c['chapters'] for x in d['scenes']]
        if len(set(seen)) != len(seen):
            raise Skip('a scene is in several chapters')
        p = self.w.program(st['prog'])
        if st.get('faults'):
            p.faults = {p.nops + f['at']: dict(f) for f in st['faults']}
            keep = None if self.w.keepers.get(st['prog']) or not st.get('keep') else []
            out = lab.convert(p, self.prj, s, conv=self.w.keepers.get(st['prog']) if st.get('keep') else None, keep=keep)
            if keep:
                self.w.keepers[st['prog']] = keep[0]
            p.faults = {}
            self.stats['disturbed'] += 1
            self.brief.append(f'{self.i}: export {s} {st["faults"]} -> {out.brief()[:140]}')
            if out.crashed:
                self.w.programs.pop(st['prog'], None)
                self.w.keepers.pop(st['prog'], None)
        else:
            out = self.convert(st, self.prj, s)
            self.stats['exports'] += 1
        if not out.ok:
            if not st.get('faults'):
                self.v('', f'export as {s} failed: {out.brief()[:200]}')
            return
        data = K.fs.get(self.path(s))
        if data is None:
            self.v('', f'export as {s} is reported as successful, but there is no document')
            return
        name = os.path.basename(self.prj)[:-4]
        d = judge(c, s, name, data)
        self.stats['shown'] += 1
        self.states.add(h64(s, tuple((x['type'], x['level'], tuple((c['scenes'][y]['type'], c['scenes'][y]['noexport'], c['scenes'][y]['append']) for y in x['scenes'])) for i, x in c['chapters'])))
        if d:
            self.v('', f'export as {s or "manuscript without tags"}: {d}')


def execute(prop, plan, fresh, res):
    h = Exports(prop, plan, fresh)
    res.brief = h.brief
    try:
        h.run()
    finally:
        res.stats, res.states, res.viol = h.stats, h.states, h.viol
