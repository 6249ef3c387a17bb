"""Generation of the user's edits of an exported document, and their meaning for the project (oracle of C14/C15).

edits(r, g, tree, suffix, n, lo)  -> list of docs.edit operations
expected(canon, suffix, edits)    -> the project meaning after importing the edited document
"""
import copy
import random
import re

from . import docs, model
from .ywstub import members, text, child, kids

FIELDS = dict(  # document type -> (section key prefix, what it carries)
    _manuscript=('ScID', 'SceneContent'), _proof=('ScID', 'SceneContent'), _notes=('ScID', 'SceneContent'), _todo=('ScID', 'SceneContent'), _scenes=('ScID', 'Desc'),
    _chapters=('ChID', 'Desc'), _parts=('ChID', 'Desc'), _characters=('CrID', None), _items=('ItID', 'Desc'), _locations=('LcID', 'Desc'))
CR = dict(desc='Desc', bio='Bio', goals='Goals', notes='Notes')
CELLS = dict(_charlist=[(1, 'Title'), (2, 'FullName'), (3, 'AKA'), (4, 'Desc'), (5, 'Bio'), (6, 'Goals'), (7, 'Major'), (8, 'Tags'), (9, 'Notes')],
             _loclist=[(1, 'Title'), (2, 'Desc'), (3, 'AKA'), (4, 'Tags')], _itemlist=[(1, 'Title'), (2, 'Desc'), (3, 'AKA'), (4, 'Tags')],
             _scenelist=[(1, 'Title'), (2, 'Desc'), (3, 'tags'), (4, 'Notes'), (5, 'reaction'), (6, 'Goal'), (7, 'Conflict'), (8, 'Outcome'), (11, 'Field1'), (12, 'Field2'), (13, 'Field3'), (14, 'Field4'),
                         (17, 'Status')])
STATUS = ['Outline', 'Draft', '1st Edit', '2nd Edit', 'Done']
FORMATTED = ('_manuscript', '_proof', '_notes', '_todo')
LIST = dict(_charlist='characters', _loclist='locations', _itemlist='items', _characters='characters', _items='items', _locations='locations')
MULTI = {'Desc', 'Bio', 'Goals', 'Notes', 'Goal', 'Conflict', 'Outcome'}


def carried(c, suffix):
    """Keys of what a document of this type shows, from the canonical project."""
    out = []
    if suffix in ('_characters',):
        return [f'CrID_{k}:{i}' for i, d in c['characters'] for k in CR]
    if suffix in ('_items',):
        return [f'ItID:{i}' for i, d in c['items']]
    if suffix in ('_locations',):
        return [f'LcID:{i}' for i, d in c['locations']]
    if suffix in ('_charlist', '_loclist', '_itemlist'):
        return [i for i, d in c[LIST[suffix]]]
    want = dict(_notes=1, _todo=2).get(suffix, 0)
    for ch, d in c['chapters']:
        live = [s for s in d['scenes']]
        none = live and all(c['scenes'][s]['noexport'] for s in live)
        if suffix in ('_chapters', '_parts'):
            if d['type'] == 0 and not none and (d['level'] == 1) == (suffix == '_parts'):
                out.append(f'ChID:{ch}')
            continue
        for s in live:
            x = c['scenes'][s]
            if suffix in ('_notes', '_todo'):
                if x['type'] == want and d['type'] in (want, 0):
                    out.append(f'ScID:{s}')
            elif d['type'] == 0 and x['type'] == 0 and not none and not x['noexport'] and not x.get('SceneContent', '').startswith(('<HTML>', '<TEX>')):
                out.append(f'ScID:{s}')
    return out


def line(g, n=9):
    return g.line(n).replace('/*', '/ *').replace('*/', '* /').strip() or 'x'


def runs(r, g, markup, notes=False):
    """What a user types into a paragraph: text with line breaks and tabs, with directly formatted or foreign words (markup), comments and footnotes (notes)"""
    s = line(g)
    k = r.random()
    if markup and k < 0.3:
        return [s + ' ', [r.choice(['i', 'b', 'i', 'b', 'TI', 'TB', 'TIB', 'TIU', 'TU', 'L:fr-FR', 'L:en-AU', 'L:la']), line(g, 2)], ' ' + line(g, 3)]
    if markup and k < 0.36:
        return [s + ' ', ['TIB', line(g, 2)], r.choice(['', ' ']), [r.choice(['i', 'TB', 'TU']), line(g, 2)], ' ' + line(g, 2)]
    if notes and 0.4 < k < 0.5:
        n = [r.choice(['note', 'note', 'fn', 'en']), line(g, 4).replace('~', '-')]
        if r.random() < 0.4:
            n += [r.choice(['PI', 'Quotations', 'Footnote'])]
            if r.random() < 0.5:
                n += [r.choice(['TI', 'L_fr-FR', 'T9x'])]
        return [s, n, r.choice(['.', ' ' + line(g, 2)])]
    if 0.5 < k < 0.6:
        return [s + r.choice(['\n', '\t', '\n', ' \n']) + line(g, 3)]
    return [s]


def style(r, formatted):
    """the style of a new paragraph"""
    if formatted:
        return r.choice(['Quotations', 'PQ', 'li', 'PI', 'PB', 'Standard'])
    return r.choice(['Quotations', 'PQ', 'li', 'Standard'])


def edits(r, g, tree, suffix, n=2, lo=0.3, markup=False):
    c = tree if isinstance(tree, dict) else model.canon_tree(tree)
    out = []
    keys = carried(c, suffix)
    if suffix in FIELDS:
        notes = suffix in FORMATTED
        for _ in range(n if keys else 0):
            key = r.choice(keys)
            k = r.choice(['set', 'set', 'ins', 'del', 'all'])
            if k == 'set':
                out.append(['set', key, r.randrange(12), runs(r, g, markup, notes)])
            elif k == 'ins':
                out.append(['ins', key, r.randrange(12), runs(r, g, markup, notes)])
                if r.random() < 0.25:
                    out[-1].append(style(r, notes and markup))
            elif k == 'del':
                out.append(['del', key, r.randrange(12)])
            else:
                ps = [runs(r, g, markup, notes) for _ in range(r.randint(1, 4))]
                out.append(['all', key, [dict(st=style(r, notes and markup), runs=p) if r.random() < 0.15 else p for p in ps]])
    else:
        ids = list(keys)
        for _ in range(n if ids else 0):
            k = r.choice(['cell', 'cell', 'cell', 'cell', 'delrow', 'mvrow', 'addrow'] if suffix != '_scenelist' else ['cell'])
            if k == 'cell':
                col, f = r.choice(CELLS[suffix])
                out.append(['cell', r.choice(ids), col, cell_value(r, g, f)])
            elif k == 'delrow' and len(ids) > 1:
                i = ids.pop(r.randrange(len(ids)))
                out.append(['delrow', i])
            elif k == 'mvrow':
                out.append(['mvrow', r.choice(ids), r.randrange(9)])
            elif k == 'addrow':
                i = str(r.randint(900, 999))
                if i not in ids:
                    out.append(['addrow', i, r.randrange(9), [cell_value(r, g, f) for col, f in CELLS[suffix]]])
                    ids.append(i)
    if r.random() < lo:
        out.append(['lo', r.randrange(1 << 30)])
    return out


def cell_value(r, g, f):
    if f in ('Major',):
        return r.choice(['Major', 'Minor'])
    if f in ('reaction',):
        return r.choice(['R', 'A'])
    if f in ('Tags', 'tags'):
        return ', '.join(dict.fromkeys(g.tag().replace(',', '') for _ in range(r.randint(0, 3))))
    if f.startswith('Field'):
        return r.choice(['', '1', '2', '5', '10'])
    if f == 'Status':
        return r.choice(STATUS)
    if f in MULTI:
        return '' if r.random() < 0.15 else '\n'.join(line(g) for _ in range(r.randint(1, 3)))
    return line(g, 4)


# ---------------------------------------------------------------- meaning
TAG = re.compile(r'\[(/?)([ib]|lang=[^\]]*)\]')


def per_line(lines, show_open=False):
    """The lines, each one with its own complete i and b markup, in a normal form"""
    out, on = [], []
    for ln in lines:
        head = ''
        if ln.startswith('> '):
            head, ln = '> ', ln[2:]
        runs = []  # [marks, text]
        for tok in re.split(r'(\[/?(?:[ib]|lang=[^\]]*)\])', ln):
            tag = TAG.fullmatch(tok)
            if tag and not tag.group(1):
                if tag.group(2) not in on:
                    on.append(tag.group(2))
            elif tag and tag.group(2) in on:
                on.remove(tag.group(2))
            elif tok:
                m = sorted(on)
                if runs and runs[-1][0] == m:
                    runs[-1][1] += tok
                else:
                    runs.append([m, tok])
        out.append(head + ''.join(''.join(f'[{x}]' for x in m) + t + ''.join(f'[/{x}]' for x in reversed(m)) for m, t in runs))
    if show_open and on:
        out.append('(markup still open at the end)')
    return out


def get_text(c, key, suffix):
    kind, _, i = key.partition(':')
    if kind.startswith('CrID_'):
        return dict(c['characters'])[i].get(CR[kind[5:]], '')
    if kind in ('ItID', 'LcID'):
        return dict(c['items' if kind == 'ItID' else 'locations'])[i].get('Desc', '')
    if kind == 'ChID':
        return dict(c['chapters'])[i].get('Desc', '')
    return c['scenes'][i].get('Desc' if suffix == '_scenes' else 'SceneContent', '')


def set_text(c, key, suffix, t):
    kind, _, i = key.partition(':')
    if kind.startswith('CrID_'):
        d, f = dict(c['characters'])[i], CR[kind[5:]]
    elif kind in ('ItID', 'LcID'):
        d, f = dict(c['items' if kind == 'ItID' else 'locations'])[i], 'Desc'
    elif kind == 'ChID':
        d, f = dict(c['chapters'])[i], 'Desc'
    else:
        d, f = c['scenes'][i], 'Desc' if suffix == '_scenes' else 'SceneContent'
    t = t.strip() if suffix == '_proof' else t.rstrip()
    if t:
        d[f] = t
    else:
        d.pop(f, None)


def expected(doc_canon, canon, suffix, ops):
    """Meaning after the import: canon (the project at import time) with everything the document carries
    as exported from doc_canon (the project at export time) and edited by ops."""
    c = copy.deepcopy(canon)
    keys = carried(doc_canon, suffix)
    if suffix in FIELDS:
        formatted = suffix in FORMATTED

        def new(st, runs):
            """a paragraph: [prefix given by its style, style, text]"""
            pre = ('> ' if st in docs.QUOTES else '- ' if st == 'li' else '') if formatted else ''
            return [pre, st, docs.runs_text(runs, (st or None) if formatted else '')]
        txt = {}
        for k in keys:
            txt[k] = [['', None, x] for x in (per_line if formatted else list)(get_text(doc_canon, k, suffix).rstrip().split('\n'))]
            if suffix in ('_manuscript', '_notes', '_todo'):
                # paragraphs exported with the style "Quotations"
                txt[k] = [['> ', 'Quotations', x[2:]] if x.startswith('> ') else [p, st, x] for p, st, x in txt[k]]
        for e in ops:
            if e[0] == 'lo':
                continue
            ls = txt.get(e[1])
            if ls is None:
                continue
            if e[0] == 'set':
                i = e[2] % len(ls)
                # the paragraph keeps its style
                ls[i] = new(ls[i][1], e[3])
            elif e[0] == 'ins':
                ls.insert(e[2] % (len(ls) + 1), new(e[4] if len(e) > 4 else None, e[3]))
            elif e[0] == 'del':
                if len(ls) > 1:
                    del ls[e[2] % len(ls)]
            elif e[0] == 'all':
                txt[e[1]] = [new(x['st'], x['runs']) if isinstance(x, dict) else new(None, x) for x in e[2]]
        for k in keys:
            set_text(c, k, suffix, '\n'.join(p + x for p, st, x in txt[k]))
        return c
    # spreadsheets
    if suffix == '_scenelist':
        rows = [[k.split(':')[1], None] for k in keys]
    else:
        rows = [[k, None] for k in keys]
    src = doc_canon['scenes'] if suffix == '_scenelist' else dict(doc_canon[LIST[suffix]])
    for row in rows:
        d = src[row[0]]
        row[1] = {f: value_of(d, f) for col, f in CELLS[suffix]}
    for e in ops:
        if e[0] == 'cell':
            f = dict(CELLS[suffix])[e[2]]
            for i, v in rows:
                if i == e[1]:
                    v[f] = e[3]
        elif e[0] == 'delrow':
            rows = [x for x in rows if x[0] != e[1]]
        elif e[0] == 'mvrow':
            mv = [x for x in rows if x[0] == e[1]]
            rest = [x for x in rows if x[0] != e[1]]
            if mv and rest:
                n = e[2] % (len(rest) + 1)
                rest.insert(n, mv[0])
                rows = rest
        elif e[0] == 'addrow':
            n = e[2] % (len(rows) + 1)
            rows.insert(n, [e[1], {f: v for (col, f), v in zip(CELLS[suffix], e[3])}])
    if suffix == '_scenelist':
        for i, v in rows:
            if i in c['scenes']:
                for f, x in v.items():
                    put_value(c['scenes'][i], f, x)
        return c
    key = LIST[suffix]
    old = dict(c[key])
    new = []
    for i, v in rows:
        d = old.get(i, dict(Major=False) if key == 'characters' else {})
        for f, x in v.items():
            put_value(d, f, x)
        new.append([i, d])
    c[key] = new
    alive = {i for i, d in new}
    ref = dict(characters='chars', locations='locs', items='items')[key]
    for s in c['scenes'].values():
        s[ref] = [x for x in s[ref] if x in alive]
    return c


def split_tags(x):
    return list(dict.fromkeys(t.strip() for t in x.split(',') if t.strip()))


def mask(c, suffix, keys):
    """(what the document carries, everything else) of a canonical project"""
    c = copy.deepcopy(c)
    got = {}
    if suffix in FIELDS:
        for k in keys:
            try:
                got[k] = get_text(c, k, suffix)
            except KeyError:
                got[k] = None
                continue
            kind, _, i = k.partition(':')
            if kind.startswith('CrID_'):
                dict(c['characters'])[i].pop(CR[kind[5:]], None)
            elif kind in ('ItID', 'LcID'):
                dict(c['items' if kind == 'ItID' else 'locations'])[i].pop('Desc', None)
            elif kind == 'ChID':
                dict(c['chapters'])[i].pop('Desc', None)
            else:
                c['scenes'][i].pop('Desc' if suffix == '_scenes' else 'SceneContent', None)
    elif suffix == '_scenelist':
        for k in keys:
            i = k.split(':')[1]
            if i in c['scenes']:
                d = c['scenes'][i]
                got[i] = {f: d.pop(f, [] if f == 'tags' else False if f == 'reaction' else None) for col, f in CELLS[suffix]}
            else:
                got[i] = None
    else:
        key = LIST[suffix]
        got['order'] = [i for i, d in c[key]]
        for i, d in c[key]:
            got[i] = {f: d.pop(f, None) for col, f in CELLS[suffix]}
        # rows added to or removed from the table
        if keys is not None:
            alive = set(keys)
            c[key] = sorted([i, d] for i, d in c[key] if i in alive)
            ref = dict(characters='chars', locations='locs', items='items')[key]
            for s in c['scenes'].values():
                got['refs ' + str(id(s))] = None
                s[ref] = [x for x in s[ref] if x in alive]
            got = {k: v for k, v in got.items() if not k.startswith('refs ')}
    return got, c


def value_of(d, f):
    if f == 'Major':
        return 'Major' if d.get('Major') else 'Minor'
    if f == 'reaction':
        return 'R' if d.get('reaction') else 'A'
    if f in ('Tags', 'tags'):
        return ', '.join(d.get(f, []))
    if f == 'Status':
        return STATUS[int(d['Status']) - 1] if d.get('Status') else ''
    return d.get(f, '')


def put_value(d, f, x):
    if f == 'Major':
        d['Major'] = 'Major' in x
    elif f == 'reaction':
        d['reaction'] = 'r' in x.lower()
    elif f == 'tags':
        d['tags'] = split_tags(x)
    elif f == 'Tags':
        d.pop('Tags', None)
        if split_tags(x):
            d['Tags'] = split_tags(x)
    elif f == 'Status':
        if x in STATUS:
            d['Status'] = str(STATUS.index(x) + 1)
    elif f.startswith('Field'):
        d[f] = x if x in [str(i) for i in range(1, 11)] else '1'
    else:
        x = x.rstrip()
        if x:
            d[f] = x
        else:
            d.pop(f, None)
