"""What a project file means, determined independently of the code under test.

canon(data) maps the bytes of a .yw7 file to a plain comparable structure in which
everything that has no meaning for the user (element order inside a scene, byte order
mark, word counts, "saved with" marks ...) is normalised away.
"""
from .ywstub import parse, kids, child, text, members, BadProject  # noqa

DROP_PROJECT = {'SavedWith', 'SavedOn', 'Ver'}
DROP_SCENE = {'WordCount', 'LetterCount', 'RTFFile', 'BelongsToChID', 'SortOrder'}
SCN_SPECIAL = {'ID', 'Unused', 'Fields', 'ExportCondSpecific', 'ExportWhenRTF', 'Tags', 'AppendToPrev', 'SpecificDateTime', 'SpecificDateMode', 'Day', 'Hour',
               'Minute', 'ReactionScene', 'SubPlot', 'Characters', 'Locations', 'Items'}
CHP_SPECIAL = {'ID', 'Unused', 'Fields', 'Type', 'ChapterType', 'SectionStart', 'SortOrder', 'Scenes'}
WORLD = ('Title', 'ImageFile', 'Desc', 'AKA')
CHARACTER = ('Title', 'Desc', 'ImageFile', 'Notes', 'AKA', 'Bio', 'Goals', 'FullName')
LANGVARS = ('Language', 'Country')


def norm(t):
    return '' if t is None else t.replace('\r\n', '\n').replace('\r', '\n').rstrip('\n')


def tags(t):
    out = []
    for x in (t or '').split(';'):
        x = x.strip()
        if x and x not in out:
            out.append(x)
    return out


def plain(node, drop):
    """dict of leaf texts (empty ones omitted); repeated elements become lists; nested ones recursive."""
    out = {}
    for c in kids(node):
        if c[0] in drop:
            continue
        v = [x for x in kids(c)] if isinstance(c[1], list) else norm(c[1])
        if isinstance(c[1], list):
            v = plain(c, ())
        if v in ('', {}):
            continue
        if c[0] in out:
            o = out[c[0]]
            out[c[0]] = (o if isinstance(o, list) else [o]) + [v]
        else:
            out[c[0]] = v
    return out


def fields(node, drop=()):
    out = {}
    for c in kids(node):
        if c[0] == 'Fields':
            for k in kids(c):
                v = norm(k[1] if isinstance(k[1], str) else None)
                if v and k[0] not in drop:
                    out[k[0]] = v
    return out


def scene_type(m):
    t = 0
    f = fields(m).get('Field_SceneType')
    if f == '1':
        t = 1
    elif f == '2':
        t = 2
    if t == 0 and child(m, 'Unused') is not None:
        t = 3
    return t


def chapter_type(m):
    unused = child(m, 'Unused') is not None
    ct = child(m, 'ChapterType')
    if ct is not None:
        if ct[1] == '2':
            return 2
        if ct[1] == '1':
            return 1
        return 3 if unused else 0
    t = child(m, 'Type')
    if t is not None:
        if t[1] == '1':
            return 1
        return 3 if unused else 0
    return 0


def refs(m, listtag, tag, known):
    out = []
    lst = child(m, listtag)
    if lst is not None:
        for c in kids(lst):
            if c[0] == tag and c[1] in known:
                out.append(c[1])
    return out


def when(m):
    s = text(m, 'SpecificDateTime')
    if s is not None:
        d, _, t = s.strip().partition(' ')
        t = t or '00:00:00'
        if t.count(':') == 1:
            t += ':00'
        return ['at', d, t]
    day, h, mi = text(m, 'Day'), text(m, 'Hour'), text(m, 'Minute')
    if day in (None, '') and h is None and mi is None:
        return None
    if h is None and mi is None:
        return ['day', day, None]
    return ['day', day or None, f'{(h or "00").zfill(2)}:{(mi or "00").zfill(2)}']


def canon_tree(tree):
    c = {}
    p = child(tree, 'PROJECT')
    c['project'] = plain(p, DROP_PROJECT | {'Fields'})
    pf = fields(p)
    legacy = [pf.pop('Field_LanguageCode', None), pf.pop('Field_CountryCode', None)]
    c['project_fields'] = pf
    lng = [None, None]
    langs = set()
    c['vars'] = []
    for v in members(tree, 'PROJECTVARS'):
        t = norm(text(v, 'Title'))
        if t == 'Language':
            lng[0] = norm(text(v, 'Desc')) or None
        elif t == 'Country':
            lng[1] = norm(text(v, 'Desc')) or None
        elif t.startswith('lang=') or t.startswith('/lang='):
            langs.add(t)
        else:
            c['vars'].append(plain(v, ()))
    c['lang'] = [lng[0] or legacy[0], lng[1] or legacy[1]]
    c['langs'] = sorted(langs)
    c['notes'] = [[norm(text(n, 'ID')), norm(text(n, 'Title')), norm(text(n, 'Desc'))] for n in members(tree, 'PROJECTNOTES')]
    known = {}
    for key, sec in (('locations', 'LOCATIONS'), ('items', 'ITEMS'), ('characters', 'CHARACTERS')):
        lst = []
        for m in members(tree, sec):
            d = {}
            for tag in (CHARACTER if key == 'characters' else WORLD):
                t = norm(text(m, tag))
                if t:
                    d[tag] = t
            tg = tags(text(m, 'Tags'))
            if tg:
                d['Tags'] = tg
            if key == 'characters':
                d['Major'] = child(m, 'Major') is not None
            f = fields(m)
            for k in (('Field_Link', 'Field_BirthDate', 'Field_DeathDate') if key == 'characters' else ('Field_Link',)):
                if k in f:
                    d[k] = f[k]
            lst.append([text(m, 'ID'), d])
        c[key] = lst
        known[key] = {i for i, d in lst}
    chtype = {}
    c['chapters'] = []
    scids = {text(m, 'ID') for m in members(tree, 'SCENES')}
    for m in members(tree, 'CHAPTERS'):
        d = plain(m, CHP_SPECIAL)
        f = fields(m)
        ct = chapter_type(m)
        d['type'] = ct
        d['level'] = 1 if child(m, 'SectionStart') is not None else 0
        st = f.pop('Field_SuppressChapterTitle', None) == '1' or d.get('Title', '').startswith('@')
        d['suppressTitle'] = st
        d['suppressBreak'] = f.pop('Field_SuppressChapterBreak', None) == '1'
        d['trash'] = f.pop('Field_IsTrash', None) == '1'
        d['fields'] = f
        d['scenes'] = refs(m, 'Scenes', 'ScID', scids)
        for s in d['scenes']:
            if ct != 0:
                chtype[s] = ct
        c['chapters'].append([text(m, 'ID'), d])
    c['scenes'] = {}
    for m in members(tree, 'SCENES'):
        sid = text(m, 'ID')
        d = plain(m, DROP_SCENE | SCN_SPECIAL)
        f = fields(m, ('Field_SceneType',))
        if f.get('Field_SceneMode') == '0':
            del f['Field_SceneMode']
        d['fields'] = f
        d['type'] = chtype.get(sid, scene_type(m))
        d['noexport'] = child(m, 'ExportCondSpecific') is not None and child(m, 'ExportWhenRTF') is None
        d['tags'] = tags(text(m, 'Tags'))
        d['append'] = child(m, 'AppendToPrev') is not None
        d['reaction'] = child(m, 'ReactionScene') is not None
        d['subplot'] = child(m, 'SubPlot') is not None
        d['when'] = when(m)
        d['chars'] = refs(m, 'Characters', 'CharID', known['characters'])
        d['locs'] = refs(m, 'Locations', 'LocID', known['locations'])
        d['items'] = refs(m, 'Items', 'ItemID', known['items'])
        c['scenes'][sid] = d
    c['other'] = [[k[0], plain(k, ())] for k in kids(tree) if k[0] not in
                  ('PROJECT', 'LOCATIONS', 'ITEMS', 'CHARACTERS', 'PROJECTNOTES', 'PROJECTVARS', 'SCENES', 'CHAPTERS') and plain(k, ())]
    return c


def canon(data):
    return canon_tree(parse(data))


def loadable(data):
    try:
        parse(data)
        return True
    except BadProject:
        return False


def plausible(lang):
    return bool(lang[0] and lang[1] and len(lang[0]) == 2 and len(lang[1]) == 2)


def diff(a, b, path=''):
    """First difference of two canonical structures as text, or None."""
    if type(a) is not type(b):
        return f'{path}: {short(a)} -> {short(b)}'
    if isinstance(a, dict):
        for k in sorted(set(a) | set(b), key=str):
            if k not in a:
                return f'{path}/{k}: added {short(b[k])}'
            if k not in b:
                return f'{path}/{k}: lost {short(a[k])}'
            d = diff(a[k], b[k], f'{path}/{k}')
            if d:
                return d
        return None
    if isinstance(a, list):
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, f'{path}[{i}]')
            if d:
                return d
        if len(a) != len(b):
            return f'{path}: {len(a)} elements -> {len(b)}: {short(a)} -> {short(b)}'
        return None
    if a != b:
        return f'{path}: {short(a)} -> {short(b)}'
    return None


def short(v):
    s = repr(v)
    return s if len(s) <= 120 else s[:80] + ' ... ' + s[-30:]


def same_meaning(a, b):
    """Difference between project meaning a (before saving) and b (after), tolerating what a save may add."""
    a, b = dict(a), dict(b)
    la, lb = a.pop('lang'), b.pop('lang')
    ga, gb = a.pop('langs'), b.pop('langs')
    if plausible(la) and la != lb:
        return f'/lang: {la} -> {lb}'
    if not set(ga) <= set(gb):
        return f'/langs: {ga} -> {gb}'
    return diff(a, b)
