"""C16, C20: applications that keep projects open - reading, re-reading, changing, saving, any number of times and together with other programs."""
import copy
import random
import re
import xml.etree.ElementTree as ET

from . import gen, kernel, lab, model, ywstub
from .kernel import K, FS, h64
from .world import Violation

YW, NV, SC, CH, CR, WE, BE = ('pywriter.yw.yw7_file', 'pywriter.model.novel', 'pywriter.model.scene', 'pywriter.model.chapter', 'pywriter.model.character',
                              'pywriter.model.world_element', 'pywriter.model.basic_element')
MODS = (YW, NV, SC, CH, CR, WE, BE)
KINDS = ['eio', 'eacces', 'emfile', 'enoent', 'ebusy']
WKINDS = ['eio', 'enospc', 'eacces', 'erofs', 'ebusy', 'full', 'short', 'emfile']
STYLES = [{}, {'bom': False}, {'flat': True}, {'nocdata': True}, {'crlf': True}, {'pair': True}, {'enc': 'utf-16'}, {'enc': 'utf-16', 'crlf': True}]
NAMES = ['/sim/work/Roman.yw7', '/sim/work/My novel.yw7', '/sim/home/ein Ordner/größe.yw7', '/sim/work/a.yw7.b/x.y.yw7']
# fields some applications know in addition
EXTRA = dict(PRJ_KWVAR=['Field_LocalThing'], CHP_KWVAR=['Field_ArcDefinition', 'Field_Own'], SCN_KWVAR=['Field_Other'], PNT_KWVAR=['Field_Note'])
ATTR = dict(Title='title', Desc='desc', SceneContent='sceneContent', Notes='notes', Goal='goal', Conflict='conflict', Outcome='outcome', Field1='field1', Field2='field2', Field3='field3',
            Field4='field4', LastsDays='lastsDays', LastsHours='lastsHours', LastsMinutes='lastsMinutes', ImageFile='image', AKA='aka', Bio='bio', Goals='goals', FullName='fullName')
PATTR = dict(Title='title', Desc='desc', AuthorName='authorName', Bio='authorBio', FieldTitle1='fieldTitle1', FieldTitle2='fieldTitle2', FieldTitle3='fieldTitle3', FieldTitle4='fieldTitle4')
SECT = dict(SCENES=('scenes', None, SC, 'Scene'), CHAPTERS=('chapters', 'srtChapters', CH, 'Chapter'), CHARACTERS=('characters', 'srtCharacters', CR, 'Character'),
            LOCATIONS=('locations', 'srtLocations', WE, 'WorldElement'), ITEMS=('items', 'srtItems', WE, 'WorldElement'), PROJECTNOTES=('projectNotes', 'srtPrjNotes', BE, 'BasicElement'))


# ---------------------------------------------------------------- plans
def plan(seed, tier, prop):
    r = random.Random(seed)
    lv = r.choice(['plain', 'medium', 'medium', 'hard', 'hard']) if prop == 'C16' else r.choice(['plain', 'medium', 'medium', 'hard'])
    g = gen.Gen(h64(seed, 1), lv, size=r.choice([0.6, 1, 1, 1.6] if tier == 'quick' else [0.6, 1, 1.6, 3, 6]) if r.random() < .96 else 4, markup=r.random() < .3, foreign=r.choice([0, 0, .15]))
    st = dict(r.choice(STYLES))
    if r.random() < .08:
        st['ctrl'] = r.randrange(1 << 30)
    plan = dict(seed=seed & 0xffffffff, epoch=1_600_000_000 + r.randrange(200_000_000), path=r.choice(NAMES), trees=[g.project()], style=st, level=lv, steps=[],
                envs=[dict(bufsize=r.choice([8192, 8192, 512, 1024]), encoding=r.choice(['utf-8', 'utf-8', 'cp1252'])) for _ in range(3)],
                kinds=[r.random() < .35 for _ in range(4)])
    for m in ywstub.members(plan['trees'][0], 'PROJECTNOTES'):
        if r.random() < .3:
            m[1].append(['Fields', [['Field_Note', g.line(4)]]])
    steps = plan['steps']
    n = r.randint(3, 8 if tier == 'quick' else 18)
    opened = set()
    broken = False
    for _ in range(n):
        k = r.choice([0, 0, 0, 1, 2, 3])
        x = r.random()
        if k not in opened or x < .1:
            s = dict(t='open', app=k)
            opened.add(k)
        elif x < (.45 if prop == 'C20' else .3):
            s = dict(t='read', app=k, how=r.choice(['same', 'same', 'novel', 'file']))
        elif x < (.55 if prop == 'C20' else .6):
            s = dict(t='save', app=k)
        elif x < (.75 if prop == 'C20' else .8):
            s = dict(t='yw', style=dict(r.choice(STYLES)), n=r.choice([0, 1, 3]) if prop == 'C16' else r.choice([0, 1, 2, 4, 8]), pick=r.randrange(1 << 30))
            if r.random() < .08:
                s['style']['ctrl'] = r.randrange(1 << 30)
        elif x < .88:
            s = dict(t='mods', app=k, n=r.randint(1, 4), pick=r.randrange(1 << 30))
        elif x < .905:
            s = dict(t='purge', app=k, what=r.choice(['fields', 'fields', 'tags']))
        elif x < .925:
            s = dict(t='restart', prog=k % 3)
        elif x < .96:
            s = dict(t=r.choice(['lock', 'unlock', 'unlock']))
        else:
            s = dict(t='break', how=r.choice(['trunc', 'trunc', 'garbage', 'gone', 'empty', 'other', 'halfsec']), pick=r.randrange(1 << 30))
            broken = True
        if s['t'] in ('open', 'read') and r.random() < .15:
            s['faults'] = [dict(at=r.randrange(6), kind=r.choice(['short', 'short', 'nomem', 'intr', 'crash'] + KINDS), frac=round(r.random(), 3))]
            if r.random() < .5 and s['faults'][0]['kind'] in KINDS:
                s['faults'].append(dict(at=s['faults'][0]['at'] + 1, kind=r.choice(KINDS)))
                s['faults'].append(dict(at=s['faults'][0]['at'] + 2, kind=r.choice(KINDS)))
        if s['t'] == 'save' and r.random() < .3:
            s['faults'] = [dict(at=r.randrange(8), kind=r.choice(WKINDS + ['crash', 'crash', 'intr', 'nomem']), frac=round(r.random(), 3))]
        steps.append(s)
        if broken and r.random() < .6:
            steps.append(dict(t='read', app=r.choice(sorted(opened)), how=r.choice(['same', 'novel', 'file'])))
        if broken and r.random() < .7:
            steps.append(dict(t='mend'))
            broken = False
        if s['t'] in ('yw', 'mods', 'purge') and r.random() < .6:
            k = r.choice(sorted(opened))
            if s['t'] == 'yw':
                steps.append(dict(t='read', app=k, how=r.choice(['same', 'same', 'novel', 'file'])))
            if r.random() < .5:
                steps.append(dict(t='save', app=k))
        if s['t'] == 'save' and r.random() < .4:
            steps.append(dict(t='save', app=s['app']))
    return plan


# ---------------------------------------------------------------- what a program holds
def dump(o, depth=0):
    """The content of a novel as a plain structure (public attributes only)."""
    if o is None or isinstance(o, (str, int, float, bool)):
        return o
    if isinstance(o, (list, tuple)):
        return [dump(x, depth + 1) for x in o]
    if isinstance(o, dict):
        return {str(k): dump(v, depth + 1) for k, v in o.items()}
    if depth > 8:
        return repr(type(o))
    d = {k: dump(v, depth + 1) for k, v in vars(o).items() if not k.startswith('_')}
    if hasattr(o, 'sceneContent'):
        d['sceneContent'] = o.sceneContent
    return d


def picture(novel):
    d = dump(novel)
    d['order of scenes'] = list(novel.scenes)
    return d


def held(novel):
    """The part of a novel that can be compared with the canonical content of a file."""
    def t(x):
        return model.norm(x) if isinstance(x, str) else '' if x is None else x

    def el(o, names):
        return {n: t(getattr(o, a)) for n, a in names.items() if t(getattr(o, a)) != ''}
    c = dict(project=el(novel, PATTR), chapters=[], scenes={})
    for key, srt in (('characters', 'srtCharacters'), ('locations', 'srtLocations'), ('items', 'srtItems')):
        c[key] = []
        for i in getattr(novel, srt):
            o = getattr(novel, key)[i]
            d = el(o, {n: ATTR[n] for n in (model.CHARACTER if key == 'characters' else model.WORLD)})
            if o.tags:
                d['Tags'] = list(o.tags)
            if key == 'characters':
                d['Major'] = bool(o.isMajor)
            for k in ('Field_Link', 'Field_BirthDate', 'Field_DeathDate'):
                if o.kwVar.get(k):
                    d[k] = t(o.kwVar[k])
            c[key].append([i or '', d])
    c['notes'] = [[i or '', t(novel.projectNotes[i].title), t(novel.projectNotes[i].desc)] for i in novel.srtPrjNotes]
    for i in novel.srtChapters:
        o = novel.chapters[i]
        d = el(o, dict(Title='title', Desc='desc'))
        d.update(type=o.chType, level=o.chLevel, suppressTitle=bool(o.suppressChapterTitle), suppressBreak=bool(o.suppressChapterBreak), trash=bool(o.isTrash), scenes=list(o.srtScenes))
        c['chapters'].append([i or '', d])
    for i, o in novel.scenes.items():
        d = el(o, {n: ATTR[n] for n in ('Title', 'Desc', 'SceneContent', 'Notes', 'Goal', 'Conflict', 'Outcome', 'Field1', 'Field2', 'Field3', 'Field4', 'LastsDays', 'LastsHours', 'LastsMinutes', 'ImageFile')})
        if o.status is not None:
            d['Status'] = str(o.status)
        d.update(type=o.scType, noexport=bool(o.doNotExport), tags=list(o.tags or ()), append=bool(o.appendToPrev), reaction=bool(o.isReactionScene), subplot=bool(o.isSubPlot),
                 chars=list(o.characters or ()), locs=list(o.locations or ()), items=list(o.items or ()))
        if o.date:
            d['when'] = ['at', o.date, o.time]
        elif o.day or o.time:
            d['when'] = ['day', o.day or None, o.time]
        else:
            d['when'] = None
        c['scenes'][i or ''] = d
    return c


def subset(c):
    """The corresponding part of the canonical content of a file."""
    o = dict(project={k: v for k, v in c['project'].items() if k in PATTR}, characters=c['characters'], locations=c['locations'], items=c['items'], notes=c['notes'], chapters=[], scenes={})
    for i, d in c['chapters']:
        o['chapters'].append([i, {k: v for k, v in d.items() if k in ('Title', 'Desc', 'type', 'level', 'suppressTitle', 'suppressBreak', 'trash', 'scenes')}])
    for i, d in c['scenes'].items():
        o['scenes'][i] = {k: v for k, v in d.items() if k not in ('fields',) and (k in ATTR or k in ('Status', 'type', 'noexport', 'tags', 'append', 'reaction', 'subplot', 'chars', 'locs', 'items'))}
        w = d['when']
        o['scenes'][i]['when'] = ['day', w[1], w[2] and w[2] + ':00'] if w and w[0] == 'day' else w
    return o


# ---------------------------------------------------------------- changes made by the application
def taken(tree):
    return {(s, ywstub.text(m, 'ID')) for s in ('SCENES', 'CHAPTERS') for m in ywstub.members(tree, s)}


def usable(tree, op, used=()):
    """Changes an application can express the same way as yWriter does."""
    k = op[0]
    if k == 'app':
        return app_usable(tree, op)
    if k == 'set':
        if op[1] == 'CHAPTERS' and op[3] == 'Title' and (ywstub.text(ywstub.member(tree, 'CHAPTERS', op[2]) or ['', []], 'Title') or '').startswith('@'):
            return False  # the mark means something
        return op[1] == 'PROJECT' and op[3] in PATTR or op[1] in SECT and (op[3] in ATTR or op[3] in ('Tags', 'Status'))
    if k == 'mvscene':
        for m in ywstub.members(tree, 'CHAPTERS'):
            ids = [s[1] for s in ywstub.kids(ywstub.child(m, 'Scenes') or ['Scenes', []])]
            if (ywstub.text(m, 'ID') == op[2] or op[1] in ids) and model.chapter_type(m):
                return False
        return True
    if k == 'add':
        if (op[1], ywstub.text(op[2], 'ID')) in used:
            return False  # None means 'as it is' in the file: an application must not use the ID of a deleted element before it has saved (see DESIGN)
        if op[1] == 'SCENES':
            c = ywstub.member(tree, 'CHAPTERS', op[3])
            return c is None or model.chapter_type(c) == 0
        return True
    return k in ('del', 'move')


def clear(r, tree):
    """Delete all elements of a kind."""
    sec = r.choice(['CHARACTERS', 'LOCATIONS', 'ITEMS', 'PROJECTNOTES', 'PROJECTNOTES', 'SCENES', 'CHAPTERS'])
    return [['del', sec, ywstub.text(m, 'ID')] for m in ywstub.members(tree, sec)]


def change(tree, op):
    if op[0] == 'app':
        app_tree(tree, op)
    else:
        ywstub.edit(tree, op)


def slim(op):
    """New elements with what every application sets."""
    if op[0] == 'add':
        op = copy.deepcopy(op)
        keep = {'ID', 'Tags', 'Status', 'Major', 'SectionStart'} | set(ATTR)
        op[2][1] = [c for c in op[2][1] if c[0] in keep]
    if op[0] == 'set' and op[4] is None:
        op = op[:4] + ['']
    return op


def apply(mods, novel, op, fresh=lambda c: c()):
    """Do the same to the novel of an application."""
    k = op[0]

    def setattr_(o, tag, val):
        if tag == 'Tags':
            o.tags = [x.strip() for x in val.split(';') if x.strip()]
        elif tag == 'Status':
            o.status = int(val)
        else:
            setattr(o, ATTR[tag], val)
    if k == 'app':
        app_novel(novel, op)
    elif k == 'set':
        if op[1] == 'PROJECT':
            setattr(novel, PATTR[op[3]], op[4])
        else:
            o = getattr(novel, SECT[op[1]][0]).get(op[2])
            if o is not None:
                setattr_(o, op[3], op[4])
    elif k == 'add':
        name, srt, mod, cls = SECT[op[1]]
        i = ywstub.text(op[2], 'ID')
        if i in getattr(novel, name) or op[1] == 'SCENES' and op[3] not in novel.chapters:
            return
        o = getattr(mods[mod], cls)()
        for tag, val in op[2][1]:
            if tag == 'ID':
                continue
            elif tag == 'Major':
                o.isMajor = True
            elif tag == 'SectionStart':
                o.chLevel = 1
            elif val is not None:
                setattr_(o, tag, val)
        if op[1] == 'CHAPTERS':
            o.chType = 0
            o.chLevel = o.chLevel or 0
        if op[1] == 'SCENES':
            o.scType = 0
            novel.chapters[op[3]].srtScenes.append(i)
        getattr(novel, name)[i] = o
        if srt:
            getattr(novel, srt).append(i)
    elif k == 'del':
        name, srt, mod, cls = SECT[op[1]]
        o = getattr(novel, name).pop(op[2], None)
        if o is None:
            return
        if srt:
            getattr(novel, srt).remove(op[2])
        if op[1] == 'CHAPTERS':
            for s in o.srtScenes:
                novel.scenes.pop(s, None)
        if op[1] == 'SCENES':
            for c in novel.chapters.values():
                if op[2] in c.srtScenes:
                    c.srtScenes.remove(op[2])
        if name in ('characters', 'locations', 'items'):
            for s in novel.scenes.values():
                lst = getattr(s, name)
                if lst and op[2] in lst:
                    lst.remove(op[2])
    elif k == 'move':
        name, srt, mod, cls = SECT[op[1]]
        lst = getattr(novel, srt)
        if op[2] in lst:
            lst.remove(op[2])
            lst.insert(min(op[3], len(lst)), op[2])
    elif k == 'mvscene':
        if op[2] not in novel.chapters or op[1] not in novel.scenes:
            return
        for c in novel.chapters.values():
            if op[1] in c.srtScenes:
                c.srtScenes.remove(op[1])
        lst = novel.chapters[op[2]].srtScenes
        lst.insert(min(op[3], len(lst)), op[1])


def unify(tree):
    """A scene in a chapter of another type takes over the type of the chapter when read (by design)."""
    for m in ywstub.members(tree, 'CHAPTERS'):
        t = model.chapter_type(m)
        if t:
            for s in ywstub.kids(ywstub.child(m, 'Scenes') or ['Scenes', []]):
                sc = ywstub.member(tree, 'SCENES', s[1])
                if sc is None:
                    continue
                if ywstub.child(sc, 'Unused') is None:
                    sc[1].append(['Unused', '-1'])
                f = ywstub.child(sc, 'Fields')
                if f is None or not isinstance(f[1], list):
                    if f is not None:
                        sc[1].remove(f)
                    f = ['Fields', []]
                    sc[1].append(f)
                ywstub.set_child(f, 'Field_SceneType', {1: '1', 2: '2', 3: '0'}[t])
    return tree


def drop_missing(tree):
    """References to characters etc. that do not exist (any more) have no meaning."""
    return tree


# changes only applications make: ['app', what, id, value]
FLAGS = dict(append=('AppendToPrev', 'appendToPrev'), reaction=('ReactionScene', 'isReactionScene'), subplot=('SubPlot', 'isSubPlot'))
CFIELDS = dict(title=('Field_SuppressChapterTitle', 'suppressChapterTitle'), brk=('Field_SuppressChapterBreak', 'suppressChapterBreak'), trash=('Field_IsTrash', 'isTrash'))
TYPES = ((None, None), ('-1', '1'), ('-1', '2'), ('-1', '0'))


def app_op(r, g, tree):
    scs = [ywstub.text(m, 'ID') for m in ywstub.members(tree, 'SCENES')]
    chs = [ywstub.text(m, 'ID') for m in ywstub.members(tree, 'CHAPTERS')]
    k = r.random()
    if k < .62 and scs:
        s = r.choice(scs)
        what = r.choice(['when', 'when', 'when', 'flag', 'flag', 'export', 'type', 'arcs', 'mode', 'refs', 'refs', 'status'])
        if what == 'when':
            return ['app', 'when', s, r.choice([None, None, ['at', r.choice(['2024-02-29', '0001-01-01', '1815-12-10']), r.choice(['00:00:00', '23:59:00', '07:30:00'])],
                                                ['day', r.choice(['0', '7', '-3', None]), r.choice(['00:00:00', '08:05:00', None])]])]
        if what == 'flag':
            return ['app', 'flag', s, [r.choice(sorted(FLAGS)), r.random() < .5]]
        if what == 'refs':
            sec = r.choice(['CHARACTERS', 'LOCATIONS', 'ITEMS'])
            ids = [ywstub.text(m, 'ID') for m in ywstub.members(tree, sec)]
            return ['app', 'refs', s, [sec, r.sample(ids, r.randint(0, min(3, len(ids))))]]
        return ['app', what, s, dict(export=lambda: r.random() < .5, type=lambda: r.randrange(4), arcs=lambda: r.choice(['', 'A', 'A;B', g.tags()]), mode=lambda: r.randrange(6), status=lambda: str(r.randint(1, 5)))[what]()]
    if k < .9 and chs:
        c = r.choice(chs)
        what = r.choice(['level', 'ctype', 'title', 'brk', 'trash'])
        return ['app', what, c, r.randrange(4) if what == 'ctype' else r.random() < .5]
    return ['app', 'lang', '', list(r.choice(gen.LANGS))]


def app_usable(tree, op):
    what, i, val = op[1:]
    if what == 'lang':
        return True
    if what in ('level', 'ctype') or what in CFIELDS:
        m = ywstub.member(tree, 'CHAPTERS', i)
        if m is None or what == 'ctype' and model.chapter_type(m) or what == 'title' and (ywstub.text(m, 'Title') or '').startswith('@'):
            return False
        return True
    if ywstub.member(tree, 'SCENES', i) is None:
        return False
    if what == 'type':
        for m in ywstub.members(tree, 'CHAPTERS'):
            if model.chapter_type(m) and i in [s[1] for s in ywstub.kids(ywstub.child(m, 'Scenes') or ['Scenes', []])]:
                return False
    if what == 'when' and val and val[0] == 'day':
        m = ywstub.member(tree, 'SCENES', i)
        if val[1:] == [None, None] or val[1] is None and ywstub.child(m, 'Day') or val[2] is None and (ywstub.child(m, 'Hour') or ywstub.child(m, 'Minute')):
            return False  # None means 'as it is'
    return True


def field(m, tag, val):
    f = ywstub.child(m, 'Fields')
    if f is None or not isinstance(f[1], list):
        if f is not None:
            m[1].remove(f)
        if val is None:
            return
        f = ['Fields', []]
        m[1].append(f)
    ywstub.set_child(f, tag, val)


def app_tree(tree, op):
    what, i, val = op[1:]
    if what == 'lang':
        s = ywstub.child(tree, 'PROJECTVARS')
        if s is None:
            s = ['PROJECTVARS', []]
            tree[1].append(s)
        for t, v in zip(('Language', 'Country'), val):
            have = [m for m in ywstub.members(tree, 'PROJECTVARS') if ywstub.text(m, 'Title') == t]
            for m in have:
                ywstub.set_child(m, 'Desc', v)
            if not have:
                s[1].append(['PROJECTVAR', [['ID', 'new' + t], ['Title', t], ['Desc', v], ['Tags', '0']]])
        return
    if what in ('level', 'ctype') or what in CFIELDS:
        m = ywstub.member(tree, 'CHAPTERS', i)
        if what == 'level':
            ywstub.set_child(m, 'SectionStart', '-1' if val else None)
        elif what == 'ctype':
            ywstub.set_child(m, 'Unused', TYPES[val][0])
            ywstub.set_child(m, 'Type', '1' if val else '0')
            ywstub.set_child(m, 'ChapterType', {1: '1', 2: '2'}.get(val, '0'))
        else:
            field(m, CFIELDS[what][0], '1' if val else None)
        return
    m = ywstub.member(tree, 'SCENES', i)
    if what == 'when':
        for t in ('SpecificDateTime', 'SpecificDateMode', 'Day', 'Hour', 'Minute'):
            ywstub.set_child(m, t, None)
        if val and val[0] == 'at':
            ywstub.set_child(m, 'SpecificDateTime', f'{val[1]} {val[2]}')
        elif val:
            if val[1] is not None:
                ywstub.set_child(m, 'Day', val[1])
            if val[2] is not None:
                ywstub.set_child(m, 'Hour', val[2][:2])
                ywstub.set_child(m, 'Minute', val[2][3:5])
    elif what == 'flag':
        ywstub.set_child(m, FLAGS[val[0]][0], '-1' if val[1] else None)
    elif what == 'export':
        ywstub.set_child(m, 'ExportCondSpecific', '-1' if val else None)
        ywstub.set_child(m, 'ExportWhenRTF', None)
    elif what == 'type':
        ywstub.set_child(m, 'Unused', TYPES[val][0])
        field(m, 'Field_SceneType', TYPES[val][1])
    elif what == 'arcs':
        field(m, 'Field_SceneArcs', val or None)
    elif what == 'mode':
        field(m, 'Field_SceneMode', str(val) if val else None)
    elif what == 'status':
        ywstub.set_child(m, 'Status', val)
    elif what == 'refs':
        ywstub.edit(tree, ['refs', val[0], i, val[1]])


def app_novel(novel, op):
    what, i, val = op[1:]
    if what == 'lang':
        novel.languageCode, novel.countryCode = val
    elif what == 'level':
        novel.chapters[i].chLevel = 1 if val else 0
    elif what == 'ctype':
        novel.chapters[i].chType = val
    elif what in CFIELDS:
        setattr(novel.chapters[i], CFIELDS[what][1], val)
    else:
        s = novel.scenes[i]
        if what == 'when':
            if val is None:
                s.date, s.time, s.day = '', '', ''
            elif val[0] == 'at':
                s.date, s.time, s.day = val[1], val[2], None
            else:
                s.date, s.day, s.time = None, val[1], val[2]
        elif what == 'flag':
            setattr(s, FLAGS[val[0]][1], val[1])
        elif what == 'export':
            s.doNotExport = val
        elif what == 'type':
            s.scType = val
        elif what == 'arcs':
            s.scnArcs = val
        elif what == 'mode':
            s.scnMode = val
        elif what == 'status':
            s.status = int(val)
        elif what == 'refs':
            setattr(s, {'CHARACTERS': 'characters', 'LOCATIONS': 'locations', 'ITEMS': 'items'}[val[0]], list(val[1]) or None)


# ---------------------------------------------------------------- execution
class App:
    def __init__(self):
        self.proc = self.prj = self.novel = None
        self.tree = None  # what it holds, as a tree
        self.state = 'none'  # none, ok, bad (a reading has failed)
        self.kind = False
        self.used = set()
        self.pure = False  # nothing changed since it was read
        self.saved = None  # bytes of its last saving
        self.version = None  # bytes of the file it holds unchanged


class Run:
    def __init__(self, prop, plan, fresh):
        self.prop, self.plan, self.fresh = prop, plan, fresh
        self.viol = []
        self.brief = []
        self.stats = dict(reads=0, failed_reads=0, saves=0, failed_saves=0, crashes=0, ywriter_saves=0, mods=0, stable_saves=0)
        self.states = set()
        self.apps = {}
        self.procs = {}
        self.stable = None  # bytes of the file if the last save was one of ours
        self.fresh_cache = {}

    def v(self, prop, text):
        if prop == self.prop or prop == '*':
            self.viol.append(Violation(self.prop, self.i, text))

    def say(self, text):
        self.brief.append(f'{self.i}: {text}'[:180])

    def run(self):
        K.reset(self.plan['seed'], self.plan['epoch'])
        self.path = self.plan['path']
        K.fs.mkdirs(self.path.rsplit('/', 1)[0])
        K.fs.put(self.path, ywstub.render(self.plan['trees'][0], self.plan['style']))
        self.keep = None
        self.i = 0
        self.sound()
        for self.i, st in enumerate(self.plan['steps']):
            if 'app' in st and st['t'] not in ('open',) and self.apps.get(st['app']) is None:
                continue
            getattr(self, 'do_' + st['t'])(st)
            if self.viol:
                break

    def sound(self):
        self.data = K.fs.get(self.path)
        self.ok = model.loadable(self.data)

    def tree(self):
        return unify(ywstub.parse(K.fs.get(self.path)))

    def proc(self, k):
        p = self.procs.get(k % 3)
        if p is None or p.dead:
            p = self.procs[k % 3] = lab.start(env=self.plan['envs'][k % 3], modules=MODS)
            for a in [a for a, x in self.apps.items() if a % 3 == k % 3]:
                del self.apps[a]
        return p

    def arm(self, p, st):
        p.faults = {p.nops + f['at']: f for f in st.get('faults', ())}
        return len(K.fired_at)

    def calm(self, p):
        p.faults = {}
        K.disk.clear()
        K.sticky.clear()

    @staticmethod
    def make(m, path, kind):
        cls = m[YW].Yw7File
        if kind:
            cls = type('AppFile', (cls,), {k: list(getattr(cls, k)) + v for k, v in EXTRA.items()})
        return cls(path)

    def newly(self, kind):
        """What a newly started program holds after reading the present file: ('ok', picture) or ('exc', text)."""
        data = K.fs.get(self.path)
        locked = K.fs.get(self.path + '.lock') is not None
        key = (data, locked, kind)
        if key not in self.fresh_cache:
            snap = {self.path: data} if data is not None else {}
            if locked:
                snap[self.path + '.lock'] = b''
            d = self.path.rsplit('/', 1)[0]
            snap[d] = None
            with lab.Isolated(snap):
                p = lab.start(modules=MODS)

                def f(m):
                    prj = self.make(m, self.path, kind)
                    prj.novel = m[NV].Novel()
                    prj.read()
                    return picture(prj.novel)
                self.fresh_cache[key] = lab.call(p, f, gcnow=False)
        return self.fresh_cache[key]

    # ------------------------------------------------------------ steps
    def do_open(self, st):
        p = self.proc(st['app'])
        a = self.apps[st['app']] = App()
        a.proc = p
        a.kind = self.plan['kinds'][st['app']]
        self.read(a, st, 'file', True)

    def do_read(self, st):
        self.read(self.apps[st['app']], st, st['how'], False)

    def read(self, a, st, how, new):
        p = a.proc
        before = picture(a.novel) if a.novel is not None and a.state == 'ok' else None

        def f(m):
            if new or how == 'file':
                a.prj = self.make(m, self.path, a.kind)
                a.prj.novel = a.novel if not new else m[NV].Novel()
            elif how == 'novel':
                a.prj.novel = m[NV].Novel()
            a.prj.read()
        locked = K.fs.get(self.path + '.lock') is not None
        n = self.arm(p, st)
        res, x = lab.call(p, f)
        self.calm(p)
        fired = K.fired_at[n:]
        self.stats['reads'] += 1
        self.say(f'app {st["app"]} reads ({"new" if new else how}) -> {res} {x or ""} {[y[2:4] for y in fired]}')
        self.states.add(h64('read', how, new, res, tuple(y[2:4] for y in fired), locked, self.ok, self.stable is not None, a.state))
        if res == 'crash':
            self.stats['crashes'] += 1
            self.drop(st['app'] % 3)
            return
        if K.fs.get(self.path) != self.data:
            self.v('*', 'reading changed the project file')
            return
        if how == 'novel' or new or res == 'ok':
            a.novel = a.prj.novel
        hard = any(y[2] != 'short' for y in fired)
        if res == 'exc':
            self.stats['failed_reads'] += 1
            if self.ok and not locked and not hard:
                self.v('*', f'a sound project cannot be read: {x}')
                return
            a.state = 'bad'
            if before is not None and how == 'same' and (locked or self.data is None or not self.wellformed()):
                d = model.diff(before, picture(a.novel))
                if d:
                    self.v('C20', f'a refused reading changed what the program holds: {d}')
                a.state = 'ok'
            return
        if locked:
            self.v('C20', 'a project locked by yWriter has been read')
            return
        ref, pic = self.newly(a.kind)
        if not self.ok:
            a.state = 'bad'  # nothing is promised about the content of damaged files
            if ref == 'ok':
                d = model.diff(pic, picture(a.novel))
                if d:
                    self.v('C20', f'a program that reads again holds something else than a new one: {d}')
            return
        if ref != 'ok':
            self.v('*', f'a sound project cannot be read by a new program: {pic}')
            return
        d = model.diff(pic, picture(a.novel))
        if d:
            self.v('C20', f'a program that reads again holds something else than a new one: {d}')
            return
        a.tree = self.tree()
        a.version = self.data
        a.pure, a.saved = True, None
        a.used = taken(a.tree)
        d = model.diff(subset(model.canon_tree(a.tree)), held(a.novel))
        if d:
            self.v('*', f'what has been read is not what the file contains: {d}')
            return
        a.state = 'ok'

    def wellformed(self):
        try:
            ET.fromstring(re.sub(r'^\s*<\?xml[^>]*\?>', '', ywstub.CONTROL.sub('', self.data.decode('utf-8-sig'))))
            return True
        except Exception:
            return False

    def drop(self, k):
        self.procs.pop(k, None)
        for a in [a for a in self.apps if a % 3 == k]:
            del self.apps[a]

    def do_restart(self, st):
        self.drop(st['prog'])

    def do_lock(self, st):
        K.fs.put(self.path + '.lock', b'')

    def do_unlock(self, st):
        if K.fs.get(self.path + '.lock') is not None:
            K.fs.delete(self.path + '.lock')

    def do_break(self, st):
        if self.keep is not None or not self.ok:
            return
        r = random.Random(st['pick'])
        d = self.keep = K.fs.get(self.path)
        how = st['how']
        if how == 'gone':
            K.fs.delete(self.path)
        else:
            if how == 'trunc':
                b = d[:r.randrange(len(d))]
            elif how == 'garbage':
                b = bytearray(d)
                for _ in range(r.randint(1, 5)):
                    b[r.randrange(len(b))] = r.randrange(256)
                b = bytes(b)
            elif how == 'empty':
                b = b''
            elif how == 'other':
                b = b'<html><body/></html>'
            else:
                t = ywstub.parse(d)
                t[1].remove(ywstub.child(t, r.choice(['LOCATIONS', 'ITEMS', 'CHARACTERS', 'SCENES', 'CHAPTERS', 'PROJECT'])))
                b = ywstub.render(t)
            K.fs.put(self.path, b)
        self.sound()
        self.ok = False
        self.stable = None
        self.say(f'file damaged ({how})')

    def do_mend(self, st):
        if self.keep is None:
            return
        K.fs.put(self.path, self.keep)
        self.keep = None
        self.sound()
        self.say('file restored')

    def do_yw(self, st):
        if not self.ok:
            return
        if 'ops' not in st:
            if not self.fresh:
                return
            g = gen.Gen(h64(st['pick'], 'y'), self.plan['level'])
            t = ywstub.parse(self.data)
            st['ops'] = copy.deepcopy(g.edits(t, st['n'])) if st['n'] else []
            if st['n'] and g.r.random() < .2:
                st['ops'] += clear(g.r, t)
        K.fs.put(self.path, ywstub.edit_bytes(self.data, st['ops'], st['style']))
        self.keep = None
        self.sound()
        self.stable = None
        self.stats['ywriter_saves'] += 1
        self.say(f'yWriter saves {st["style"]} {str(st["ops"])[:120]}')

    def do_mods(self, st):
        a = self.apps[st['app']]
        if a.state != 'ok':
            return
        if 'ops' not in st:
            if not self.fresh:
                return
            g = gen.Gen(h64(st['pick'], 'm'), self.plan['level'])
            r = random.Random(h64(st['pick'], 'a'))
            t = copy.deepcopy(a.tree)
            ops = []
            for _ in range(st['n']):
                op = app_op(r, g, t) if r.random() < .4 else g.edits(copy.deepcopy(t), 1)[0]
                if usable(t, op, a.used):
                    op = slim(op)
                    change(t, op)
                    ops.append(copy.deepcopy(op))
            if r.random() < .2:
                ops += [op for op in clear(r, t) if usable(t, op, a.used)]
            st['ops'] = ops
        ops = []
        for op in st['ops']:
            if usable(a.tree, op, a.used):
                change(a.tree, op)
                ops.append(op)

        def f(m):
            for op in ops:
                apply(m, a.novel, op)
        res, x = lab.call(a.proc, f)
        if ops:
            a.version = None
            a.pure = False
        if res != 'ok':
            raise RuntimeError(f'harness: {x}')
        self.stats['mods'] += len(ops)
        self.say(f'app {st["app"]} changes {str(ops)[:120]}')

    def do_purge(self, st):
        """The application removes what only programs like this one know."""
        a = self.apps[st['app']]
        if a.state != 'ok':
            return
        changed = purge(a.tree, st['what'], a.kind)
        lab.need(a.proc, 'pywriter.yw.yw7_purge')

        def f(m):
            p = m['pywriter.yw.yw7_purge']
            return p.reset_custom_variables(a.prj) if st['what'] == 'fields' else p.remove_language_tags(a.novel)
        res, x = lab.call(a.proc, f)
        a.version = None
        a.pure = False
        self.stats['purges'] = self.stats.get('purges', 0) + 1
        self.say(f'app {st["app"]} removes {st["what"]} -> {res} {x}')
        if res != 'ok':
            self.v('C16', f'custom {st["what"]} cannot be removed: {x}')
        elif x is not changed:
            self.v('C16', f'removing custom {st["what"]} says {x}, but {"nothing" if not changed else "something"} had to be removed')

    def do_save(self, st):
        a = self.apps[st['app']]
        if a.state != 'ok':
            return
        p = a.proc
        locked = K.fs.get(self.path + '.lock') is not None
        old = K.fs.get(self.path)
        n = self.arm(p, st)
        res, x = lab.call(p, lambda m: a.prj.write())
        self.calm(p)
        fired = K.fired_at[n:]
        hard = any(y[2] != 'short' for y in fired)
        self.stats['saves'] += 1
        self.say(f'app {st["app"]} saves -> {res} {x or ""} {[y[2:4] for y in fired]}')
        new = K.fs.get(self.path)
        want = model.canon_tree(unify(copy.deepcopy(a.tree)))
        self.states.add(h64('save', res, tuple(y[2:4] for y in fired), locked, self.stable is not None, old == new))
        if res != 'ok':
            self.stats['crashes' if res == 'crash' else 'failed_saves'] += 1
            if res == 'exc' and not locked and not hard:
                self.v('*', f'saving failed without any trouble: {x}')
                return
            bak = K.fs.get(self.path + '.bak')
            if new != old and not (model.loadable(new) and model.same_meaning(want, model.canon(new)) is None):
                # the rest is a matter of C01/C02: go on with the backup
                if bak is not None:
                    K.fs.put(self.path, bak)
                self.keep = None
            self.sound()
            if K.fs.get(self.path) != old:
                self.stable = None
            if not self.ok:
                self.keep = self.keep
            if res == 'crash':
                self.drop(st['app'] % 3)
            return
        if locked:
            self.v('C20', 'a project locked by yWriter has been overwritten')
            return
        self.keep = None
        self.sound()
        try:
            got = model.canon(new)
            strict(new)
        except (ywstub.BadProject, ET.ParseError, UnicodeError) as ex:
            self.v('*', f'the saved project is not well-formed: {ex}')
            return
        d = model.same_meaning(want, got)
        if a.kind and not d:
            d = model.diff(note_fields(a.tree), note_fields(ywstub.parse(new)))
        if d:
            self.v('C16', f'saving altered the project: {d}')
            self.v('C20', f'what has been saved is not what the program holds: {d}')
            return
        if old is not None and old == a.version and (old == self.stable or a.saved == old):
            self.stats['stable_saves'] += 1
            if old != new and (a.kind or not any(note_fields(ywstub.parse(old)).values())):
                self.v('C16', f'saving again without any change alters the file: {first(old, new)}')
                return
        self.stable = new if a.pure else None
        a.version = a.saved = new
        a.tree = self.tree()
        a.used = taken(a.tree)


def note_fields(tree):
    return {ywstub.text(m, 'ID'): model.fields(m).get('Field_Note') for m in ywstub.members(tree, 'PROJECTNOTES')}


CUSTOM = dict(PROJECT=['Field_LanguageCode', 'Field_CountryCode'], SCENES=['Field_SceneArcs', 'Field_SceneMode'], CHARACTERS=['Field_Link', 'Field_BirthDate', 'Field_DeathDate'], LOCATIONS=['Field_Link'], ITEMS=['Field_Link'])
CUSTOM_APP = dict(PROJECT=['Field_LocalThing'], CHAPTERS=['Field_ArcDefinition', 'Field_Own'], SCENES=['Field_Other'], PROJECTNOTES=['Field_Note'])


def purge(tree, what, kind):
    """Remove the custom data from a tree; is there any?"""
    changed = False
    if what == 'tags':
        for m in ywstub.members(tree, 'SCENES'):
            t = ywstub.text(m, 'SceneContent')
            u = re.sub(r'\[/*lang=.*?\]', '', t or '')
            if t and u != t:
                ywstub.set_child(m, 'SceneContent', u)
                changed = True
        return changed
    for sec in ('PROJECT',) + tuple(SECT):
        names = CUSTOM.get(sec, []) + (CUSTOM_APP.get(sec, []) if kind else [])
        for m in ([ywstub.child(tree, 'PROJECT')] if sec == 'PROJECT' else ywstub.members(tree, sec)):
            have = model.fields(m)
            for n in names:
                if have.get(n):
                    for f in [f for f in ywstub.kids(m) if f[0] == 'Fields' and isinstance(f[1], list)]:
                        f[1][:] = [x for x in f[1] if x[0] != n]
                    if sec != 'PROJECT':
                        changed = True
                    else:
                        changed = changed or n not in CUSTOM['PROJECT']
    return changed


def strict(data):
    """Well-formed for any XML parser and declared correctly."""
    ET.fromstring(data)
    data.decode('utf-8')


def first(a, b):
    i = next((k for k, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    return f'byte {i}: {a[max(0, i - 20):i + 30]!r} -> {b[max(0, i - 20):i + 30]!r}'


def execute(prop, plan, fresh, res):
    h = Run(prop, plan, fresh)
    res.brief = h.brief
    try:
        h.run()
    finally:
        res.stats, res.states, res.viol = h.stats, h.states, h.viol
