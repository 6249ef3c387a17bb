"""Seeded generation of yWriter projects (as trees, see ywstub) and of edits to them."""
import random

WORDS = ('the a ship captain robot night door field money old last chance runs sees Hal Clunk planet cargo Tür größer Straße naïve façade она東京 and but then '
         'because left right behind under never always maybe whisper shout light rain stone paper wind river glass letter key house garden').split()
SUFFIX_CTX = dict(hard=0.35, medium=0.12, plain=0.0)
HARD = ['&', '<', '>', '"', "'", '&amp;', '&lt;', '<i>', '</Title>', '<Desc>', ']]>', '<![CDATA[', '|', '||', '[x]', '[', ']', '[]', '\\', '%', '%(x)s', '$Title', '${ID}', '#', '*', '_',
        '\u00a0', '\u2028', '\U0001f680', '\u0301', 'ß', '--', '...', '\u2026', '\u2014', '/*', '*/', '//', 'x < y > z', 'a&b', '\t', '  ', '&#13;', '&quot;', '{0}', '%s', '\u0085']
MEDIUM = ['&', '<', '>', '"', "'", '|', '[x]', 'ß', '\u2026', '\u2014', '%', '\\', '$Title', '\U0001f680']
LANGS = [('en', 'US'), ('de', 'DE'), ('en', 'GB'), ('fr', 'FR')]


class Gen:
    def __init__(self, seed, level='plain', size=1.0, markup=False, foreign=0):
        self.r = random.Random(seed)
        self.level = level
        self.size = size
        self.markup = markup
        self.foreign = foreign  # probability of a foreign language passage in a paragraph

    # ------------------------------------------------------------ texts
    def word(self):
        r = self.r
        if self.level != 'plain' and r.random() < SUFFIX_CTX[self.level]:
            return r.choice(HARD if self.level == 'hard' else MEDIUM)
        return r.choice(WORDS)

    def line(self, n=8):
        s = ' '.join(self.word() for _ in range(self.r.randint(1, n)))
        return s.strip() or 'x'

    def title(self):
        t = self.line(4).replace('\n', ' ')
        return t[:1].upper() + t[1:]

    def para(self, n=14):
        s = self.line(n)
        if self.markup and self.r.random() < 0.25:
            w = s.split(' ')
            i = self.r.randrange(len(w))
            w[i] = self.r.choice(['[i]{}[/i]', '[b]{}[/b]']).format(w[i])
            s = ' '.join(w)
        if self.foreign and self.r.random() < self.foreign:
            w = s.split(' ')
            i = self.r.randrange(len(w))
            lg = self.r.choice(['fr-FR', 'de-DE', 'es-ES', 'it-IT', 'en-AU', 'la', 'zh-CN'])
            w[i] = f'[lang={lg}]{w[i]}[/lang={lg}]'
            s = ' '.join(w)
        return s + self.r.choice(['.', '.', '?', '!', ''])

    def text(self, n=4, empty=0.1):
        r = self.r
        if r.random() < empty:
            return ''
        ls = [self.para() for _ in range(r.randint(1, n))]
        if len(ls) > 1 and r.random() < 0.2:
            ls.insert(r.randrange(1, len(ls)), '')
        s = '\n'.join(ls)
        if self.level == 'hard' and r.random() < 0.1:
            s += r.choice(['\n', '\n\n', ' '])
        if self.level == 'hard' and r.random() < 0.05:
            s = r.choice(['\n', ' ', '\n\n']) + s
        return s

    def maybe(self, p, f):
        return f() if self.r.random() < p else None

    # ------------------------------------------------------------ elements
    def tags(self):
        r = self.r
        return r.choice([';', ';', '; ', ' ; ']).join(self.tag() for _ in range(r.randint(1, 3)))

    def tag(self):
        return self.line(2).replace(';', ',').replace('\n', ' ')

    def ids(self, n):
        """n distinct IDs, with gaps, not always ascending."""
        r = self.r
        out = []
        i = 0
        for _ in range(n):
            i += 1 if r.random() < 0.7 else r.randint(2, 5)
            out.append(str(i))
        if r.random() < 0.3:
            r.shuffle(out)
        return out

    def opt(self, el, p, tag, f):
        if self.r.random() < p:
            el.append([tag, f()])

    def world(self, tag, i):
        r = self.r
        el = [['ID', i], ['Title', self.title()]]
        self.opt(el, .2, 'ImageFile', lambda: r.choice(['a.jpg', 'pic 1.png', 'x.gif']))
        self.opt(el, .7, 'Desc', lambda: self.text(2))
        el.append(['SortOrder', i]) if r.random() < .5 else None
        self.opt(el, .4, 'AKA', self.title)
        self.opt(el, .5, 'Tags', self.tags)
        if tag == 'CHARACTER':
            self.opt(el, .5, 'Notes', lambda: self.text(2))
            self.opt(el, .6, 'Bio', lambda: self.text(2))
            self.opt(el, .5, 'Goals', lambda: self.text(2))
            self.opt(el, .7, 'FullName', self.title)
            if r.random() < .4:
                el.append(['Major', '-1'])
        f = []
        if r.random() < .3:
            f.append(['Field_Link', r.choice(['{"file:///C:/a b.txt": ""}', 'http://x.y/?a=1&b=2', 'link'])])
        if tag == 'CHARACTER':
            if r.random() < .3:
                f.append(['Field_BirthDate', '1980-02-03'])
            if r.random() < .2:
                f.append(['Field_DeathDate', '2040-12-31'])
        if f:
            el.append(['Fields', f])
        return [tag, el]

    def scene(self, i, world, kind=None, text=None):
        r = self.r
        el = [['ID', i], ['Title', self.title()]]
        self.opt(el, .7, 'Desc', lambda: self.text(3))
        f = []
        kind = kind if kind is not None else r.choice([0] * 8 + [1, 2, 3])
        if kind:
            el.append(['Unused', '-1'])
            f.append(['Field_SceneType', {1: '1', 2: '2', 3: '0'}[kind]])
        if r.random() < .25:
            f.append(['Field_SceneArcs', self.tags()])
        if r.random() < .25:
            f.append(['Field_SceneMode', r.choice(['0', '1', '2', '3'])])
        if r.random() < .15:
            f.append(['Field_SceneStyle', r.choice(['1', '2'])])
        if r.random() < .2:
            f.append(['Field_Other', self.line(3)])
        if f or r.random() < .3:
            el.append(['Fields', f])
        el.append(['Status', str(r.randint(1, 5))])
        if r.random() < .5:
            el.append(['ExportCondSpecific', r.choice([None, '-1'])])
            if r.random() < .7:
                el.append(['ExportWhenRTF', '-1'])
        self.opt(el, .4, 'Notes', lambda: self.text(2))
        self.opt(el, .4, 'Tags', self.tags)
        for k in '1234':
            self.opt(el, .4, 'Field' + k, lambda: str(r.randint(1, 10)))
        if r.random() < .2:
            el.append(['AppendToPrev', '-1'])
        w = r.random()
        if w < .25:
            el.append(['SpecificDateTime', r.choice(['2424-12-30 17:15:00', '1999-01-01 00:00:00', '2023-05-06 07:08:09', '2023-05-06 07:08', '0001-01-01 12:00:00', '0001-01-01 00:00:00', '2024-02-29 23:59:59',
                                                     f'{r.randint(1, 9999):04}-{r.randint(1, 12):02}-{r.randint(1, 28):02} {r.randint(0, 23):02}:{r.randint(0, 59):02}:{r.choice([0, 0, 1, 30, 59]):02}'])])
            el.append(['SpecificDateMode', '-1'])
        elif w < .5:
            if r.random() < .7:
                el.append(['Day', str(r.choice([r.randint(0, 40), r.randint(0, 3), r.randint(-20, 0), r.randint(40, 5000)]))])
            if r.random() < .7:
                el.append(['Hour', str(r.randint(0, 23))])
                if r.random() < .8:
                    el.append(['Minute', str(r.randint(0, 59))])
        for k in ('LastsDays', 'LastsHours', 'LastsMinutes'):
            self.opt(el, .25, k, lambda: str(r.choice([r.randint(0, 30), r.randint(0, 2), r.randint(24, 99), r.randint(100, 9999)])))
        if r.random() < .4:
            el.append(['ReactionScene', '-1'])
        if r.random() < .2:
            el.append(['SubPlot', '-1'])
        self.opt(el, .5, 'Goal', lambda: self.text(2))
        self.opt(el, .5, 'Conflict', lambda: self.text(2))
        self.opt(el, .5, 'Outcome', lambda: self.text(2))
        self.opt(el, .15, 'ImageFile', lambda: 'scene.jpg')
        for lt, it, sec in (('Characters', 'CharID', 'CHARACTERS'), ('Locations', 'LocID', 'LOCATIONS'), ('Items', 'ItemID', 'ITEMS')):
            pool = world[sec]
            if pool and r.random() < .7:
                el.append([lt, [[it, x] for x in r.sample(pool, r.randint(1, min(3, len(pool))))]])
        el.append(['SceneContent', self.text(5 if r.random() < .99 else r.choice([30, 100, 300])) if text is None else text])
        if r.random() < .7:
            el.append(['WordCount', str(r.randint(0, 99))])
            el.append(['LetterCount', str(r.randint(0, 999))])
        if r.random() < .3:
            el.append(['RTFFile', f'RTF{i.zfill(5)}.rtf'])
        if r.random() < .2:
            el.append(['LastViewed', '2'])
        if self.r.random() < .3:
            head, rest = el[:2], el[2:]
            r.shuffle(rest)
            el = head + rest
        return ['SCENE', el]

    def chapter(self, i, scids, kind=None):
        r = self.r
        kind = kind if kind is not None else r.choice([0] * 8 + [1, 2, 3])
        el = [['ID', i], ['Title', ('@' if r.random() < .05 else '') + self.title()]]
        self.opt(el, .6, 'Desc', lambda: self.text(2))
        if kind:
            el.append(['Unused', '-1'])
        if r.random() < .3:
            el.append(['SectionStart', '-1'])
        if r.random() < .5:
            el.append(['SortOrder', i])
        el.append(['Type', '1' if kind else '0'])
        el.append(['ChapterType', {0: '0', 1: '1', 2: '2', 3: '0'}[kind]])
        f = []
        for k, p in (('Field_SuppressChapterTitle', .3), ('Field_SuppressChapterBreak', .3), ('Field_ArcDefinition', .15), ('Field_Own', .1)):
            if r.random() < p:
                f.append([k, r.choice(['0', '1']) if 'Suppress' in k else self.line(2)])
        if kind == 3 and r.random() < .3:
            f.append(['Field_IsTrash', '1'])
        if f or r.random() < .3:
            el.append(['Fields', f])
        if r.random() < .15:
            el.append(['FilteredInfo', '7'])
        el.append(['Scenes', [['ScID', s] for s in scids]]) if scids or r.random() < .5 else None
        return ['CHAPTER', el]

    def project(self, nsc=None, nch=None, lang=None, kinds=True):
        r = self.r
        z = self.size
        p = [['Ver', '7'], ['Title', self.title()], ['AuthorName', self.title()]]
        if len(str(p[2][1])) % 9 == 0:
            del p[2]  # a project without an author
        self.opt(p, .5, 'Bio', lambda: self.text(2))
        self.opt(p, .7, 'Desc', lambda: self.text(2))
        for k in '1234':
            self.opt(p, .6, 'FieldTitle' + k, lambda: r.choice(['Relevance', 'Tension', 'Humour', 'Quality', 'Zoß & Co']))
        self.opt(p, .4, 'LastFullBackup', lambda: '2020-07-10')
        self.opt(p, .6, 'WordTarget', lambda: str(r.randint(0, 90000)))
        self.opt(p, .6, 'WordCountStart', lambda: str(r.randint(0, 900)))
        self.opt(p, .4, 'LatexSceneDivider', lambda: None)
        self.opt(p, .4, 'HtmlEncoding', lambda: 'utf8')
        self.opt(p, .3, 'LaTeXHeaderFile', lambda: ' ')
        self.opt(p, .4, 'MRUSpecificDate', lambda: '2424-12-30')
        self.opt(p, .2, 'SavedWith', lambda: 'yWriter 7.1')
        pf = []
        lm = r.random()
        lg = lang or r.choice(LANGS)
        if lang is None and lm < .15:
            pf += [['Field_LanguageCode', lg[0]], ['Field_CountryCode', lg[1]]]
        if r.random() < .3:
            pf.append(['Field_LocalThing', self.line(3)])
        if pf or r.random() < .3:
            p.append(['Fields', pf])
        world = {}
        secs = {}
        for sec, tag, n in (('LOCATIONS', 'LOCATION', 3), ('ITEMS', 'ITEM', 3), ('CHARACTERS', 'CHARACTER', 4)):
            ids = self.ids(r.randint(0, max(1, int(n * z))))
            world[sec] = ids
            secs[sec] = [self.world(tag, i) for i in ids]
        nsc = nsc if nsc is not None else r.randint(1, max(1, int(6 * z)))
        nch = nch if nch is not None else r.randint(1, max(1, int(4 * z)))
        sids = self.ids(nsc)
        cids = self.ids(nch)
        perch = [[] for _ in cids]
        for s in sids:
            perch[r.randrange(len(cids))].append(s)
        order = list(sids)
        if r.random() < .3:
            r.shuffle(order)
        ck = {c: (None if kinds else 0) for c in cids}
        scenes = [self.scene(s, world, None if kinds else 0) for s in order]
        chapters = [self.chapter(c, perch[k], ck[c]) for k, c in enumerate(cids)]
        notes = [['PROJECTNOTE', [['ID', str(i + 1)], ['Title', self.title()], ['Desc', self.text(2)]]] for i in range(r.choice([0, 0, 1, 2]))]
        pv = []
        if lang is not None or .15 <= lm < .75:
            pv += [['Language', lg[0]], ['Country', lg[1]]]
        if r.random() < .2:
            pv += [['lang=fr-FR', '<HTM <SPAN LANG="fr-FR"> /HTM>'], ['/lang=fr-FR', '<HTM </SPAN> /HTM>']]
        if r.random() < .3:
            pv.append(['Hero', self.line(2)])
        tree = ['YWRITER7', [['PROJECT', p], ['LOCATIONS', secs['LOCATIONS']], ['ITEMS', secs['ITEMS']], ['CHARACTERS', secs['CHARACTERS']]]]
        t = tree[1]
        if notes or r.random() < .3:
            t.append(['PROJECTNOTES', notes])
        if pv or r.random() < .2:
            t.append(['PROJECTVARS', [['PROJECTVAR', [['ID', str(i + 1)], ['Title', a], ['Desc', b], ['Tags', '0']]] for i, (a, b) in enumerate(pv)]])
        if r.random() < .2:
            t.append(['PROJECTEXPS', [['PROJECTEXP', [['ID', '1'], ['Value', self.line(3)]]]]])
        t.append(['SCENES', scenes])
        t.append(['CHAPTERS', chapters])
        return tree

    def style(self):
        r = self.r
        return r.choice([{}, {}, {'bom': False}, {'flat': True}, {'nocdata': True}, {'crlf': True}, {'pair': True}, {'enc': 'utf-16'}])

    # ------------------------------------------------------------ edits by the yWriter user
    def edits(self, tree, n=3):
        from . import ywstub as Y
        r = self.r
        out = []
        for _ in range(n):
            k = r.random()
            scs = [Y.text(m, 'ID') for m in Y.members(tree, 'SCENES')]
            chs = [Y.text(m, 'ID') for m in Y.members(tree, 'CHAPTERS')]
            if k < .35 and scs:
                s = r.choice(scs)
                tag = r.choice(['Title', 'Desc', 'SceneContent', 'Notes', 'Goal', 'Conflict', 'Outcome', 'Tags', 'Status', 'Field1', 'LastsDays'])
                val = {'Title': self.title, 'Tags': self.tags, 'Status': lambda: str(r.randint(1, 5)), 'Field1': lambda: str(r.randint(1, 10)), 'LastsDays': lambda: str(r.randint(0, 9))}.get(tag, lambda: self.text(3))()
                if tag not in ('Title', 'SceneContent', 'Status') and r.random() < .2:
                    val = None
                op = ['set', 'SCENES', s, tag, val]
            elif k < .45 and chs:
                op = ['set', 'CHAPTERS', r.choice(chs), r.choice(['Title', 'Desc']), self.title()]
            elif k < .5:
                op = ['set', 'PROJECT', '', r.choice(['Title', 'AuthorName', 'Desc', 'Bio', 'FieldTitle1']), self.title()]
            elif k < .6:
                sec = r.choice(['CHARACTERS', 'LOCATIONS', 'ITEMS'])
                ms = [Y.text(m, 'ID') for m in Y.members(tree, sec)]
                if ms and r.random() < .6:
                    op = ['set', sec, r.choice(ms), r.choice(['Title', 'Desc', 'AKA', 'Tags']), r.choice([self.title(), self.title(), None])]
                    if op[3] == 'Title' and op[4] is None:
                        op[4] = self.title()
                elif ms and r.random() < .5:
                    op = ['del', sec, r.choice(ms)]
                else:
                    nid = self.newid(ms)
                    op = ['add', sec, self.world({'CHARACTERS': 'CHARACTER', 'LOCATIONS': 'LOCATION', 'ITEMS': 'ITEM'}[sec], nid)]
            elif k < .7 and chs:
                w = {s: [Y.text(m, 'ID') for m in Y.members(tree, s)] for s in ('CHARACTERS', 'LOCATIONS', 'ITEMS')}
                op = ['add', 'SCENES', self.scene(self.newid(scs), w), r.choice(chs)]
            elif k < .76 and len(scs) > 1:
                op = ['del', 'SCENES', r.choice(scs)]
            elif k < .8:
                op = ['add', 'CHAPTERS', self.chapter(self.newid(chs), [])]
            elif k < .83 and len(chs) > 1:
                op = ['del', 'CHAPTERS', r.choice(chs)]
            elif k < .9 and scs and chs:
                op = ['mvscene', r.choice(scs), r.choice(chs), r.randint(0, 3)]
            elif k < .95 and chs:
                op = ['move', 'CHAPTERS', r.choice(chs), r.randint(0, 3)]
            else:
                ns = [Y.text(m, 'ID') for m in Y.members(tree, 'PROJECTNOTES')]
                if ns and r.random() < .5:
                    op = ['del', 'PROJECTNOTES', r.choice(ns)]
                else:
                    op = ['add', 'PROJECTNOTES', ['PROJECTNOTE', [['ID', self.newid(ns)], ['Title', self.title()], ['Desc', self.text(1)]]]]
            out.append(op)
            Y.edit(tree, op)
        return out

    def newid(self, ids):
        r = self.r
        if r.random() < .5:
            i = 1
            while str(i) in ids:
                i += 1
            return str(i)
        return str(max([int(x) for x in ids] or [0]) + r.randint(1, 4))
