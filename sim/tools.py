"""C27: the translation tools of the repository (message template, PO files, the JSON dictionary all projects share) never lose a translation."""
import gettext
import io
import json
import random
import re

from . import lab
from .kernel import K, FS, h64
from .world import Violation

TR, PG, MF = 'translations', 'pgettext', 'msgfmt'
ROOT = '/sim/work'
DICT = ROOT + '/PyWriter/i18n/de.json'
PROJECTS = ['PyWriter', 'noveltree', 'yw-timeline', 'über app']
KINDS = ['eio', 'eacces', 'enospc', 'emfile', 'ebusy', 'erofs', 'edquot', 'nomem', 'full', 'short', 'crash', 'crash', 'intr']
WORDS = ('File Scene Chapter Character cannot open save export import %s {path} missing found Error: "yWriter" project!  (new) & \\n \\t é ü – … item list: done. /path it\'s 100% #1 id msgid "" str [1]').split(' ')


def message(r):
    return ' '.join(r.choice(WORDS) for _ in range(r.choice([1, 1, 2, 3, 6, 14]))).strip() or 'x'


def translation(r):
    t = ' '.join(r.choice(['Datei', 'Szene', 'Kapitel', 'größer', 'nicht', '%s', '{path}', 'geöffnet', '\\n', '\\"Zitat\\"', 'Ärger', '…', '#', 'msgstr', '„so“', '\\\\', '日本']) for _ in range(r.choice([1, 1, 2, 4, 20])))
    return t


def quoted(m):
    return m.replace('"', '\\"')


# ---------------------------------------------------------------- independent readers
class Bad(Exception):
    pass


def read_po(data):
    """(header present, [[message, translation], ...]) of a complete file of single-line entries; Bad otherwise."""
    if data is None:
        raise Bad('missing')
    try:
        text = data.decode('utf-8')
    except UnicodeError as ex:
        raise Bad(f'cannot decode: {ex}') from None
    if not text.endswith('\n'):
        raise Bad('cut off')
    blocks = re.split(r'\n(?=msgid )', text)
    out = []
    head = None
    for b in blocks[1:] if not blocks[0].startswith('msgid ') else blocks:
        lines = [x for x in b.split('\n') if x.strip() and not x.startswith('#')]
        m = re.fullmatch(r'msgid "(.*)"', lines[0])
        s = re.fullmatch(r'msgstr "(.*)"', lines[1]) if len(lines) > 1 else None
        if not m or not s:
            raise Bad(f'bad entry {b[:80]!r}')
        more = lines[2:]
        if m.group(1) == '':
            if head is not None:
                raise Bad('two headers')
            head = ''.join(more)
            continue
        if more:
            raise Bad(f'unexpected lines {more[:2]!r}')
        out.append([m.group(1), s.group(1)])
    if head is None or 'charset=UTF-8' not in head:
        raise Bad('header missing')
    return out


def read_dict(data):
    if data is None:
        raise Bad('missing')
    try:
        d = json.loads(data.decode('utf-8'))
    except Exception as ex:
        raise Bad(f'no JSON: {ex}') from None
    if not isinstance(d, dict):
        raise Bad('no dictionary')
    return d


PO_HEAD = '# Dictionary\nmsgid ""\nmsgstr ""\n"Project-Id-Version: 1\\n"\n"Language: de\\n"\n"MIME-Version: 1.0\\n"\n"Content-Type: text/plain; charset=UTF-8\\n"\n"Content-Transfer-Encoding: 8bit\\n"\n\n\n'


def render_po(entries):
    return PO_HEAD + ''.join(f'msgid "{m}"\nmsgstr "{t}"\n\n' for m, t in entries)


# ---------------------------------------------------------------- plans
def plan(seed, tier, prop):
    r = random.Random(seed)
    pool = []
    while len(pool) < r.choice([3, 8, 16, 30, 60]):
        m = message(r)
        if m not in pool:
            pool.append(m)
    n = r.choice([1, 2, 2, 3])
    prj = r.sample(PROJECTS, n)
    plan = dict(seed=seed & 0xffffffff, epoch=1_600_000_000 + r.randrange(200_000_000), projects={}, dict=None, steps=[],
                env=dict(bufsize=r.choice([8192, 8192, 512, 1024, 4096]), encoding=r.choice(['utf-8', 'utf-8', 'cp1252'])))
    for p in prj:
        have = r.sample(pool, r.randint(1, len(pool)))
        plan['projects'][p] = dict(messages=have, po=[[quoted(m), translation(r) if r.random() < .6 else ''] for m in sorted(r.sample(pool, r.randint(0, len(pool))))] if r.random() < .7 else None)
    if r.random() < .8:
        plan['dict'] = {quoted(m): translation(r) for m in pool + [message(r) for _ in range(r.choice([0, 3, 20]))] if r.random() < .6}
    steps = plan['steps']
    for _ in range(r.choice([2, 4, 6, 9] if tier == 'quick' else [6, 12, 20])):
        p = r.choice(prj)
        x = r.random()
        if x < .25:
            st = dict(t='pot', prj=p)
        elif x < .4:
            steps.append(dict(t='code', prj=p, messages=r.sample(pool, r.randint(1, len(pool))), where=r.randrange(1 << 30)))
            st = dict(t='pot', prj=p)
        elif x < .55:
            steps.append(dict(t='edit', prj=p, pick=r.randrange(1 << 30), n=r.choice([1, 2, 5, 40])))
            st = dict(t='update', prj=p, json=r.random() < .7)
        elif x < .6:
            steps.append(dict(t='dictedit', pick=r.randrange(1 << 30), n=r.randint(1, 4)))
            continue
        elif x < .65:
            st = dict(t='mo', prj=p)
        elif x < .69:
            st = dict(t='catalog', prj=p, pick=r.randrange(1 << 30))
        else:
            st = dict(t='update', prj=p, json=r.random() < .7)
        if st['t'] not in ('mo', 'catalog') and r.random() < .4:
            st['faults'] = [dict(at=r.randrange(14 if st['t'] == 'pot' else 22), kind=r.choice(KINDS), frac=round(r.random(), 3))]
            if r.random() < .3:
                st['faults'].append(dict(at=st['faults'][0]['at'] + r.randint(1, 4), kind=r.choice(KINDS), frac=round(r.random(), 3)))
        steps.append(st)
        if 'faults' in st and r.random() < .7:
            steps.append({k: v for k, v in st.items() if k != 'faults'})
    return plan


class Run:
    def __init__(self, prop, plan, fresh):
        self.plan = plan
        self.viol = []
        self.brief = []
        self.stats = dict(templates=0, updates=0, failed=0, crashed=0, edits=0, mo=0, restored=0)
        self.states = set()

    def v(self, text):
        self.viol.append(Violation('C27', self.i, text))

    def say(self, st, text):
        self.brief.append(f'{self.i}: {st["t"]} {st.get("prj", "")} {text}')

    def run(self):
        K.reset(self.plan['seed'], self.plan['epoch'])
        for d in (ROOT + '/PyWriter/i18n', ROOT + '/PyWriter/src'):
            K.fs.mkdirs(d)
        self.want = {}
        for p, d in self.plan['projects'].items():
            for x in ('i18n', 'src/sub', 'tools'):
                K.fs.mkdirs(f'{ROOT}/{p}/{x}')
            self.code(p, d['messages'], h64(self.plan['seed'], p))
            if d['po'] is not None:
                K.fs.put(f'{ROOT}/{p}/i18n/de.po', render_po(d['po']).encode('utf-8'))
        if self.plan['dict'] is not None:
            K.fs.put(DICT, json.dumps(self.plan['dict'], ensure_ascii=False, indent=1).encode('utf-8'))
        for self.i, st in enumerate(self.plan['steps']):
            if 'prj' in st:
                self.dir = f'{ROOT}/{st["prj"]}'
                self.po, self.pot = self.dir + '/i18n/de.po', self.dir + '/i18n/messages.pot'
            getattr(self, 'do_' + st['t'])(st)
            if self.viol:
                break
        return self

    # the developer
    def code(self, p, messages, pick):
        r = random.Random(pick)
        files = {'src/a.py': [], 'src/sub/b.py': [], 'src/c.txt': []}
        for m in messages:
            f = r.choice(['src/a.py', 'src/sub/b.py'])
            for _ in range(r.choice([1, 1, 1, 2])):
                if '"' in m and "'" in m or m.endswith("'") or m.endswith('"'):
                    continue
                q = "'" if '"' in m else '"' if "'" in m else r.choice('\'"')
                files[f].append(f'print(_({q}{m}{q}))')
        files['src/c.txt'] = ['_("not a source")']
        for f, ls in files.items():
            K.fs.put(f'{ROOT}/{p}/{f}', ('# code\n' + '\n'.join(ls) + '\n').encode('utf-8'))
        self.want[p] = sorted({m for m in messages if not ('"' in m and "'" in m or m.endswith("'") or m.endswith('"'))})

    def do_code(self, st):
        self.code(st['prj'], st['messages'], st['where'])
        self.say(st, f'{len(st["messages"])} messages')

    # the translator
    def do_edit(self, st):
        try:
            es = read_po(K.fs.get(self.po))
        except Bad:
            return
        r = random.Random(st['pick'])
        for _ in range(st['n']):
            if es:
                e = r.choice(es)
                e[1] = translation(r) if r.random() < .85 else ''
        K.fs.put(self.po, render_po(es).encode('utf-8'))
        self.stats['edits'] += 1
        self.say(st, f'{len(es)} entries')

    def do_dictedit(self, st):
        try:
            d = read_dict(K.fs.get(DICT))
        except Bad:
            return
        r = random.Random(st['pick'])
        for _ in range(st['n']):
            d[r.choice(sorted(d)) if d and r.random() < .7 else quoted(message(r))] = translation(r)
        K.fs.put(DICT, json.dumps(d, ensure_ascii=False, sort_keys=True, indent=2).encode('utf-8'))
        self.say(st, f'{len(d)} entries')

    # the tools
    def tool(self, st, f, mods):
        p = lab.start(cwd=self.dir + ('/src' if st['prj'] == 'PyWriter' else '/tools'), env=self.plan['env'], modules=mods)
        p.faults = {p.nops + x['at']: dict(x) for x in st.get('faults', ())}
        n = len(K.fired_at)
        r, x = lab.call(p, f)
        p.faults = {}
        K.disk.clear()
        K.sticky.clear()
        self.fired = [y for y in K.fired_at[n:] if y[2] != 'short']
        self.broken = r == 'crash' or any(y[2] == 'intr' for y in self.fired)  # ended in the middle
        self.text = ''.join(p.stdout)
        self.say(st, f'-> {r} {str(x)[:80]} {[y[2:4] for y in self.fired]}')
        self.states.add(h64(st['t'], st.get('json'), r, str(x) if isinstance(x, bool) else '', tuple(y[2:] for y in self.fired), K.fs.get(DICT) is None, K.fs.get(self.po) is None, K.fs.get(self.pot) is None))
        self.stats['crashed' if r == 'crash' else 'failed'] += bool(self.fired)
        return r, x

    def others(self, snap, mine):
        after = K.fs.snapshot()
        for f in sorted(set(snap) | set(after)):
            if f not in mine and snap.get(f, 0) != after.get(f, 0):
                self.v(f'{f} was {"removed" if f not in after else "created" if f not in snap else "changed"}')

    def version(self, path, snap, new, done):
        """Which version is there after a run?  'old', 'new' or None (and a violation).  new(data): is it the complete new version?"""
        old, data = snap.get(path), K.fs.get(path)
        name = path[len(ROOT) + 1:]
        if data is not None and (data != old or done):
            why = new(data)
            if why is None:
                if old is not None and data != old and K.fs.get(path + '.bak') != old:
                    self.v(f'{name} was replaced, but the replaced version is not the backup')
                return 'new'
        else:
            why = 'missing' if data is None else 'not updated'
        if done:
            self.v(f'success is reported, but {name} is not what it should be: {why}')
            return None
        if data == old:
            return 'old'
        if self.broken or len(self.fired) > 1:
            if old is None:
                K.fs.delete(path)  # there was nothing before; the user starts again
                return 'old'
            if K.fs.get(path + '.bak') == old:
                K.fs.put(path, old)
                K.fs.delete(path + '.bak')
                self.stats['restored'] += 1
                return 'old'
            self.v(f'the last complete {name} is neither there nor in the backup')
            return None
        self.v(f'after an error {name} is {"an incomplete file" if old is None else "not the previous version"}: {why}')
        return None

    def do_pot(self, st):
        snap = K.fs.snapshot()
        r, x = self.tool(st, lambda m: m[PG].main('../src'), [PG])
        self.stats['templates'] += 1
        want = [quoted(m) for m in self.want[st['prj']]]

        def new(data):
            try:
                es = read_po(data + b'\n' if data and not data.endswith(b'\n') else data)
            except Bad as ex:
                # the template's header has its own form
                return str(ex)
            if [e[0] for e in es] != want:
                return f'messages {sorted(set(want) ^ {e[0] for e in es})[:4]} or their order'
            return 'translations' if any(e[1] for e in es) else None
        done = r == 'ok' and 'ERROR' not in self.text
        if not self.fired and not done:
            self.v(f'the template cannot be written: {x} {self.text[-200:]}')
            return
        self.version(self.pot, snap, new, done)
        self.others(snap, {self.pot, self.pot + '.bak'})

    def do_update(self, st):
        if K.fs.get(self.pot) is None:
            return
        snap = K.fs.snapshot()
        try:
            pot = sorted(m for m, t in read_po(snap[self.pot]))
            old = {m: t for m, t in read_po(snap[self.po]) if t} if self.po in snap else {}
            dic = read_dict(snap[DICT]) if DICT in snap else {}
        except Bad as ex:
            self.v(f'the files are not readable any more: {ex}')
            return
        self.stats['updates'] += 1
        r, x = self.tool(st, lambda m: m[TR].main('de', app='App', json=st['json']), [TR])
        full = {**dic, **old} if st['json'] else old
        full = {k: v for k, v in full.items() if v}
        want = [[m, full.get(m, '')] for m in pot]

        def newpo(data):
            try:
                es = read_po(data)
            except Bad as ex:
                return str(ex)
            if es != want:
                d = [(a, b) for a, b in zip(want, es) if a != b]
                return f'entries: {str(d[:1])[:200] if d else f"{len(es)} instead of {len(want)}"}'
            return None

        def newdict(data):
            try:
                d = read_dict(data)
            except Bad as ex:
                return str(ex)
            if d != full:
                k = sorted(k for k in set(d) | set(full) if d.get(k) != full.get(k))[0]
                return f'translation of {k!r}: {d.get(k)!r}, expected {full.get(k)!r}'
            return None
        if not self.fired:
            if r != 'ok':
                self.v(f'the update failed without any trouble: {x}')
                return
            if x is not all(t for m, t in want):
                self.v(f'the update reports {x}, but {sum(not t for m, t in want)} translations are missing')
                return
        done = r == 'ok' and (x is True or not self.fired)
        if x is True and not all(t for m, t in want):
            self.v('the update reports that all messages are translated')
            return
        v = self.version(self.po, snap, newpo, done)
        w = 'old'
        mine = {self.po, self.po + '.bak'}
        if st['json']:
            w = self.version(DICT, snap, newdict, done)
            mine |= {DICT, DICT + '.bak'}
        if self.viol:
            return
        self.others(snap, mine)
        if st['json'] and v == 'new' and w == 'old':
            lost = sorted(k for k, t in old.items() if k not in pot and dic.get(k) != t)
            if lost:
                self.v(f'the translation of {lost[0]!r} was removed from the PO file, but it is not in the dictionary')

    def do_mo(self, st):
        """The compiled dictionary says what the PO file says."""
        try:
            es = read_po(K.fs.get(self.po))
        except Bad:
            return
        mo = self.dir + '/i18n/app.mo'
        snap = K.fs.snapshot()
        r, x = self.tool(st, lambda m: m[MF].make('../i18n/de.po', '../i18n/app.mo'), [MF])
        self.stats['mo'] += 1
        if r != 'ok':
            self.v(f'no MO file: {x}')
            return
        self.others(snap, {mo})
        try:
            cat = gettext.GNUTranslations(io.BytesIO(K.fs.get(mo) or b''))
        except Exception as ex:
            self.v(f'the MO file cannot be read: {type(ex).__name__} {ex}')
            return
        un = lambda t: json.loads('"' + t + '"')
        for m, t in es:
            if t and cat.gettext(un(m)) != un(t):
                self.v(f'the MO file says {cat.gettext(un(m))!r} for {m!r} instead of {t!r}')
                return


    def do_catalog(self, st):
        """A PO file as the usual programs for translators write it."""
        r = random.Random(st['pick'])
        entries, want, plural, absent = [], {}, {}, []
        seen = set()

        def lines(key, t):
            t = t.replace('\\', '\\\\').replace('"', '\\"').replace('\t', '\\t')
            if '\n' not in t and r.random() < .7:
                return [f'{key} "{t}"']
            parts = t.split('\n')
            parts = [x + '\\n' for x in parts[:-1]] + ([parts[-1]] if parts[-1] else [])
            return [f'{key} ""'] + [f'"{x}"' for x in parts]
        word = lambda: ' '.join(r.choice(['Datei', 'Szene', 'größer', '%s', '{path}', 'nicht', '"so"', 'a\\b', '日本', '# x', 'msgid', 'fuzzy']) for _ in range(r.choice([1, 2, 4]))) + r.choice(['', '', '', '\n', '\nzwei', '\tx'])
        for _ in range(r.choice([1, 3, 8, 20])):
            m, t = word(), word()
            ctx = r.choice([None, None, None, 'menu', 'Knopf'])
            if (ctx, m) in seen:
                continue
            seen.add((ctx, m))
            e = []
            fuzzy = r.random() < .15
            if r.random() < .4:
                e += ['# Übersetzer: msgid "x"', '#: src/a.py:12']
            if fuzzy:
                e += ['#, fuzzy, python-format' if r.random() < .5 else '#, fuzzy']
            elif r.random() < .2:
                e += ['#, python-format']
            if ctx:
                e += [f'msgctxt "{ctx}"']
            e += lines('msgid', m)
            empty = r.random() < .15
            if r.random() < .15:
                m2, t2 = word(), word()
                e += lines('msgid_plural', m2) + lines('msgstr[0]', '' if empty else t) + lines('msgstr[1]', '' if empty else t2)
                if not fuzzy and not empty:
                    plural[ctx, m] = (m2, t, t2)
                elif fuzzy:
                    absent.append((ctx, m))
            else:
                e += lines('msgstr', '' if empty else t)
                if fuzzy or empty:
                    absent.append((ctx, m))
                else:
                    want[ctx, m] = t
            entries.append('\n'.join(e))
        if r.random() < .2:
            entries.append('#~ msgid "old"\n#~ msgstr "alt"')
        po = self.dir + '/i18n/edited.po'
        K.fs.put(po, ('msgid ""\nmsgstr ""\n"Language: de\\n"\n"MIME-Version: 1.0\\n"\n"Content-Type: text/plain; charset=UTF-8\\n"\n"Plural-Forms: nplurals=2; plural=(n != 1);\\n"\n' + r.choice(['\n', '\n\n'])
                       + r.choice(['\n\n', '\n\n\n']).join(entries) + '\n').encode('utf-8'))
        mo = self.dir + '/i18n/edited.mo'
        snap = K.fs.snapshot()
        r_, x = self.tool(st, lambda m: m[MF].make('../i18n/edited.po', '../i18n/edited.mo'), [MF])
        self.stats['mo'] += 1
        if r_ != 'ok':
            self.v(f'no MO file: {x}')
            return
        self.others(snap, {mo})
        try:
            cat = gettext.GNUTranslations(io.BytesIO(K.fs.get(mo) or b''))
        except Exception as ex:
            self.v(f'the MO file cannot be read: {type(ex).__name__} {ex}')
            return
        one = lambda c, m: cat.gettext(m) if c is None else cat.pgettext(c, m)
        for (c, m), t in want.items():
            if one(c, m) != t:
                self.v(f'the MO file says {one(c, m)!r} for {m!r} (context {c}) instead of {t!r}')
                return
        for (c, m), (m2, t, t2) in plural.items():
            got = [cat.ngettext(m, m2, n) if c is None else cat.npgettext(c, m, m2, n) for n in (1, 5)]
            if got != [t, t2]:
                self.v(f'the MO file says {got} for {m!r} / {m2!r} (context {c}) instead of {[t, t2]}')
                return
        for c, m in absent:
            if one(c, m) != m:
                self.v(f'the MO file says {one(c, m)!r} for {m!r} (context {c}), which has no (confirmed) translation')
                return


def execute(prop, plan, fresh, res):
    h = Run(prop, plan, fresh)
    res.brief = h.brief
    try:
        h.run()
    finally:
        res.stats, res.states, res.viol = h.stats, h.states, h.viol
