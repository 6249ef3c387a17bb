"""C21: settings and options in a configuration file - several programs, crashes, storage faults, damaged files - against a reference model."""
import random
import re

from . import gen, lab
from .kernel import K, Scheduler, h64
from .world import Violation

MODS = ('pywriter.config.configuration',)
KEYS = ['yw_last_open', 'color_text', 'windowGeometry', 'root_geometry', 'last_open', 'author', 'A', 'path_to_x', 'font.size', 'the-key', 'key2', 'schlüssel', 'set']
OPTS = ['export_all', 'ask', 'Verbose', 'ok', 'opt_2', 'skip_it', 'yes', 'no']
PATHS = ['/sim/home/app.ini', '/sim/home/.pywriter/app/config/app.ini', '/sim/work/Mein Ordner/x.ini']
TRUE = ('Yes', 'yes', 'TRUE', 'on', '1', 'True')
FALSE = ('No', 'no', 'off', '0', 'False', 'FALSE')
KINDS = ['eio', 'enospc', 'eacces', 'emfile', 'ebusy', 'erofs', 'enoent']


# ---------------------------------------------------------------- plans
def value(r, g):
    k = r.random()
    if k < 0.1:
        return ''
    if k < 0.25:
        return r.choice(['C:/Users/x y/novel.yw7', '1280x800+10+20', '#ff0000', '50%', '%(x)s', '%', 'a=b', 'a: b', '; c', '[SETTINGS]', '"quoted"', 'Yes', 'no', '0', '\\n', '$HOME', '${x}', "it's", 'None', 'a;b#c'])
    if k < 0.3:
        return 'x' * r.choice([200, 5000, 20000])
    return g.line(6).strip()


def values(r, g, keys, opts):
    return {k: value(r, g) for k in keys}, {o: r.random() < 0.5 for o in opts}


def plan(seed, tier, prop):
    r = random.Random(seed)
    g = gen.Gen(h64(seed, 1), r.choice(['plain', 'medium', 'medium']))
    keys = r.sample(KEYS, r.randint(0 if r.random() < .1 else 1, 6))
    opts = r.sample(OPTS, r.randint(0 if r.random() < .1 else 1, 4))
    plan = dict(seed=seed & 0xffffffff, epoch=1_600_000_000 + r.randrange(200_000_000), path=r.choice(PATHS), steps=[], envs=[dict(bufsize=r.choice([8192, 8192, 512, 1024]), encoding=r.choice(['utf-8', 'utf-8', 'cp1252'])) for _ in range(3)])
    steps = plan['steps']
    started = set()

    def start(k):
        ks = [x for x in keys if r.random() < 0.85] or keys
        os_ = [x for x in opts if r.random() < 0.85] or opts
        s, o = values(r, g, ks, os_)
        steps.append(dict(t='start', prog=k, settings=s, options=o))
        started.add(k)

    def faults(n, kinds):
        f = dict(at=r.randrange(n), kind=r.choice(kinds))
        if r.random() < 0.6:
            f['frac'] = round(r.random(), 3)
        out = [f]
        if f['kind'] != 'crash' and r.random() < 0.25:
            out.append(dict(at=f['at'] + r.randint(1, 3), kind=r.choice(kinds)))
        return out
    n = r.randint(2, 6 if tier == 'quick' else 14)
    for _ in range(n):
        k = r.choice([0, 0, 1, 2])
        if k not in started or r.random() < 0.25:
            start(k)
        x = r.random()
        if x < 0.35:
            st = dict(t='write', prog=k, seed=r.randrange(1 << 30))
            if r.random() < 0.55:
                st['faults'] = faults(9, r.choice([['crash'], ['crash'], KINDS, KINDS, ['full'], ['nomem'], ['intr'], ['short']]))
            steps.append(st)
        elif x < 0.7:
            st = dict(t='read', prog=k)
            if r.random() < 0.3:
                st['faults'] = faults(4, r.choice([KINDS, KINDS, ['short']]))
            steps.append(st)
        elif x < 0.85:
            how = r.choice(['trunc', 'trunc', 'garbage', 'nul', 'empty', 'del', 'utf16', 'bom', 'nohead', 'dupkey', 'dupsec', 'latin1', 'binary'])
            steps.append(dict(t='damage', how=how, pick=r.randrange(1 << 30)))
        elif x < 0.95:
            steps.append(dict(t='edit', pick=r.randrange(1 << 30)))
        else:
            b = (k + 1) % 3
            if b not in started:
                start(b)
            steps.append(dict(t='race', a=k, b=b, seed=r.randrange(1 << 30), sched=r.randrange(1 << 30)))
        if r.random() < 0.8:
            k = r.choice([0, 1, 2])
            if k not in started or r.random() < 0.3:
                start(k)
            steps.append(dict(t='read', prog=k))
    return plan


# ---------------------------------------------------------------- reference model
class State:
    """A possible content of the file: None (no file), a dict of sections, or a damaged text."""

    def __init__(self, sections=None, text=None, missing=False):
        self.sections, self.text, self.missing = sections, text, missing

    def predict(self, settings, options):
        """[(settings, options)] per key: sets of acceptable values"""
        if self.missing:
            return {k: {v} for k, v in settings.items()}, {k: {v} for k, v in options.items()}
        if self.sections is not None:
            s, o = {}, {}
            sec = {k.lower(): v for k, v in self.sections.get('SETTINGS', {}).items()}
            for k, v in settings.items():
                s[k] = {sec.get(k.lower(), v)}
            sec = {k.lower(): v for k, v in self.sections.get('OPTIONS', {}).items()}
            for k, v in options.items():
                t = sec.get(k.lower())
                o[k] = {v if t is None or t.lower() not in ('yes', 'no', 'on', 'off', '1', '0', 'true', 'false') else t.lower() in ('yes', 'on', '1', 'true')}
            return s, o
        s = {k: {v} for k, v in settings.items()}
        o = {k: {v, True, False} if re.search(r'(?im)^' + re.escape(k) + r'\s*[=:]', self.text) else {v} for k, v in options.items()}
        for k in s:
            for m in re.finditer(r'(?im)^' + re.escape(k) + r'[ \t]*[=:](.*)$', self.text):
                s[k].add(m.group(1).strip())
        return s, o

    def key(self):
        return 'missing' if self.missing else 'damaged' if self.sections is None else 'ok'


def render(sections, r):
    """An INI file as another program or the user may write it."""
    out = []
    names = list(sections)
    if r.random() < .4:
        r.shuffle(names)
    for n in names:
        if r.random() < .2:
            out.append(r.choice(['# comment', '; comment', '']))
        out.append(f'[{n}]')
        ks = list(sections[n].items())
        if r.random() < .4:
            r.shuffle(ks)
        for k, v in ks:
            if r.random() < .1:
                out.append(r.choice(['# x = y', '']))
            if r.random() < .3:
                k = r.choice([k.upper(), k.lower()]) if k.isascii() else k
            out.append(f'{k}{r.choice([" = ", "=", " : ", " = "])}{v}')
        out.append('')
    return '\n'.join(out) + r.choice(['', '\n'])


class Run:
    def __init__(self, prop, plan, fresh):
        self.plan = plan
        self.viol = []
        self.brief = []
        self.stats = dict(writes=0, reads=0, failed_writes=0, crashes=0, damages=0, races=0)
        self.states = set()
        self.progs = {}
        self.twins = {}
        self.ids = {}
        self.acc = [State(missing=True)]

    def v(self, text):
        self.viol.append(Violation('C21', self.i, text))

    def run(self):
        K.reset(self.plan['seed'], self.plan['epoch'])
        self.path = self.plan['path']
        K.fs.mkdirs(self.path.rsplit('/', 1)[0])
        self.decoys = {self.path.rsplit('/', 1)[0] + '/other.ini': b'[SETTINGS]\nx = 1\n', self.path + '.bak': b'decoy', '/sim/home/n.yw7': b'decoy'}
        for p, d in self.decoys.items():
            K.fs.put(p, d)
        for self.i, st in enumerate(self.plan['steps']):
            if st['t'] in ('write', 'read') and st['prog'] not in self.progs:
                continue
            getattr(self, 'do_' + st['t'])(st)
            for p, d in self.decoys.items():
                if K.fs.get(p) != d:
                    self.v(f'{p} was changed')
            for k, pr in self.progs.items():
                s0 = next(x for x in reversed(self.plan['steps'][:self.i + 1]) if x['t'] == 'start' and x['prog'] == k)
                if self.twins[k].settings != s0['settings'] or self.twins[k].options != s0['options']:
                    self.v('settings that were neither read nor set have changed')
            if self.viol:
                break

    def say(self, st, text):
        self.brief.append(f'{self.i}: {st["t"]} {st.get("prog", "")} {text}')

    def do_start(self, st):
        k = st['prog']
        old = self.progs.pop(k, None)
        p = lab.start(env=self.plan['envs'][k], modules=MODS)
        s, o = dict(st['settings']), dict(st['options'])
        r, c = lab.call(p, lambda m: m[MODS[0]].Configuration(s, o))
        if r != 'ok':
            self.v(f'the configuration cannot be created: {c}')
            return
        self.progs[k] = [p, c, dict(st['settings']), dict(st['options'])]
        # a second window of the same program, started with the same defaults
        r, self.twins[k] = lab.call(p, lambda m: m[MODS[0]].Configuration(s, o))
        self.check(self.progs[k], [({a: {b} for a, b in st['settings'].items()}, {a: {b} for a, b in st['options'].items()})], 'after the start')
        self.say(st, f'{len(s)} settings, {len(o)} options')

    def check(self, pr, preds, when):
        s, o = pr[1].settings, pr[1].options
        why = None
        for ps, po in preds:
            why = None
            if set(s) != set(ps) or set(o) != set(po):
                why = f'keys {sorted(s)} {sorted(o)}'
                continue
            for d, q in ((s, ps), (o, po)):
                for k in d:
                    if d[k] not in q[k] or isinstance(d[k], bool) != isinstance(next(iter(q[k])), bool):
                        why = why or f'{k} is {d[k]!r:.80}, expected {" or ".join(sorted(repr(x)[:80] for x in q[k]))}'
            if why is None:
                return True
        self.v(f'{when}: {why}')
        return False

    def arm(self, p, st):
        p.faults = {p.nops + f['at']: f for f in st.get('faults', ())}
        return len(K.fired_at)

    def calm(self, p):
        p.faults = {}
        K.disk.clear()
        K.sticky.clear()

    def do_read(self, st):
        pr = self.progs[st['prog']]
        p, c = pr[:2]
        n = self.arm(p, st)
        r, x = lab.call(p, lambda m: c.read(self.path))
        self.calm(p)
        fired = K.fired_at[n:]
        self.stats['reads'] += 1
        self.say(st, f'-> {r} {x or ""} {[f[2:4] for f in fired]}')
        self.states.add(h64('read', tuple(sorted({a.key() for a in self.acc})), tuple(f[2:4] for f in fired), r))
        if r == 'crash':
            self.progs.pop(st['prog'])
            return
        if r != 'ok':
            self.v(f'reading stopped the program: {x}')
            return
        hard = any(f[2] != 'short' for f in fired)
        preds = []
        for a in self.acc:
            ps, po = a.predict(pr[2], pr[3])
            if hard:
                ps = {k: v | {pr[2][k]} for k, v in ps.items()}
                po = {k: v | {pr[3][k]} for k, v in po.items()}
            preds.append((ps, po))
        if not self.check(pr, preds, 'after reading' + (' with a storage error' if hard else '')):
            return
        if not hard and len(self.acc) > 1:
            good = []
            for a, (ps, po) in zip(self.acc, preds):
                if all(c.settings[k] in ps[k] for k in ps) and all(c.options[k] in po[k] for k in po):
                    good.append(a)
            self.acc = good or self.acc
        pr[2], pr[3] = dict(c.settings), dict(c.options)

    def newvals(self, pr, seed):
        r = random.Random(seed)
        g = gen.Gen(h64(seed, 2), 'medium')
        s, o = values(r, g, list(pr[2]), list(pr[3]))
        keep = r.random() < 0.3
        s = {k: pr[2][k] if keep and r.random() < .5 else v for k, v in s.items()}
        return s, o, r.random() < 0.5

    def do_write(self, st):
        pr = self.progs[st['prog']]
        p, c = pr[:2]
        s, o, whole = self.newvals(pr, st['seed'])
        if whole:
            s1, o1 = dict(s), dict(o)
            r, x = lab.call(p, lambda m: c.set(s1, o1), gcnow=False)
            if r != 'ok':
                self.v(f'the configuration cannot be set: {x}')
                return
        else:
            c.settings.update(s)
            c.options.update(o)
        pr[2], pr[3] = dict(s), dict(o)
        n = self.arm(p, st)
        r, x = lab.call(p, lambda m: c.write(self.path))
        self.calm(p)
        fired = K.fired_at[n:]
        self.stats['writes'] += 1
        self.say(st, f'-> {r} {x or ""} {[f[2:4] for f in fired]}')
        self.states.add(h64('write', tuple(sorted({a.key() for a in self.acc})), tuple(f[2:4] for f in fired), r))
        new = State({k: v for k, v in (('SETTINGS', dict(s)), ('OPTIONS', {a: 'Yes' if b else 'No' for a, b in o.items()})) if v})
        if r == 'ok':
            self.acc = [new]
        else:
            self.stats['crashes' if r == 'crash' else 'failed_writes'] += 1
            if r == 'exc' and not any(f[2] != 'short' for f in fired):
                self.v(f'writing failed without any trouble: {x}')
            self.acc = self.acc + [new]
        if r == 'crash':
            self.progs.pop(st['prog'])

    def do_damage(self, st):
        r = random.Random(st['pick'])
        data = K.fs.get(self.path)
        how = st['how']
        if how == 'del':
            if data is not None:
                K.fs.delete(self.path)
            self.acc = [State(missing=True)]
        else:
            base = data if data else render({'SETTINGS': {'yw_last_open': 'x'}, 'OPTIONS': {'ask': 'Yes'}}, r).encode()
            t = base.decode('utf-8', 'replace')
            if how == 'trunc':
                b = base[:r.randrange(len(base) + 1)]
            elif how == 'garbage':
                b = bytearray(base)
                for _ in range(r.randint(1, 8)):
                    b[r.randrange(len(b))] = r.randrange(256)
                b = bytes(b)
            elif how == 'nul':
                b = bytes(len(base))
            elif how == 'empty':
                b = b''
            elif how == 'utf16':
                b = t.encode('utf-16')
            elif how == 'bom':
                b = b'\xef\xbb\xbf' + base
            elif how == 'nohead':
                b = re.sub(r'(?m)^\[.*\]\n', '', t).encode()
            elif how == 'dupkey':
                ls = t.split('\n')
                i = r.randrange(len(ls))
                b = '\n'.join(ls[:i] + [ls[i]] + ls[i:]).encode()
            elif how == 'dupsec':
                b = (t + '\n' + t).encode()
            elif how == 'latin1':
                b = (t + '\n[X]\ny = ä\n').encode('latin-1', 'replace')
            else:
                b = bytes(r.randrange(256) for _ in range(r.randrange(1, 300)))
            K.fs.put(self.path, b)
            self.acc = [State(text=b.decode('utf-8', 'replace').replace('\r\n', '\n').replace('\r', '\n'))]
        self.stats['damages'] += 1
        self.say(st, how)

    def do_edit(self, st):
        """A file another version of the program (or the user) wrote."""
        r = random.Random(st['pick'])
        g = gen.Gen(h64(st['pick'], 3), 'medium')
        ks = r.sample(KEYS, r.randint(0, 6))
        os_ = r.sample(OPTS, r.randint(0, 4))
        sec = {}
        s = {k: value(r, g) for k in ks}
        o = {k: r.choice([r.choice(TRUE), r.choice(FALSE), r.choice(['maybe', '', '2', 'ja', 'YESS', 'None', 'tr ue'])]) for k in os_}
        if s or r.random() < .5:
            sec['SETTINGS'] = s
        if o or r.random() < .5:
            sec['OPTIONS'] = o
        if r.random() < .4:
            sec['OTHER'] = {'x': '1', 'ask': 'No', 'author': 'nobody'}
        K.fs.put(self.path, render(sec, r).encode('utf-8'))
        self.acc = [State(sec)]
        self.say(st, str(sorted(sec)))

    def do_race(self, st):
        """One program reads while another one writes."""
        if st['a'] not in self.progs or st['b'] not in self.progs or st['a'] == st['b']:
            return
        A, B = self.progs[st['a']], self.progs[st['b']]
        s, o, whole = self.newvals(A, st['seed'])
        A[1].settings.update(s)
        A[1].options.update(o)
        A[2], A[3] = dict(s), dict(o)
        r = random.Random(st['sched'])
        sch = Scheduler(K, lambda alive, cur: r.choice(alive))
        res = {}
        ca, cb = A[1], B[1]
        path = self.path

        def wr():
            ca.write(path)
            return 'ok'

        def rd():
            cb.read(path)
            return 'ok'
        sch.spawn(A[0], wr)
        sch.spawn(B[0], rd)
        sch.run()
        ra, rb = A[0].result, B[0].result
        self.stats['races'] += 1
        self.say(st, f'writer {st["a"]} {ra!r:.60} reader {st["b"]} {rb!r:.60}')
        self.states.add(h64('race', tuple(sch.order)))
        new = State({k: v for k, v in (('SETTINGS', dict(s)), ('OPTIONS', {a: 'Yes' if b else 'No' for a, b in o.items()})) if v})
        if ra != 'ok':
            self.v(f'writing failed because another program reads: {ra!r}')
            return
        if rb != 'ok':
            self.v(f'reading stopped the program while another one writes: {rb!r}')
            return
        ps = {k: {v} for k, v in B[2].items()}
        po = {k: {v} for k, v in B[3].items()}
        for a in self.acc + [new]:
            qs, qo = a.predict(B[2], B[3])
            ps = {k: v | qs[k] for k, v in ps.items()}
            po = {k: v | qo[k] for k, v in po.items()}
        self.check(B, [(ps, po)], 'after reading while another program writes')
        B[2], B[3] = dict(cb.settings), dict(cb.options)
        self.acc = [new]


def execute(prop, plan, fresh, res):
    h = Run(prop, plan, fresh)
    res.brief = h.brief
    try:
        h.run()
    finally:
        res.stats, res.states, res.viol = h.stats, h.states, h.viol
