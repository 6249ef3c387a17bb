"""C22: the desktop application (main window) opening, closing and re-opening projects, together with other programs that save, lock, damage or remove them."""
import copy
import os
import random

from . import gen, kernel, lab, model, tkstub, ywstub
from .apps import NV, YW, picture, held, subset, unify
from .kernel import K, h64
from .world import Violation

TK, CFG, ER = 'pywriter.ui.main_tk', 'pywriter.config.configuration', 'pywriter.pywriter_globals'
MODS = (YW, NV, TK, CFG)
PATHS = ['/sim/work/Roman.yw7', '/sim/work/My novel.yw7', '/sim/home/ein Ordner/größe.yw7', '/sim/home/n.yw7']
MISSING = '/sim/work/gone.yw7'
INI = '/sim/home/app.ini'
STYLES = [{}, {'bom': False}, {'flat': True}, {'nocdata': True}, {'crlf': True}, {'enc': 'utf-16'}]
KINDS = ['eio', 'eacces', 'emfile', 'enoent', 'ebusy', 'short', 'nomem', 'intr', 'crash']


# ---------------------------------------------------------------- plans
def plan(seed, tier, prop):
    r = random.Random(seed)
    lv = r.choice(['plain', 'medium', 'medium', 'hard'])
    paths = r.sample(PATHS, r.choice([1, 2, 2]))
    trees = []
    for k, _ in enumerate(paths):
        g = gen.Gen(h64(seed, k), lv, size=r.choice([0.5, 1, 1.5]), foreign=r.choice([0, 0, .15]))
        t = g.project()
        p = ywstub.child(t, 'PROJECT')
        for tag in ('Title', 'AuthorName'):
            if r.random() < .15:
                ywstub.set_child(p, tag, r.choice([None, '']))
        trees.append(t)
    plan = dict(seed=seed & 0xffffffff, epoch=1_600_000_000 + r.randrange(200_000_000), paths=paths, trees=trees, styles=[dict(r.choice(STYLES)) for _ in paths], level=lv, steps=[],
                env=dict(bufsize=r.choice([8192, 512]), encoding=r.choice(['utf-8', 'cp1252'])))

    def target():
        x = r.random()
        return MISSING if x < .06 else '/sim/work' if x < .08 else r.choice(paths)

    def acts(late):
        a = r.choice(['yw', 'yw', 'lock', 'unlock', 'lock', 'gone', 'mend', 'break'])
        return dict(a=a, path=r.choice(paths), pick=r.randrange(1 << 30), n=r.choice([1, 2, 4]), how=r.choice(['trunc', 'trunc', 'garbage', 'empty', 'other', 'halfsec', 'latin']))
    steps = plan['steps']
    for _ in range(r.randint(3, 9 if tier == 'quick' else 24)):
        x = r.random()
        if x < .55:
            s = dict(t='open', arg=r.choice(['', target(), target(), target()]), choice='' if r.random() < .2 else target(), via=r.choice(['call', 'menu', 'key']))
            if s['via'] != 'call':
                s['arg'] = ''
            if r.random() < .25:
                s['faults'] = [dict(at=r.randrange(8), kind=r.choice(KINDS), frac=round(r.random(), 3))]
                if r.random() < .5:
                    s['faults'] += [dict(at=s['faults'][0]['at'] + k, kind=r.choice(KINDS[:5])) for k in (1, 2)]
            if r.random() < .25:
                s['acts'] = [dict(acts(True), at=r.randrange(8))]
            if r.random() < .15:
                s['askacts'] = [acts(False)]
        elif x < .65:
            s = dict(t='close', via=r.choice(['call', 'menu']))
        elif x < .75:
            s = dict(t='esc', via=r.choice(['key', 'click']))
        elif x < .93:
            s = dict(t='act', act=acts(False))
        else:
            s = dict(t='quit', via=r.choice(['key', 'window', 'menu']), geometry=f'{r.randint(200, 900)}x{r.randint(200, 900)}+{r.randint(0, 99)}+{r.randint(0, 99)}')
        steps.append(s)
        if s['t'] == 'act' and r.random() < .6:
            steps.append(dict(t='open', arg=s['act']['path'], choice='', via='call'))
            if r.random() < .4:
                steps.append(dict(t='act', act=dict(s['act'], a='mend')))
    return plan


# ---------------------------------------------------------------- execution
class Run:
    def __init__(self, prop, plan, fresh):
        self.prop, self.plan, self.fresh = prop, plan, fresh
        self.viol = []
        self.brief = []
        self.stats = dict(opened=0, refused=0, cancelled=0, closed=0, quits=0, crashes=0, acts=0)
        self.states = set()
        self.cache = {}
        self.keep = {}
        self.p = None

    def v(self, text):
        self.viol.append(Violation(self.prop, self.i, text))

    def run(self):
        K.reset(self.plan['seed'], self.plan['epoch'])
        K.fs.mkdirs('/sim/work')
        for path, t, st in zip(self.plan['paths'], self.plan['trees'], self.plan['styles']):
            K.fs.mkdirs(path.rsplit('/', 1)[0])
            K.fs.put(path, ywstub.render(t, st))
        self.kwargs = dict(yw_last_open='', root_geometry='')
        self.last = {''}  # what may be remembered as the project opened last
        for self.i, st in enumerate(self.plan['steps']):
            if self.p is None or self.p.dead:
                self.start()
                if self.viol:
                    return
            getattr(self, 'do_' + st['t'])(st)
            if self.viol:
                return

    # ------------------------------------------------------------ the application
    def start(self):
        self.p = lab.start(env=self.plan['env'], modules=MODS)
        kw = {}

        def f(m):
            c = m[CFG].Configuration(dict(yw_last_open='', root_geometry=''), {})
            c.read(INI)
            kw.update(c.settings)
            self.app = m[TK].MainTk('Simulated', **c.settings)
        res, x = lab.call(self.p, f)
        if res != 'ok':
            self.v(f'the application does not start: {x}')
            return
        if kw != self.kwargs:
            self.v(f'the settings saved on quitting do not come back: {self.kwargs} -> {kw}')
        self.say('start')
        if kw['root_geometry'] and self.app.root.geom != kw['root_geometry']:
            self.v(f'the window does not come back where it was: {self.app.root.geom!r} instead of {kw["root_geometry"]!r}')
        self.state = None  # path of the open project
        self.shows = None  # what the status bar shows as a fault
        self.look('started')

    def say(self, text):
        self.brief.append(f'{self.i}: {text}'[:200])

    def do(self, f):
        return lab.call(self.p, lambda m: f(self.app))

    def look(self, what):
        """What the user sees has to agree with what the application holds."""
        a = self.app
        label = [e['label'] for e in a.fileMenu.entries if e.get('command') is not None]
        close = [e for e in a.fileMenu.entries if 'state' in e]
        if len(close) != 1:
            self.v(f'{what}: the menu has {len(close)} entries with a state: {label}')
            return
        title, path, status, red = a.root.titleText, a.pathBar.options.get('text'), a.statusBar.options.get('text'), a.statusBar.options.get('background') == 'red'
        if self.state is None:
            if a.prjFile is not None:
                self.v(f'{what}: the application holds {a.prjFile.filePath}')
            elif title != 'Simulated' or path != '':
                self.v(f'{what}: no project is open, but the window shows {title!r}, {path!r}')
            elif close[0]['state'] != 'disabled':
                self.v(f'{what}: no project is open, but "{close[0]["label"]}" is enabled')
        else:
            if a.prjFile is None or a.novel is not a.prjFile.novel:
                self.v(f'{what}: the application does not hold {self.state}')
                return
            if a.prjFile.filePath != self.state:
                self.v(f'{what}: the application holds {a.prjFile.filePath} instead of {self.state}')
            elif path != os.path.normpath(self.state):
                self.v(f'{what}: {self.state} is open, but the window shows {path!r}')
            elif close[0]['state'] != 'normal':
                self.v(f'{what}: a project is open, but "{close[0]["label"]}" is {close[0]["state"]}')
            else:
                n = a.novel
                if title != f'{n.title or "Untitled project"} by {n.authorName or "Unknown author"} - Simulated':
                    self.v(f'{what}: the title bar shows {title!r} for {n.title!r} by {n.authorName!r}')
        if red != (self.shows is not None) or red and not status:
            self.v(f'{what}: the status bar shows {status!r} {"" if red else "not "}as an error')

    # ------------------------------------------------------------ what is to be expected
    def newly(self, path, data, locked):
        key = (path, data, locked)
        if key not in self.cache:
            snap = {path: data} if data is not None else {}
            if locked:
                snap[path + '.lock'] = b''
            snap[path.rsplit('/', 1)[0]] = None
            with lab.Isolated(snap):
                p = lab.start(modules=(YW, NV))

                def f(m):
                    prj = m[YW].Yw7File(path)
                    prj.novel = m[NV].Novel()
                    prj.read()
                    if data is not None and model.loadable(data):
                        d = model.diff(subset(model.canon_tree(unify(ywstub.parse(data)))), held(prj.novel))
                        if d:
                            return 'not what the file contains: ' + d
                    return picture(prj.novel)
                self.cache[key] = lab.call(p, f, gcnow=False)
        return self.cache[key]

    def versions(self):
        return {p: (K.fs.get(p), K.fs.get(p + '.lock') is not None) for p in self.plan['paths'] + [MISSING]}

    # ------------------------------------------------------------ steps
    def act(self, a):
        path = a['path']
        cur, K.current = K.current, None
        try:
            fs = K.fs
            d = fs.get(path)
            k = a['a']
            self.stats['acts'] += 1
            if k == 'lock':
                fs.put(path + '.lock', b'')
            elif k == 'unlock':
                if fs.get(path + '.lock') is not None:
                    fs.delete(path + '.lock')
            elif k == 'gone':
                if d is not None:
                    self.keep.setdefault(path, d)
                    fs.delete(path)
            elif k == 'mend':
                if path in self.keep:
                    fs.put(path, self.keep.pop(path))
                if fs.get(path + '.lock') is not None:
                    fs.delete(path + '.lock')
            elif k == 'yw':
                if d is not None and model.loadable(d):
                    if 'ops' not in a:
                        g = gen.Gen(h64(a['pick'], 'y'), self.plan['level'])
                        a['ops'] = copy.deepcopy(g.edits(ywstub.parse(d), a['n']))
                    try:
                        fs.put(path, ywstub.edit_bytes(d, a['ops'], {}))
                    except ywstub.BadProject:
                        pass
            elif k == 'break' and d and model.loadable(d):
                r = random.Random(a['pick'])
                self.keep.setdefault(path, d)
                how = a['how']
                if how == 'trunc':
                    b = d[:r.randrange(len(d))]
                elif how == 'garbage':
                    b = bytearray(d)
                    for _ in range(r.randint(1, 5)):
                        b[r.randrange(len(b))] = r.randrange(256)
                    b = bytes(b)
                elif how == 'empty':
                    b = b''
                elif how == 'other':
                    b = b'<html><body/></html>'
                elif how == 'latin':
                    b = b'<?xml version="1.0" encoding="iso-8859-1"?>\n<html><body>\xe4\xf6\xfc</body></html>\n'
                else:
                    t = ywstub.parse(d)
                    t[1].remove(ywstub.child(t, r.choice(['LOCATIONS', 'ITEMS', 'CHARACTERS', 'SCENES', 'CHAPTERS', 'PROJECT'])))
                    b = ywstub.render(t)
                fs.put(path, b)
        finally:
            K.current = cur
        self.seen.append(self.versions())

    def do_act(self, st):
        self.seen = []
        self.act(st['act'])
        self.say(f'{st["act"]["a"]} {os.path.basename(st["act"]["path"])}')

    def menu(self, app, key):
        """A command of the file menu: 0 open, 1 close, 2 exit - chosen by its place, as long as it is enabled."""
        e = [e for e in app.fileMenu.entries if e.get('command') is not None][key]
        if e.get('state') == 'disabled':
            return None
        return e['command']()

    def do_open(self, st):
        p, a = self.p, self.app
        s = tkstub.seen(p)
        self.seen = [self.versions()]
        nbox = len(s.boxes)
        acted = []

        def choose(options):
            cur, K.current = K.current, None
            try:
                for x in st.get('askacts', ()):
                    self.act(x)
                acted.append(len(self.seen))
            finally:
                K.current = cur
            return st['choice']
        s.choose = choose
        before = (self.state, a.root.titleText, a.pathBar.options.get('text'), a.prjFile, a.novel, picture(a.novel) if a.novel is not None else None)
        p.faults = {p.nops + f['at']: f for f in st.get('faults', ())}
        for x in st.get('acts', ()):
            p.events.setdefault(p.nops + x['at'], []).append(lambda x=x: self.act(x))
        n = len(K.fired_at)
        snap = K.fs.snapshot()
        nseen = len(self.seen)

        def f(app):
            if st['via'] == 'menu':
                return self.menu(app, 0)
            if st['via'] == 'key':
                return app.root.bindings['<Control-o>'](None)
            return app.open_project(st['arg'])
        res, x = self.do(f)
        p.faults, p.events = {}, {}
        K.disk.clear()
        K.sticky.clear()
        fired = K.fired_at[n:]
        boxes = s.boxes[nbox:]
        dialog = [b for b in boxes if b[0] == 'choose']
        self.say(f'open {st["arg"]!r} ({st["via"]}, dialog: {len(dialog)} {st["choice"]!r}) -> {res} {x} {[y[2:4] for y in fired]} {len(self.seen)} versions')
        self.states.add(h64('open', st['via'], res, x if isinstance(x, bool) else None, tuple(y[2:4] for y in fired), len(dialog), bool(st['choice']), len(self.seen), before[0] is None))
        if res == 'crash':
            self.stats['crashes'] += 1
            self.p = None
            self.last = {self.kwargs['yw_last_open']}
            return
        if len(self.seen) == nseen and K.fs.snapshot() != snap:
            self.v('opening a project changes files')
            return
        intr = any(y[2] == 'intr' for y in fired)
        if res == 'exc':
            if not intr:
                self.v(f'opening {st["arg"] or st["choice"]} does not end properly: {x}')
            else:
                # the application has been stopped
                self.p = None
                self.last = {self.kwargs['yw_last_open']}
            return
        # which file is meant?
        arg = st['arg']
        alive = [v.get(arg, (None,))[0] is not None for v in self.seen]
        troubled = bool(fired)
        if not troubled:
            if arg and all(alive) and dialog:
                self.v(f'{arg} exists, but the user is asked for another one')
                return
            if not any(alive) and len(dialog) != 1:
                self.v(f'the user has to choose a project, but {len(dialog)} dialogs are shown')
                return
        path = st['choice'] if dialog else arg
        if not path:
            self.stats['cancelled'] += 1
            if x:
                self.v('opening is reported as successful, although the user cancelled')
                return
            if (self.state, a.root.titleText, a.pathBar.options.get('text'), a.prjFile, a.novel) != before[:5] or a.novel is not None and model.diff(before[5], picture(a.novel)):
                self.v('a cancelled dialog changes what the application holds')
                return
            self.shows = None
            self.look('cancelled')
            return
        cands = {v.get(path, (None, False)) for v in self.seen[(acted[0] - 1 if acted else 0):]}
        outs = [self.newly(path, d, l) for d, l in cands]
        # the lock is looked at before the file is read
        outs += [self.newly(path, d, False) for d, l in cands if l and any(not y for z, y in cands)]
        bad = [o for k, o in outs if k == 'ok' and isinstance(o, str)]
        if bad:
            self.v(f'what has been read is {bad[0]}')
            return
        good = [o for k, o in outs if k == 'ok']
        opened = a.prjFile is not None
        ret = x if st['via'] == 'call' else opened
        if ret:
            self.stats['opened'] += 1
            if not opened:
                self.v(f'opening {path} is reported as successful, but no project is open')
                return
            if all(l for d, l in cands):
                self.v(f'{path} has been opened, although yWriter has it open')
                return
            if not good:
                self.v(f'{path} has been opened, although it cannot be read')
                return
            pic = picture(a.novel)
            if not any(not model.diff(o, pic) for o in good):
                self.v(f'the application holds something else than {path}: {model.diff(good[0], pic)}')
                return
            self.state, self.shows = path, None
            self.last = {path}
            self.look(f'{path} opened')
        else:
            self.stats['refused'] += 1
            if len(good) == len(outs) and not [y for y in fired if y[2] != 'short']:
                self.v(f'{path} cannot be opened: {a.statusBar.options.get("text")!r}')
                return
            why = {o.split(': ', 1)[1].strip() for k, o in outs if k == 'exc'}
            status = a.statusBar.options.get('text')
            if not fired and why and str(status).strip() not in why:
                self.v(f'{path} cannot be opened for {why}, but the window says {status!r}')
                return
            self.state, self.shows = None, True
            self.last.add(path)
            self.look(f'{path} refused')

    def do_close(self, st):
        if self.state is None:
            if st['via'] == 'menu':
                self.do(lambda app: self.menu(app, 1))
            self.look('closing while no project is open')
            return
        snap = K.fs.snapshot()
        res, x = self.do(lambda app: self.menu(app, 1) if st['via'] == 'menu' else app.close_project())
        self.stats['closed'] += 1
        self.say('close')
        if res != 'ok':
            self.v(f'closing does not end properly: {x}')
        if K.fs.snapshot() != snap:
            self.v('closing changes files')
        self.state, self.shows = None, None
        self.look('closed')

    def do_esc(self, st):
        res, x = self.do(lambda app: (app.root.bindings['<Escape>'] if st['via'] == 'key' else app.statusBar.bindings['<Button-1>'])(None))
        self.say('esc')
        if res != 'ok':
            self.v(f'the message cannot be dismissed: {x}')
        self.shows = None
        self.look('message dismissed')

    def do_quit(self, st):
        a = self.app
        self.do(lambda app: app.root.geometry(st['geometry']))
        s = tkstub.seen(self.p)
        last = a.kwargs.get('yw_last_open')
        if last not in self.last:
            self.v(f'{last!r} is remembered as the project opened last, not {sorted(self.last)}')
            return

        def f(app):
            if st['via'] == 'menu':
                self.menu(app, 2)
            elif st['via'] == 'key':
                app.root.bindings['<Control-q>'](None)
            else:
                app.root.protocols['WM_DELETE_WINDOW']()
            if not s.quits:
                return False
            # what an application does after its main loop
            c = self.p.modules[CFG].Configuration(dict(yw_last_open='', root_geometry=''), {})
            for k in app.kwargs:
                if k in c.settings:
                    c.settings[k] = app.kwargs[k]
            c.write(INI)
            return True
        res, x = self.do(f)
        self.stats['quits'] += 1
        self.say('quit')
        if res != 'ok' or not x:
            self.v(f'quitting does not end properly: {x}')
            return
        self.kwargs = dict(yw_last_open=last, root_geometry=st['geometry'])
        self.last = {last}
        self.p = None


def execute(prop, plan, fresh, res):
    h = Run(prop, plan, fresh)
    res.brief = h.brief
    try:
        h.run()
    finally:
        res.stats, res.states, res.viol = h.stats, h.states, h.viol
