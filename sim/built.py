"""C28: an application built by the inliner is one script that needs no package and behaves in every run as the modular application does."""
import ast
import builtins
import copy
import random
import sys
import types

from . import kernel, lab, tkstub
from .kernel import K, h64
from .world import Violation

INL = 'inliner'
KINDS = ['eio', 'eacces', 'enospc', 'emfile', 'ebusy', 'erofs', 'edquot', 'nomem', 'full', 'short', 'crash', 'crash', 'intr']
# the properties whose runs are repeated with a built application, by weight
MODES = dict(C01=2, C02=2, C03=3, C04=6, C05=1, C07=2, C11=2, C12=2, C13=1, C14=2, C15=2, C16=3, C17=2, C18=4, C20=2, C21=3, C22=3, C23=2, C24=4, C25=1, C26=2)
NEEDED = ['pywriter.converter.yw7_converter:Yw7Converter', 'pywriter.converter.yw7_exporter:Yw7Exporter', 'pywriter.converter.yw7_importer:Yw7Importer', 'pywriter.ui.ui:Ui', 'pywriter.ui.ui_cmd:UiCmd',
          'pywriter.ui.ui_tk:UiTk', 'pywriter.ui.ui_mb:UiMb', 'pywriter.yw.yw7_file:Yw7File', 'pywriter.model.novel:Novel', 'pywriter.config.configuration:Configuration', 'pywriter.ui.main_tk:MainTk',
          'pywriter.yw.data_files:DataFiles', 'pywriter.model.chapter:Chapter', 'pywriter.model.scene:Scene', 'pywriter.model.character:Character', 'pywriter.model.world_element:WorldElement',
          'pywriter.model.basic_element:BasicElement', 'pywriter.yw.yw7_purge:*', 'pywriter.pywriter_globals:*']
TREE = '/sim/work/PyWriter/src'
APP = '/sim/work/app'


# ---------------------------------------------------------------- plans
def plan(seed, tier, prop):
    from . import checks
    r = random.Random(seed)
    x = r.random()
    if x < .25:
        return build_plan(r, tier)
    if x < .4:
        return sample_plan(seed, tier)
    q = r.choices(list(MODES), list(MODES.values()))[0]
    # the same few applications again and again, as building and compiling one takes long
    return dict(kind='run', seed=seed & 0xffffffff, app=r.randrange(3), of=q, plan=checks.generate(q, h64(seed, q), tier))


def app_source(k):
    """An application that uses the whole library; k decides upon the order of its imports."""
    r = random.Random(h64('app', k))
    imports = []
    for n in NEEDED:
        m, c = n.split(':')
        if m in lab._code:
            imports.append(f'from {m} import {c}')
    if k:
        r.shuffle(imports)
    imports[r.randrange(len(imports)):0] = ['import sys', 'import os']
    return '#!/usr/bin/python3\n"""An application.\n\nFor everything.\n"""\n' + '\n'.join(imports) + """

SUFFIX = ''


def run(sourcePath, suffix=SUFFIX):
    converter = Yw7Converter()
    converter.ui = UiCmd('Application')
    converter.run(sourcePath, suffix=suffix)


if __name__ == '__main__':
    run(sys.argv[1])
"""


WORDS = 'alpha beta gamma delta omega Größe x1 novel scene chapter'.split(' ')


def build_plan(r, tier):
    n = r.choice([1, 2, 4, 7, 12])
    pkg = r.choice(['pywriter', 'pywriter', 'mylib'])
    names = [r.choice(['aa', 'bb', 'cc', 'dd', 'ee', 'ff', 'gg', 'hh', 'ii', 'jj', 'kk', 'll', 'mm']) for _ in range(n)]
    mods = {}
    for i, x in enumerate(names):
        mods[f'{pkg}.{r.choice(["", "sub.", "sub.", "other.deep."])}{x}'] = None
    mods = list(mods)
    out = {}
    for i, m in enumerate(mods):
        out[m] = dict(cls=f'C{m.rsplit(".", 1)[1]}{i}', uses=[[x, out[x]['cls']] for x in r.sample(mods[:i], min(i, r.choice([0, 1, 1, 2, 3])))], pick=r.randrange(1 << 30), bits=r.sample(range(14), r.choice([0, 2, 4, 8])))
    plan = dict(kind='build', seed=r.randrange(1 << 30), pkg=pkg, mods=out, root=[[x, out[x]['cls']] for x in r.sample(mods, r.randint(1, len(mods)))], copies={}, steps=[],
                env=dict(bufsize=r.choice([8192, 8192, 512, 1024]), encoding=r.choice(['utf-8', 'utf-8', 'cp1252'])))
    if r.random() < .2:
        plan['copies'] = {m: f'# my own version of {m}\n' for m in mods if r.random() < .3}
    plan['rootbits'] = r.sample(range(6), r.choice([0, 1, 3]))
    for _ in range(r.choice([1, 2, 3, 5])):
        if r.random() < .4:
            plan['steps'].append(dict(t='code', mod=r.choice(mods), pick=r.randrange(1 << 30)))
        st = dict(t='build', copy=r.random() < .4, again=r.random() < .3)
        if r.random() < .45:
            st['faults'] = [dict(at=r.randrange(r.choice([8, 60, 12 * n + 12])), kind=r.choice(KINDS), frac=round(r.random(), 3))]
            plan['steps'] += [st, {k: v for k, v in st.items() if k != 'faults'}] if r.random() < .7 else [st]
        else:
            plan['steps'].append(st)
    return plan


# ---------------------------------------------------------------- generated packages
def module_source(pkg, m, d):
    """Source of a module that obeys the conventions, and the docstrings it contains."""
    r = random.Random(d['pick'])
    b = set(d['bits'])
    c = d['cls']
    docs = [f'Provide {c} {r.randrange(1000)}.']
    o = []
    if 0 in b:
        o += ['#!/usr/bin/env python3']
    if 1 in b:
        o += [f'"""{docs[0]}"""']
    else:
        docs.append(f'Long description of {c}: {r.choice(WORDS)}')
        o += [f'"""{docs[0]}', '', docs[1], '# no comment, import nothing', '"""']
    if 2 in b:
        o += ['# A comment line.', '    # Another one with """', ] if r.random() < .0 else ['# A comment line.']
    if 3 in b:
        o += ['import os']
    if 4 in b:
        o += ['import re', 'from string import Template']
    if 5 in b:
        o += ['import datetime as dt']
    for u, uc in d['uses']:
        o += [f'from {u} import ' + r.choice(['*', uc])]
    o += ['']
    if 6 in b:
        o += [f'K_{c} = {r.randrange(100)}']
    if 7 in b:
        o += [f"T_{c} = '''<text a=\"{r.choice(WORDS)}\">", '  ' + r.choice(WORDS), "'''"]
    if 8 in b:
        o += [f"U_{c} = '''", '# not a comment', '   # nor this', 'import that', 'import that', "end'''"]
    o += ['', '', f'class {c}' + (f'({d["uses"][0][1]})' if d['uses'] and r.random() < .5 else '') + ':']
    docs.append(f'The class {c} {r.randrange(1000)}.')
    o += [f'    """{docs[-1]}' + ('"""' if r.random() < .5 else '\n    \n    Public methods:\n        run(log) -- do it.\n    """')]
    o += [f"    NAME = '{r.choice(WORDS)} {r.randrange(1000)}'", '']
    o += ['    def run(self, log):']
    if 9 in b:
        docs.append(f'Run {c}: {r.choice(WORDS)} {r.randrange(1000)}.')
        o += [f'        """{docs[-1]}"""']
    if 10 in b:
        o += ['        # Comment within the code.']
    if 11 in b:
        o += ['        import math', "        log.append(('floor', math.floor(2.5)))"]
    o += [f"        log.append(('{c}', self.NAME, {r.randrange(1000)}))"]
    if 3 in b:
        o += ["        log.append(os.path.join('a', 'b'))"]
    if 4 in b:
        o += ["        log.append(Template('$x y').substitute(x=re.sub('a', 'b', 'aa')))"]
    if 5 in b:
        o += ['        log.append(dt.timedelta(1).days)']
    for k, x in ((6, 'K'), (7, 'T'), (8, 'U')):
        if k in b:
            o += [f'        log.append({x}_{c})']
    for u, uc in d['uses']:
        o += ['        if len(log) < 400:', f'            {uc}().run(log)']
    if 12 in b:
        o += ["        log.append(self.other())  # import this", '', '    def other(self):', "        return 'important # no comment'"]
    if 13 in b:
        o += ['', '', "if __name__ == '__main__':", "    raise RuntimeError('this is a module')"]
    return '\n'.join(o) + '\n', docs


def root_source(plan):
    b = set(plan['rootbits'])
    o = ['#!/usr/bin/python3', '"""The application.', '', 'It does everything.', '"""'] if 0 in b else ['"""The application."""']
    if 1 in b:
        o += ['import os']
    if 2 in b:
        o += ['# A comment', 'import re']
    for m, c in plan['root']:
        o += [f'from {m} import {c}']
    if 1 in b:
        o += ["SEP = os.path.join('x', 'y')"]
    if 3 in b:
        o += ["TEXT = '''a", '', "b'''"]
    o += ['', 'log = []', '', '', 'def main():']
    if 4 in b:
        o += ['    """Do it."""']
    for m, c in plan['root']:
        o += [f'    {c}().run(log)']
    for k, x in ((1, 'SEP'), (3, 'TEXT')):
        if k in b:
            o += [f'    log.append({x})']
    o += ['', '', "if __name__ == '__main__':", '    main()']
    return '\n'.join(o) + '\n'


class _Package:
    """Imports of a generated package (outside the simulation)."""

    def __init__(self, pkg, sources):
        self.pkg, self.sources, self.mods = pkg, sources, {}

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if name == self.pkg or name.startswith(self.pkg + '.'):
            if self.sources is None:
                raise ImportError(f'the script imports {name}')
            if name not in self.mods:
                m = self.mods[name] = types.ModuleType(name)
                self.run(m, self.sources[name])
            return self.mods[name]
        return builtins.__import__(name, globals, locals, fromlist, level)

    def run(self, m, text):
        m.__dict__['__builtins__'] = dict(builtins.__dict__, __import__=self.imp)
        exec(compile(text, m.__name__, 'exec', dont_inherit=True), m.__dict__)


def transcript(pkg, text, sources):
    m = types.ModuleType('__main__')
    _Package(pkg, sources).run(m, text)
    return m.log


# ---------------------------------------------------------------- runs
class Build:
    def __init__(self, plan):
        self.plan = plan
        self.viol, self.brief, self.states = [], [], set()
        self.stats = dict(builds=0, failed=0, crashed=0, copies=0, rebuilt=0)

    def v(self, text):
        self.viol.append(Violation('C28', self.i, text))

    def path(self, m, base=TREE):
        return f'{base}/{m.replace(".", "/")}.py'

    def write(self, m):
        t, self.docs[m] = module_source(self.plan['pkg'], m, self.mods[m])
        self.src[m] = t
        K.fs.put(self.path(m), t.encode('utf-8'))

    def run(self):
        p = self.plan
        K.reset(p['seed'], 1_600_000_000)
        self.mods, self.src, self.docs = copy.deepcopy(p['mods']), {}, {}
        for m in self.mods:
            K.fs.mkdirs(self.path(m).rsplit('/', 1)[0])
            self.write(m)
        for x in ('src', 'tools', 'test'):
            K.fs.mkdirs(f'{APP}/{x}')
        self.own = {}
        for m, t in p['copies'].items():
            f = self.path(m, APP + '/src')
            K.fs.mkdirs(f.rsplit('/', 1)[0])
            K.fs.put(f, t.encode('utf-8'))
            self.own[f] = t.encode('utf-8')
        self.root = root_source(p)
        K.fs.put(f'{APP}/src/app_.py', self.root.encode('utf-8'))
        self.script = f'{APP}/test/app_.py'
        for self.i, st in enumerate(p['steps']):
            getattr(self, 'do_' + st['t'])(st)
            if self.viol:
                break

    def do_code(self, st):
        self.mods[st['mod']]['pick'] = st['pick']
        self.write(st['mod'])

    def used(self):
        todo, out = [m for m, c in self.plan['root']], []
        while todo:
            m = todo.pop()
            if m not in out:
                out.append(m)
                todo += [u for u, c in self.mods[m]['uses']]
        return out

    def do_build(self, st):
        p = lab.start(cwd=APP + '/tools', env=self.plan['env'], modules=[INL])
        snap = K.fs.snapshot()
        p.faults = {p.nops + x['at']: dict(x) for x in st.get('faults', ())}
        n = len(K.fired_at)
        r, x = lab.call(p, lambda m: m[INL].run('../src/app_.py', '../test/app_.py', self.plan['pkg'], '../../PyWriter/src/', st['copy']))
        p.faults = {}
        K.disk.clear()
        K.sticky.clear()
        fired = [y for y in K.fired_at[n:] if y[2] != 'short']
        self.brief.append(f'{self.i}: build copy={st["copy"]} -> {r} {str(x)[:80]} {[y[2:4] for y in fired]}')
        self.states.add(h64(r, st['copy'], tuple(y[2:] for y in fired), self.script in snap, len(self.mods), len(self.used())))
        self.stats['builds'] += 1
        self.stats['failed'] += r == 'exc'
        self.stats['crashed'] += r == 'crash'
        if r != 'ok' and not fired:
            self.v(f'the application cannot be built: {x}')
            return
        new, old = K.fs.get(self.script), snap.get(self.script)
        if new is None and (r == 'ok' or old is not None):
            self.v('there is no script')
            return
        if new is not None and (r == 'ok' or new != old):
            why = self.complete(new)
            if why:
                self.v(f'the build {"succeeded" if r == "ok" else "failed"}, and the script is wrong: {why}')
                return
        after = K.fs.snapshot()
        used = {self.path(m, APP + '/src'): self.src[m].encode('utf-8') for m in self.used()} if st['copy'] else {}
        for f in sorted(set(after) | set(snap)):
            if f == self.script or after.get(f, 0) == snap.get(f, 0):
                continue
            if f in used and f not in snap:
                if after[f] != used[f]:
                    self.v(f'the copy {f[len(APP) + 1:]} is incomplete')
                continue
            if f in snap and f not in after:
                self.v(f'{f} was removed')
            elif after[f] is None:
                if not any(g.startswith(f + '/') for g in used):
                    self.v(f'the directory {f} was created')
            elif not (r != 'ok' and f not in snap and f.rsplit('/', 1)[0] in (APP + '/test', *[g.rsplit('/', 1)[0] for g in used]) and not f.endswith('.py')):
                self.v(f'{f} was {"changed" if f in snap else "created"}')
        if r == 'ok':
            for f in used:
                if f not in after:
                    self.v(f'the module {f[len(APP) + 1:]} was not copied')
            self.stats['copies'] += len(used)
        for f in after:
            if f not in snap and not f.endswith('.py') and after[f] is not None:
                K.fs.delete(f)  # remains of a dead build, harmless

    def complete(self, data):
        try:
            text = data.decode('utf-8')
        except UnicodeError as ex:
            return str(ex)
        try:
            tree = ast.parse(text)
        except SyntaxError as ex:
            return f'{ex}: {(text.splitlines() + [""])[(ex.lineno or 1) - 1][:60]!r}'
        why = imports(tree, self.plan['pkg'])
        if why:
            return why
        try:
            have = transcript(self.plan['pkg'], text, None)
        except Exception as ex:
            return f'it fails with {type(ex).__name__}: {ex}'
        want = transcript(self.plan['pkg'], self.root, self.src)
        if have != want:
            k = [a != b for a, b in zip(have, want)]
            k = k.index(True) if True in k else min(len(have), len(want))
            return f'it does not do what the modular application does: {str(have[k:k + 1])[:100]} instead of {str(want[k:k + 1])[:100]}'
        for m in self.used():
            for d in self.docs[m]:
                if d in text:
                    return f'the docstring {d!r} of {m} is still there'
        if self.root.startswith('#!') and not text.startswith(self.root.split('\n')[0]):
            return 'the first line (#!) got lost'
        return None


def imports(tree, pkg):
    for n in ast.walk(tree):
        names = [a.name for a in n.names] if isinstance(n, ast.Import) else [n.module or ''] if isinstance(n, ast.ImportFrom) else []
        for x in names:
            if x == pkg or x.startswith(pkg + '.') or isinstance(n, ast.ImportFrom) and n.level:
                return f'the script still imports {x} (line {n.lineno})'
    return None


_scripts = {}


def script(k):
    """(code, None) or (None, what is wrong): application k, built from the working tree by the inliner in a simulated program."""
    if k not in _scripts:
        with lab.Isolated({}):
            for f, data in lab.sources().items():
                K.fs.mkdirs(f'{TREE}/{f}'.rsplit('/', 1)[0])
                K.fs.put(f'{TREE}/{f}', data)
            for x in ('src', 'tools', 'test'):
                K.fs.mkdirs(f'{APP}/{x}')
            K.fs.put(APP + '/src/app_.py', lab.sources()[f'sample/{k}.py'] if isinstance(k, str) else app_source(k).encode('utf-8'))
            p = lab.start(cwd=APP + '/tools', modules=[INL])
            p.maxops = 1 << 30
            r, x = lab.call(p, lambda m: m[INL].run('../src/app_.py', '../test/app_.py', 'pywriter', '../../PyWriter/src/'))
            data = K.fs.get(APP + '/test/app_.py')
            K.current = None
        _scripts[k] = (None, f'the application cannot be built: {x}')
        if r == 'ok' and data is not None:
            try:
                text = data.decode('utf-8')
                tree = ast.parse(text)
                why = imports(tree, 'pywriter')
                _scripts[k] = (None, why) if why else (compile(tree, '/sim/app.py', 'exec', dont_inherit=True), None)
            except (UnicodeError, SyntaxError, ValueError) as ex:
                _scripts[k] = (None, f'the script cannot be compiled: {ex}')
    return _scripts[k]


# ---------------------------------------------------------------- the sample applications
SAMPLES = dict(cnv_brief_synopsis=('_brf_synopsis', 'Yw7Exporter'), cnv_chapters=('_chapters', 'Yw7Converter'), cnv_characters=('_characters', 'Yw7Converter'), cnv_charlist=('_charlist', 'Yw7Converter'),
               cnv_data=('_data', None), cnv_itemlist=('_itemlist', 'Yw7Converter'), cnv_items=('_items', 'Yw7Converter'), cnv_locations=('_locations', 'Yw7Converter'), cnv_loclist=('_loclist', 'Yw7Converter'),
               cnv_manuscript=('_manuscript', 'Yw7Converter'), cnv_notes=('_notes', 'Yw7Converter'), cnv_parts=('_parts', 'Yw7Converter'), cnv_proof=('_proof', 'Yw7Converter'),
               cnv_scenelist=('_scenelist', 'Yw7Converter'), cnv_scenes=('_scenes', 'Yw7Converter'), cnv_todo=('_todo', 'Yw7Converter'), cross_reference=('_xref', 'Yw7Exporter'), export_odt=('', 'Yw7Converter'),
               import_outline=('', 'Yw7Converter'), import_wip=('', 'Yw7Converter'))


def sample_plan(seed, tier):
    from .worldgen import Builder
    b = Builder(seed, level=random.Random(h64(seed, 'lv')).choice(['plain', 'medium', 'medium']))
    r = b.r
    b.tree()
    b.place()
    b.add_project(0)
    b.plan.update(kind='sample', prj=b.prj, dirs=[b.prj.rsplit('/', 1)[0], '/sim/work'])
    for _ in range(r.choice([1, 2, 3, 5] if tier == 'quick' else [3, 6, 10])):
        name = r.choice([s for s in SAMPLES if not s.startswith('import')])
        st = dict(t='app', name=name, src='prj', answer=r.random() < .8)
        x = r.random()
        if x < .3:
            st['faults'] = [dict(at=r.randrange(60), kind=r.choice(KINDS), frac=round(r.random(), 3))]
        b.plan['steps'].append(st)
        if x > .5 and SAMPLES[name][1] == 'Yw7Converter':
            if name == 'export_odt':
                b.plan['steps'].append(dict(t='app', name=r.choice(['import_outline', 'import_wip']), src='new', answer=True))
            else:
                b.plan['steps'].append(dict(t='app', name=name, src='doc', answer=r.random() < .8))
        if r.random() < .3:
            b.plan['steps'].append(dict(t='yw', pick=r.randrange(1 << 30)))
    return b.plan


class Sample:
    def __init__(self, plan, built):
        self.plan, self.built = plan, built
        self.viol, self.brief, self.states = [], [], set()
        self.stats = dict(apps=0, reported=0)

    def v(self, text):
        self.viol.append(Violation('C28', self.i, text))

    def run(self):
        from . import world
        w = world.World(self.plan)
        w.setup()
        self.prj = self.plan['prj']
        for self.i, st in enumerate(self.plan['steps']):
            getattr(self, 'do_' + st['t'])(st)
            if self.viol:
                break

    def do_yw(self, st):
        from . import gen, ywstub
        data = K.fs.get(self.prj)
        try:
            tree = ywstub.parse(data)
        except Exception:
            return
        K.fs.put(self.prj, ywstub.edit_bytes(data, copy.deepcopy(gen.Gen(h64(st['pick'], 'y'), 'medium').edits(tree, 2))))

    def do_app(self, st):
        name = st['name']
        suffix, cls = SAMPLES[name]
        if f'sample/{name}.py' not in lab.sources():
            return
        stem = self.prj[:-4]
        src = self.prj
        if st['src'] != 'prj':
            ext = '.ods' if suffix.endswith('list') else '.odt'
            src = stem + suffix + ext
            if st['src'] == 'new' and K.fs.isfile(src):
                K.fs.put(stem + ' neu.odt', K.fs.get(src))
                src = stem + ' neu.odt'
            if not K.fs.isfile(src):
                return
        snap = K.fs.snapshot()
        p = K.new_proc(src.rsplit('/', 1)[0], None)
        argv, sys.argv = sys.argv, ['/sim/work/app.py', src]
        m = types.ModuleType('app')
        lab.SCRIPT[0] = self.codes[name] if self.built else None
        lab.boot(p, ())
        lab.SCRIPT[0] = None
        K.current = p
        p.booting = True
        try:
            if self.built:
                m.__dict__.update(p.script.__dict__)
            else:
                exec(compile(lab.sources()[f'sample/{name}.py'], name, 'exec', dont_inherit=True), m.__dict__)
                p.modules = {n: x for n, x in sys.modules.items() if n == 'pywriter' or n.startswith('pywriter.')}
        except Exception as ex:
            self.v(f'the sample application {name} does not start: {type(ex).__name__}: {ex}')
            return
        finally:
            p.booting = False
            K.current = None
            sys.argv = argv
        seen = tkstub.seen(p)
        seen.answer = lambda title, message: st['answer']
        p.faults = {p.nops + x['at']: dict(x) for x in st.get('faults', ())}
        n = len(K.fired_at)
        r, x = lab.call(p, lambda _: m.run(src, m.SUFFIX))
        p.faults = {}
        K.disk.clear()
        K.sticky.clear()
        fired = K.fired_at[n:]
        labels = [(type(w).__name__, w.options.get('text'), w.options.get('background')) for w in seen.widgets if w.options.get('text')]
        self.brief.append(f'{self.i}: {name} {src} -> {r} {x if r == "exc" else ""} {seen.boxes} {labels} {seen.loops} {[y[2:4] for y in fired]}')
        self.states.add(h64(name, st['src'], r, tuple(y[2:] for y in fired), len(seen.boxes), str(labels[-1:])[-12:]))
        self.stats['apps'] += 1
        if r == 'crash':
            return
        if fired:
            return
        if r == 'exc':
            self.v(f'the sample application {name} fails: {x}')
            return
        if seen.loops != 1:
            self.v(f'the window of {name} is not shown')
        if cls is None or any(k == 'askyesno' for k, t, msg in seen.boxes) and not st['answer']:
            return
        out, data, o, tr = lab.reference(snap, src, suffix, cls=cls)
        colours = [c for t, text, c in labels if c in ('red', 'green')]
        if colours != [dict(ok='green').get(out, 'red')]:
            self.v(f'{name} reports {colours}, the conversion it stands for: {out} {o.final}')
        elif out == 'ok' and not lab.same_doc(K.fs.get(o.newFile), data) and o.newFile.endswith(('.odt', '.ods')):
            self.v(f'{name} does not write what the conversion to {suffix!r} writes')
        elif out == 'ok' and o.newFile.endswith('.yw7') and K.fs.get(o.newFile) != data:
            self.v(f'{name} does not import what the conversion imports')
        self.stats['reported'] += 1


def sample(plan, fresh, res):
    a = Sample(plan, False)
    res.brief, res.states, res.stats = a.brief, a.states, a.stats
    a.run()
    res.viol = a.viol
    if a.viol:
        return
    old, ops = K.fs.snapshot(), K.op_hash.digest()
    b = Sample(plan, True)
    res.brief = res.brief + ['built:']
    codes = {}
    for st in plan['steps']:
        if st['t'] == 'app' and f'sample/{st["name"]}.py' in lab.sources():
            codes[st['name']], why = script(st['name'])
            if why:
                res.viol = [Violation('C28', 0, f'{st["name"]}: {why}')]
                return
    b.codes = codes
    try:
        b.run()
    finally:
        lab.SCRIPT[0] = None
    res.brief = res.brief + b.brief
    res.viol = b.viol
    new = K.fs.snapshot()
    if not b.viol and (a.brief != b.brief or old != new or ops != K.op_hash.digest()):
        d = [f'{x!r} instead of {y!r}' for x, y in zip(b.brief, a.brief) if x != y][:1] or ['the order of the storage operations']
        f = sorted(x for x in set(old) | set(new) if old.get(x, 0) != new.get(x, 0))
        res.viol = [Violation('C28', 0, f'the built application does not do what the modular one does: {d[0][:400]}; different files: {f[:4]}')]


def execute(prop, plan, fresh, res):
    if plan['kind'] == 'sample':
        sample(plan, fresh, res)
        return
    if plan['kind'] == 'build':
        h = Build(plan)
        res.brief = h.brief
        try:
            h.run()
        finally:
            res.stats, res.states, res.viol = h.stats, h.states, h.viol
        return
    from . import checks
    code, why = script(plan['app'])
    if why:
        res.viol = [Violation('C28', 0, why)]
        return
    q = plan['of']
    a = checks.inner(q, plan['plan'], fresh)
    old = K.fs.snapshot()
    lab.SCRIPT[0] = code
    try:
        b = checks.inner(q, plan['plan'], False)
    finally:
        lab.SCRIPT[0] = None
    res.stats = dict(runs=1, steps=len(a.brief))
    res.states = {h64(q, x) if isinstance(x, (int, str)) else h64(q, repr(x)) for x in a.states}
    res.brief = [f'{q} with the modular application:'] + a.brief + ['with the built one:'] + b.brief
    if a.skip and a.skip == b.skip:
        res.skip = a.skip
        return
    if a.digest != b.digest:
        d = [f'{x!r} instead of {y!r}' for x, y in zip(b.brief, a.brief) if x != y][:1] or [f'{len(b.brief)} steps instead of {len(a.brief)}' if len(a.brief) != len(b.brief) else '']
        new = K.fs.snapshot()
        f = sorted(x for x in set(old) | set(new) if old.get(x, 0) != new.get(x, 0))
        res.viol = [Violation('C28', 0, f'the built application does not do what the modular one does (run of {q}): {d[0][:300]}; different files: {f[:4]}; {a.skip or ""} / {b.skip or ""} {[str(v.text)[:120] for v in b.viol[:1]]}')]
