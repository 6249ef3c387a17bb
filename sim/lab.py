"""The laboratory: loads the code under test into simulated programs and runs conversions."""
import gc
import hashlib
import importlib
import importlib.abc
import importlib.machinery
import io
import os
import re
import sys
import types
import warnings
import zipfile

from . import kernel, tkstub
from .kernel import K, FS, SimCrash, SimStuck, switch_modules, h64

REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = os.path.join(REPO, 'src')
_code = {}  # module name -> (code, is_pkg, path)
_source = {}  # relative path -> bytes
SCRIPT = [None]  # code of a self-contained script (made by the inliner), which programs run instead of the package


def load_sources():
    """Read and compile the code under test from the working tree (once per worker process)."""
    _code.clear()
    pk = os.path.join(SRC, 'pywriter')
    for top, dirs, files in os.walk(pk):
        dirs[:] = sorted(d for d in dirs if d != '__pycache__')
        for f in sorted(files):
            if not f.endswith('.py'):
                continue
            path = os.path.join(top, f)
            rel = os.path.relpath(path, SRC)[:-3].replace(os.sep, '.')
            is_pkg = rel.endswith('.__init__')
            if is_pkg:
                rel = rel[:-9]
            _compile(rel, path, is_pkg)
        if '__init__.py' not in files:
            rel = os.path.relpath(top, SRC).replace(os.sep, '.')
            _code.setdefault(rel, (None, True, top))
    samples = os.path.join(SRC, 'sample')
    for f in sorted(os.listdir(samples) if os.path.isdir(samples) else ()):
        if f.endswith('.py'):
            with open(os.path.join(samples, f), 'rb') as h:
                _source['sample/' + f] = h.read()
    for n in kernel.EXTRA_MODULES:
        path = os.path.join(SRC, n + '.py')
        if os.path.isfile(path):
            _compile(n, path, False)


def _compile(name, path, is_pkg):
    with open(path, 'rb') as f:
        src = f.read()
    _source[os.path.relpath(path, SRC).replace(os.sep, '/')] = src
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            _code[name] = (compile(src, path, 'exec', dont_inherit=True), is_pkg, path)
    except SyntaxError as ex:
        _code[name] = (ex, is_pkg, path)


class _Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def find_spec(self, fullname, path=None, target=None):
        ent = _code.get(fullname)
        if ent is None or SCRIPT[0] is not None and fullname not in kernel.EXTRA_MODULES:
            return None
        code, is_pkg, p = ent
        spec = importlib.machinery.ModuleSpec(fullname, self, origin=p, is_package=is_pkg)
        spec.has_location = True
        if is_pkg:
            spec.submodule_search_locations = [os.path.dirname(p) if p.endswith('.py') else p]
        return spec

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        code = _code[module.__spec__.name][0]
        if isinstance(code, SyntaxError):
            raise code
        if code is not None:
            exec(code, module.__dict__)


_ready = False
BASE_MODULES = ('pywriter.converter.yw7_converter', 'pywriter.converter.yw7_exporter', 'pywriter.converter.yw7_importer', 'pywriter.ui.ui', 'pywriter.ui.ui_cmd', 'pywriter.yw.yw7_file', 'pywriter.model.novel')


def setup():
    """Prepare this worker process."""
    global _ready
    if _ready:
        return
    _ready = True
    sys.dont_write_bytecode = True
    load_sources()
    sys.meta_path.insert(0, _Finder())
    # everything the stdlib part needs is imported before the patches go in
    import xml.sax, xml.sax.expatreader, xml.etree.ElementTree, zipfile, tempfile, shutil, html, gettext, configparser, json, string, webbrowser  # noqa
    import encodings.utf_16, encodings.utf_8, encodings.cp1252, encodings.latin_1, encodings.utf_8_sig, encodings.idna, pathlib, glob, subprocess, uuid, random  # noqa
    tkstub.install()
    sys.argv = [os.path.join(SRC, 'sample', 'app.py')]
    sys.unraisablehook = lambda *a: None
    kernel.install()
    warnings.simplefilter('ignore')
    gc.disable()
    gc.collect()
    gc.freeze()


def boot(proc, modules=BASE_MODULES):
    """Start a simulated program: a fresh set of modules of the code under test."""
    import random
    switch_modules(None)
    switch_modules(proc)
    K.current = proc
    proc.booting = True
    try:
        if SCRIPT[0] is not None:
            proc.script = types.ModuleType('app')
            exec(SCRIPT[0], proc.script.__dict__)
        for m in modules:
            _load(proc, m)
        proc.modules = {n: m for n, m in sys.modules.items() if n == 'pywriter' or n.startswith('pywriter.') or n in kernel.EXTRA_MODULES}
        random.seed(h64(K.seed, proc.pid))
    finally:
        proc.booting = False
        K.current = None


def sources():
    return {f: d for f, d in _source.items() if f.startswith(('pywriter/', 'sample/'))}


def _load(proc, name):
    if SCRIPT[0] is None or name in kernel.EXTRA_MODULES:
        importlib.import_module(name)
    elif name in _code:
        sys.modules[name] = proc.script  # for this framework only; the script itself is complete
    else:
        raise ModuleNotFoundError(name)


def start(cwd='/sim/home', env=None, modules=BASE_MODULES):
    p = K.new_proc(cwd, env)
    boot(p, modules)
    return p


def need(proc, name):
    """A further module of the code under test in a running program."""
    if name not in proc.modules:
        cur = K.current
        K.current = proc
        proc.booting = True
        try:
            _load(proc, name)
            proc.modules = {n: m for n, m in sys.modules.items() if n == 'pywriter' or n.startswith('pywriter.') or n in kernel.EXTRA_MODULES}
        finally:
            proc.booting = False
            K.current = cur
    return proc.modules[name]


def shown(proc, u, kind, message, n0):
    """Does the user see this report, and as what?  (seen, marked as error)"""
    body = message.split('!', 1)[1].strip() if message.startswith('!') else message
    if kind == 'UiCmd':
        text = ''.join(proc.stdout[n0[0]:])
        return body in text, 'FAIL' in text.replace(body, '')
    if kind == 'UiTk':
        w = [w for w in tkstub.seen(proc).widgets if w.options.get('text') == body and body]
        return bool(w), any(w.options.get('background') == 'red' for w in w)
    if kind == 'UiMb':
        b = [k for k, t, m in tkstub.seen(proc).boxes[n0[1]:] if m == body and k != 'askyesno']
        return bool(b), 'showerror' in b
    t = getattr(u, 'infoHowText', '')
    return body in t, 'FAIL' in t.replace(body, '')


class Outcome:
    """What the user and the caller saw of one conversion."""

    def __init__(self):
        self.exc = None  # name of an exception that left run()
        self.crashed = False
        self.final = []  # set_info_how messages
        self.asked = []
        self.warned = []
        self.newFile = None
        self.ops = 0
        self.shown = None  # (seen, marked as error): the final report, as the user sees it
        self.ui = ''

    @property
    def ok(self):
        return (not self.crashed and self.exc is None and len(self.final) == 1
                and not self.final[0].startswith('!') and self.newFile is not None)

    @property
    def failed(self):
        return not self.crashed and self.exc is None and len(self.final) == 1 and self.final[0].startswith('!') and self.newFile is None

    def brief(self):
        if self.crashed:
            return 'crash'
        if self.exc:
            return f'exception {self.exc}'
        return f'{"ok" if self.ok else "fail" if self.failed else "odd"} {self.final} newFile={self.newFile}'

    def cls(self):
        return 'crash' if self.crashed else 'exc' if self.exc else 'ok' if self.ok else 'fail' if self.failed else 'odd'


class _Answer(Exception):
    pass


def convert(proc, source, suffix='', ui='silent', answer=None, cls='Yw7Converter', conv=None, keep=None, gcnow=True):
    """Run one conversion of the real code in a simulated program.

    answer: callable(question) -> True/False, or raises (EOFError, KeyboardInterrupt ...)
    keep: list that receives the converter object (to be used again by the same program)
    """
    out = Outcome()
    switch_modules(proc)
    mods = proc.modules
    K.current = proc
    n0 = proc.nops
    if answer is None:
        answer = lambda q: True

    def ask(q):
        out.asked.append(q)
        cur = K.current
        K.current = None
        try:
            r = answer(q)
        finally:
            K.current = cur
        return r

    try:
        if conv is None:
            mod = {'Yw7Converter': 'pywriter.converter.yw7_converter', 'Yw7Exporter': 'pywriter.converter.yw7_exporter', 'Yw7Importer': 'pywriter.converter.yw7_importer'}[cls]
            conv = getattr(mods[mod], cls)()
            if ui == 'cmd':
                conv.ui = mods['pywriter.ui.ui_cmd'].UiCmd('simulated')
            elif ui == 'tk':
                conv.ui = need(proc, 'pywriter.ui.ui_tk').UiTk('simulated')
            elif ui == 'mb':
                conv.ui = need(proc, 'pywriter.ui.ui_mb').UiMb('simulated')
            else:
                conv.ui = mods['pywriter.ui.ui'].Ui('')
        u = conv.ui
        U = type(u)
        ui = out.ui = U.__name__
        if ui in ('UiTk', 'UiMb'):
            tkstub.seen(proc).answer = lambda title, message: ask(message)
        elif ui == 'UiCmd':
            proc.inputs = lambda prompt: {True: 'y', False: 'n'}.get(ask(prompt), 'n')
        else:
            u.ask_yes_no = lambda text, *a, **k: ask(text)

        n = (len(proc.stdout), len(tkstub.seen(proc).boxes))

        def how(m):
            out.final.append(str(m))
            U.set_info_how(u, m)

        def warn(m):
            out.warned.append(str(m))
            U.show_warning(u, m)
        u.set_info_how = how
        u.show_warning = warn
        if keep is not None:
            keep.append(conv)
        conv.run(source, suffix=suffix)
        out.newFile = conv.newFile
        if len(out.final) == 1:
            out.shown = shown(proc, u, ui, out.final[0], n)
    except SimCrash:
        out.crashed = True
    except SimStuck:
        raise
    except BaseException as ex:
        out.exc = f'{type(ex).__name__}: {ex}'
        try:
            out.newFile = conv.newFile
        except Exception:
            pass
    finally:
        if proc.dead:
            out.crashed = True
        u = conv = None
        mods = None
        if gcnow:
            collect(proc)
        K.current = None
    out.ops = proc.nops - n0
    return out


def call(proc, f, gcnow=True):
    """Let a simulated program do something: ('ok', result), ('exc', text) or ('crash', None)."""
    switch_modules(proc)
    K.current = proc
    r = None
    try:
        r = ('ok', f(proc.modules))
    except SimCrash:
        r = ('crash', None)
    except SimStuck:
        raise
    except BaseException as ex:
        r = ('exc', f'{type(ex).__name__}: {ex}')
    finally:
        if gcnow:
            collect(proc)
        K.current = None
    return ('crash', None) if proc.dead else r


def collect(proc):
    """Let the objects of a program go while that program is the current one."""
    cur = K.current
    K.current = proc
    try:
        gc.collect()
    finally:
        K.current = cur


# ---------------------------------------------------------------- isolated (reference) executions
class Isolated:
    """Run something in a separate world; afterwards the present world is back."""
    FIELDS = ('fs', 'seed', 'now', 'epoch', 'fds', 'nextfd', 'procs', 'trace', 'fired', 'fired_at', 'outside', 'harness_errors', 'disk', 'sticky', 'op_hook', 'maxops', 'totalops', 'sched', 'op_hash', 'cover', 'journal')

    def __init__(self, snap, seed=0, epoch=1_700_000_000.0):
        self.snap, self.seed, self.epoch = snap, seed, epoch

    def __enter__(self):
        self.saved = {f: getattr(K, f) for f in self.FIELDS}
        self.cur = K.current
        self.mods = kernel._installed_modules[0]
        K.reset(self.seed, self.epoch)
        K.fs = FS.from_snapshot(self.snap)
        K.fs.mkdirs('/sim/home')
        K.fs.mkdirs('/sim/tmp')
        return self

    def __exit__(self, *a):
        for f, v in self.saved.items():
            setattr(K, f, v)
        K.current = self.cur
        switch_modules(self.mods)


_refcache = {}


def snapkey(snap):
    h = hashlib.blake2b(digest_size=16)
    for p in sorted(snap):
        h.update(p.encode())
        h.update(b'\0' if snap[p] is None else b'\1' + snap[p])
        h.update(b'\2')
    return h.hexdigest()


def reference(snap, source, suffix, target=None, env=None, cls='Yw7Converter', relevant=True):
    """Fault-free result of one conversion in a fresh program: (outcome class, bytes at target path, Outcome, trace)."""
    if relevant:
        # keep only files (temp data of dead programs is irrelevant)
        snap = {p: d for p, d in snap.items() if not p.startswith('/sim/tmp/')}
    key = (snapkey(snap), source, suffix, repr(env), cls)
    if key in _refcache:
        return _refcache[key]
    with Isolated(snap):
        p = start(env=env)
        n0 = p.nops
        K.trace = []
        out = convert(p, source, suffix, cls=cls)
        tr = [(i - n0, name, path) for (pid, i, name, path, size, src) in K.trace]
        r = (out.cls(), K.fs.get(out.newFile) if out.newFile else None, out, tr)
    if len(_refcache) > 400:
        _refcache.clear()
    _refcache[key] = r
    return r


# ---------------------------------------------------------------- reading results independently of the code under test
class Broken(Exception):
    pass


_DATE = re.compile(rb'(<(?:meta:creation-date|dc:date)>)[^<]*')


def odf_content(data):
    """dict member -> bytes of a complete OpenDocument file, creation time masked; Broken if damaged."""
    import xml.etree.ElementTree as ET
    if data is None:
        raise Broken('missing')
    try:
        with zipfile.ZipFile(io.BytesIO(data)) as z:
            bad = z.testzip()
            if bad:
                raise Broken(f'damaged member {bad}')
            names = z.namelist()
            if len(set(names)) != len(names):
                raise Broken('duplicate members')
            out = {}
            for n in names:
                d = z.read(n)
                if n.endswith('.xml'):
                    try:
                        ET.fromstring(d)
                    except ET.ParseError as ex:
                        raise Broken(f'{n} not well-formed: {ex}')
                if n == 'meta.xml':
                    d = _DATE.sub(rb'\1', d)
                out[n] = d
    except Broken:
        raise
    except Exception as ex:
        raise Broken(f'not a document: {type(ex).__name__} {ex}')
    for need in ('mimetype', 'content.xml', 'styles.xml', 'META-INF/manifest.xml', 'meta.xml'):
        if need not in out:
            raise Broken(f'{need} missing')
    return out


def same_doc(a, b):
    """True if two OpenDocument files have the same content."""
    if a is None or b is None:
        return a is b
    if a == b:
        return True
    try:
        return odf_content(a) == odf_content(b)
    except Broken:
        return False
