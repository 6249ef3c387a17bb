"""A stand-in for tkinter: records what the user of a simulated program sees, and lets the plan act as the user."""
import sys
import types

from .kernel import K


class Seen:
    """What one program shows: dialogs, and the windows' present texts."""

    def __init__(self):
        self.boxes = []  # (kind, title, message)
        self.answer = None  # callable(title, message) -> bool
        self.choose = None  # callable(options) -> path
        self.widgets = []
        self.quits = 0
        self.loops = 0


def seen(proc=None):
    proc = proc if proc is not None else K.current
    if proc is None:
        raise RuntimeError('tkinter used outside of a simulated program')
    s = getattr(proc, 'tk', None)
    if s is None:
        s = proc.tk = Seen()
    return s


class TclError(Exception):
    pass


class Widget:
    def __init__(self, master=None, *args, **options):
        self.master = master if isinstance(master, Widget) else None
        self.options = {'background': 'SystemButtonFace'}
        self.bindings = {}
        self.entries = []
        self.protocols = {}
        self.titleText = ''
        self.geom = ''
        self.destroyed = False
        for a in args:
            if isinstance(a, dict):
                self.config(**a)
        if isinstance(master, dict):
            self.config(**master)
        self.config(**options)
        seen().widgets.append(self)

    ALIAS = {'bg': 'background', 'fg': 'foreground'}

    def config(self, cnf=None, **options):
        for d in (cnf or {}, options):
            for k, v in d.items():
                self.options[self.ALIAS.get(k, k)] = v

    configure = config

    def cget(self, key):
        return self.options.get(self.ALIAS.get(key, key), '')

    __getitem__ = cget

    def __setitem__(self, key, value):
        self.config(**{key: value})

    def bind(self, event, func=None, add=None):
        self.bindings[event] = func

    def protocol(self, name, func=None):
        self.protocols[name] = func

    def title(self, text=None):
        if text is not None:
            self.titleText = text
        return self.titleText

    wm_title = title

    def geometry(self, g=None):
        if g is not None:
            self.geom = g
        return self.geom

    def winfo_geometry(self):
        return self.geom or '200x200+0+0'

    def quit(self):
        seen().quits += 1

    def destroy(self):
        self.destroyed = True

    def mainloop(self, *a):
        seen().loops += 1

    # menus
    def add_command(self, **options):
        self.entries.append(dict(options))

    def add_cascade(self, **options):
        self.entries.append(dict(options))

    def add_separator(self, **options):
        self.entries.append({'label': None})

    def entryconfig(self, index, **options):
        for e in self.entries:
            if e.get('label') == index:
                e.update(options)
                return
        if isinstance(index, int) and index < len(self.entries):
            self.entries[index].update(options)
            return
        raise TclError(f'bad menu entry index "{index}"')

    entryconfigure = entryconfig

    def entrycget(self, index, key):
        for e in self.entries:
            if e.get('label') == index:
                return e.get(key, '')
        raise TclError(f'bad menu entry index "{index}"')

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return lambda *a, **k: None


def _box(kind):
    def show(title=None, message=None, **options):
        seen().boxes.append((kind, title, message))
        return 'ok'
    return show


def _ask(kind):
    def ask(title=None, message=None, **options):
        s = seen()
        s.boxes.append((kind, title, message))
        if s.answer is None:
            raise EOFError('nobody answers')
        return s.answer(title, message)
    return ask


def _choose(**options):
    s = seen()
    s.boxes.append(('choose', options.get('title'), options.get('initialdir')))
    if s.choose is None:
        raise EOFError('nobody answers')
    return s.choose(options)


def install():
    tk = types.ModuleType('tkinter')
    tk.__path__ = []
    for n in ('Tk', 'Toplevel', 'Frame', 'Label', 'Button', 'Menu', 'Text', 'Scrollbar', 'Entry', 'Canvas', 'PanedWindow', 'Checkbutton', 'LabelFrame'):
        setattr(tk, n, type(n, (Widget,), {}))
    tk.TclError = TclError
    tk.Widget = Widget

    def PhotoImage(*a, **k):
        # reading the image file is up to Tk
        return Widget()
    tk.PhotoImage = PhotoImage
    for n in ('END', 'LEFT', 'RIGHT', 'TOP', 'BOTTOM', 'BOTH', 'X', 'Y', 'W', 'E', 'N', 'S', 'NORMAL', 'DISABLED', 'WORD', 'INSERT', 'VERTICAL', 'HORIZONTAL', 'YES', 'NO', 'BooleanVar', 'StringVar'):
        setattr(tk, n, n.lower())
    mb = types.ModuleType('tkinter.messagebox')
    for k in ('showerror', 'showinfo', 'showwarning'):
        setattr(mb, k, _box(k))
    for k in ('askyesno', 'askokcancel', 'askretrycancel', 'askquestion', 'askyesnocancel'):
        setattr(mb, k, _ask(k))
    fd = types.ModuleType('tkinter.filedialog')
    fd.askopenfilename = _choose
    fd.asksaveasfilename = _choose
    fd.askdirectory = _choose
    ttk = types.ModuleType('tkinter.ttk')
    for n in ('Frame', 'Label', 'Button', 'Treeview', 'Scrollbar', 'Entry', 'Notebook', 'Combobox', 'Separator', 'Style'):
        setattr(ttk, n, type(n, (Widget,), {}))
    st = types.ModuleType('tkinter.scrolledtext')
    st.ScrolledText = type('ScrolledText', (Widget,), {})
    fo = types.ModuleType('tkinter.font')
    fo.Font = type('Font', (Widget,), {})
    for n, m in (('messagebox', mb), ('filedialog', fd), ('ttk', ttk), ('scrolledtext', st), ('font', fo)):
        setattr(tk, n, m)
        sys.modules['tkinter.' + n] = m
    sys.modules['tkinter'] = tk
