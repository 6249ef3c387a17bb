"""yWriter stand-in: an independent reader, writer and editor of .yw7 files.

Project trees are plain JSON: [tag, text] for leaves, [tag, [child, ...]] for nodes.
Nothing in here uses the code under test.
"""
import copy
import re
import xml.etree.ElementTree as ET

CDATA = {'Title', 'AuthorName', 'Bio', 'Desc', 'FieldTitle1', 'FieldTitle2', 'FieldTitle3', 'FieldTitle4', 'LaTeXHeaderFile', 'Tags', 'AKA',
         'ImageFile', 'FullName', 'Goals', 'Notes', 'RTFFile', 'SceneContent', 'Outcome', 'Goal', 'Conflict'}
CONTROL = re.compile('[\x00-\x08\x0b-\x0c\x0e-\x1f]')
SECTIONS = ('LOCATIONS', 'ITEMS', 'CHARACTERS', 'PROJECTNOTES', 'SCENES', 'CHAPTERS', 'PROJECTVARS')
MEMBER = dict(LOCATIONS='LOCATION', ITEMS='ITEM', CHARACTERS='CHARACTER', PROJECTNOTES='PROJECTNOTE', SCENES='SCENE', CHAPTERS='CHAPTER', PROJECTVARS='PROJECTVAR')
NODES = {'Fields', 'Scenes', 'Characters', 'Locations', 'Items'} | set(SECTIONS) | set(MEMBER.values()) | {'PROJECT', 'YWRITER7', 'PROJECTEXPS', 'PROJECTEXP'}


class BadProject(Exception):
    pass


# ---------------------------------------------------------------- reading
def parse(data):
    """bytes of a project file -> tree; BadProject if it is not a complete project."""
    if data is None:
        raise BadProject('missing')
    text = None
    for enc in ('utf-8-sig', 'utf-16'):
        try:
            text = data.decode(enc)
            break
        except UnicodeError:
            continue
    if text is None:
        raise BadProject('cannot decode')
    text = CONTROL.sub('', text.lstrip('\ufeff'))
    text = re.sub(r'^\s*<\?xml[^>]*\?>', '', text)
    try:
        root = ET.fromstring(text)
    except ET.ParseError as ex:
        raise BadProject(f'not well-formed: {ex}') from None
    except ValueError as ex:
        raise BadProject(str(ex)) from None
    if root.tag != 'YWRITER7':
        raise BadProject(f'root element {root.tag}')

    def conv(e):
        if len(e) or e.tag in NODES:
            return [e.tag, [conv(c) for c in e]]
        return [e.tag, e.text]
    tree = conv(root)
    for need in ('PROJECT', 'LOCATIONS', 'ITEMS', 'CHARACTERS', 'SCENES', 'CHAPTERS'):
        if child(tree, need) is None:
            raise BadProject(f'{need} missing')
    return tree


def kids(node):
    return node[1] if isinstance(node[1], list) else []


def child(node, tag):
    for c in kids(node):
        if c[0] == tag:
            return c
    return None


def text(node, tag, default=None):
    c = child(node, tag)
    if c is None:
        return default
    return c[1] if isinstance(c[1], str) else ''


def members(tree, section):
    s = child(tree, section)
    return [m for m in kids(s) if m[0] == MEMBER[section]] if s is not None else []


def member(tree, section, mid):
    for m in members(tree, section):
        if text(m, 'ID') == mid:
            return m
    return None


# ---------------------------------------------------------------- writing
def esc(t):
    return t.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;')


def cdata(t):
    return '<![CDATA[' + t.replace(']]>', ']]]]><![CDATA[>') + ']]>'


def render(tree, style=None):
    """tree -> bytes, the way yWriter (default) or yWriter for iOS (utf-16) writes it."""
    style = style or {}
    tab = '' if style.get('flat') else '\t'
    out = ['<?xml version="1.0" encoding="utf-8"?>\n']

    def rec(node, depth):
        tag, val = node
        ind = tab * depth
        if isinstance(val, list):
            out.append(f'{ind}<{tag}>\n')
            for c in val:
                rec(c, depth + 1)
            out.append(f'{ind}</{tag}>\n')
            if depth == 1 and not style.get('flat'):
                out.append('\n')
        elif val is None:
            out.append(f'{ind}<{tag} />\n' if not style.get('pair') else f'{ind}<{tag}></{tag}>\n')
        elif tag in CDATA and not style.get('nocdata'):
            out.append(f'{ind}<{tag}>{cdata(val)}</{tag}>\n')
        else:
            out.append(f'{ind}<{tag}>{esc(val)}</{tag}>\n')
    rec(tree, 0)
    txt = ''.join(out)
    if style.get('ctrl') is not None:
        # characters that are not allowed in XML, as pasted into yWriter from elsewhere
        import random
        r = random.Random(style['ctrl'])
        pos = [m.start() for m in re.finditer(r'(?<=[a-z]) (?=[a-z]+[ .])', txt)]
        for i in sorted(r.sample(pos, min(len(pos), 3)), reverse=True):
            txt = txt[:i] + r.choice('\x01\x02\x0b\x0c\x1f') + txt[i:]
    if style.get('crlf'):
        txt = txt.replace('\n', '\r\n')
    if style.get('enc') == 'utf-16':
        return txt.encode('utf-16')
    b = txt.encode('utf-8')
    return (b'\xef\xbb\xbf' + b) if style.get('bom', True) else b


# ---------------------------------------------------------------- editing
def set_child(node, tag, val):
    c = child(node, tag)
    if val is None:
        if c is not None:
            node[1].remove(c)
    elif c is not None:
        c[1] = val
    else:
        node[1].append([tag, val])


REFLIST = dict(CHARACTERS=('Characters', 'CharID'), LOCATIONS=('Locations', 'LocID'), ITEMS=('Items', 'ItemID'))


def edit(tree, op):
    """Apply one edit of the yWriter user.  Edits that do not apply any more are ignored."""
    kind = op[0]
    if kind == 'set':  # section, id, tag, text|None
        _, sec, mid, tag, val = op
        m = child(tree, 'PROJECT') if sec == 'PROJECT' else member(tree, sec, mid)
        if m is not None:
            set_child(m, tag, val)
    elif kind == 'field':
        _, sec, mid, tag, val = op
        m = child(tree, 'PROJECT') if sec == 'PROJECT' else member(tree, sec, mid)
        if m is not None:
            f = child(m, 'Fields')
            if f is None:
                if val is None:
                    return
                f = ['Fields', []]
                m[1].append(f)
            set_child(f, tag, val)
    elif kind == 'del':
        _, sec, mid = op
        m = member(tree, sec, mid)
        if m is None:
            return
        child(tree, sec)[1].remove(m)
        if sec == 'SCENES':
            for ch in members(tree, 'CHAPTERS'):
                lst = child(ch, 'Scenes')
                if lst is not None:
                    lst[1] = [s for s in lst[1] if s[1] != mid]
        elif sec in REFLIST:
            lt, it = REFLIST[sec]
            for sc in members(tree, 'SCENES'):
                lst = child(sc, lt)
                if lst is not None:
                    lst[1] = [s for s in lst[1] if s[1] != mid]
        elif sec == 'CHAPTERS':
            for s in kids(child(m, 'Scenes') or ['Scenes', []]):
                sc = member(tree, 'SCENES', s[1])
                if sc is not None:
                    child(tree, 'SCENES')[1].remove(sc)
    elif kind == 'add':  # section, member tree, [chapter id for scenes]
        _, sec, m = op[:3]
        s = child(tree, sec)
        if s is None:
            s = [sec, []]
            tree[1].append(s)
        if member(tree, sec, text(m, 'ID')) is not None:
            return
        if sec == 'SCENES':
            ch = member(tree, 'CHAPTERS', op[3])
            if ch is None:
                return
            lst = child(ch, 'Scenes')
            if lst is None:
                lst = ['Scenes', []]
                ch[1].append(lst)
            lst[1].append(['ScID', text(m, 'ID')])
        s[1].append([m[0], [list(x) for x in m[1]]])
    elif kind == 'move':  # section, id, index
        _, sec, mid, idx = op
        m = member(tree, sec, mid)
        if m is not None:
            s = child(tree, sec)
            s[1].remove(m)
            s[1].insert(min(idx, len(s[1])), m)
    elif kind == 'mvscene':  # scene id, chapter id, index
        _, sid, cid, idx = op
        ch = member(tree, 'CHAPTERS', cid)
        if ch is None or member(tree, 'SCENES', sid) is None:
            return
        for c in members(tree, 'CHAPTERS'):
            lst = child(c, 'Scenes')
            if lst is not None:
                lst[1] = [s for s in lst[1] if s[1] != sid]
        lst = child(ch, 'Scenes')
        if lst is None:
            lst = ['Scenes', []]
            ch[1].append(lst)
        lst[1].insert(min(idx, len(lst[1])), ['ScID', sid])
    elif kind == 'refs':  # section, scene id, list of ids
        _, sec, sid, ids = op
        sc = member(tree, 'SCENES', sid)
        if sc is not None:
            lt, it = REFLIST[sec]
            set_child(sc, lt, None)
            ids = [i for i in ids if member(tree, sec, i) is not None]
            if ids:
                sc[1].append([lt, [[it, i] for i in ids]])
    elif kind == 'resave':
        pass
    else:
        raise ValueError(kind)


def edit_bytes(data, ops, style=None):
    tree = parse(data)
    for op in copy.deepcopy(ops):  # the tree takes over parts of them
        edit(tree, op)
    return render(tree, style)
