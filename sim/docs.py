"""Stub of the office program: reads, edits, re-saves, builds and damages OpenDocument files.

Independent of the code under test (ElementTree + zipfile only).  Editing works on the exported document itself:
the user changes paragraphs or cells; "lo" re-saves the whole document the way LibreOffice writes it
(no pretty printing, text runs split into spans, automatic paragraph styles, repeated cells, soft page breaks).
"""
import copy
import io
import random
import re
import xml.etree.ElementTree as ET
import zipfile

NS = dict(office='urn:oasis:names:tc:opendocument:xmlns:office:1.0', style='urn:oasis:names:tc:opendocument:xmlns:style:1.0', text='urn:oasis:names:tc:opendocument:xmlns:text:1.0',
          table='urn:oasis:names:tc:opendocument:xmlns:table:1.0', draw='urn:oasis:names:tc:opendocument:xmlns:drawing:1.0', fo='urn:oasis:names:tc:opendocument:xmlns:xsl-fo-compatible:1.0',
          xlink='http://www.w3.org/1999/xlink', dc='http://purl.org/dc/elements/1.1/', meta='urn:oasis:names:tc:opendocument:xmlns:meta:1.0',
          number='urn:oasis:names:tc:opendocument:xmlns:datastyle:1.0', svg='urn:oasis:names:tc:opendocument:xmlns:svg-compatible:1.0', calcext='urn:org:documentfoundation:names:experimental:calc:xmlns:calcext:1.0',
          officeooo='http://openoffice.org/2009/office', loext='urn:org:documentfoundation:names:experimental:office:xmlns:loext:1.0')


def q(name):
    p, n = name.split(':')
    return f'{{{NS[p]}}}{n}'


T_P, T_H, T_SPAN, T_S, T_SECTION, T_A = q('text:p'), q('text:h'), q('text:span'), q('text:s'), q('text:section'), q('text:a')
T_STYLE = q('text:style-name')
T_TAB, T_BR, T_LIST, T_ITEM = q('text:tab'), q('text:line-break'), q('text:list'), q('text:list-item')
NAMED = {'i': 'Emphasis', 'b': 'Strong_20_Emphasis'}
AUTO = dict(  # automatic styles the office program makes up: family, parent, text properties
    TI=('text', None, {'fo:font-style': 'italic'}), TB=('text', None, {'fo:font-weight': 'bold'}), TU=('text', None, {'style:text-underline-style': 'solid'}),
    TIB=('text', None, {'fo:font-style': 'italic', 'fo:font-weight': 'bold'}), TIU=('text', None, {'fo:font-style': 'italic', 'fo:color': '#ff0000'}),
    PI=('paragraph', 'First_20_line_20_indent', {'fo:font-style': 'italic'}), PB=('paragraph', 'Text_20_body', {'fo:font-weight': 'bold'}), PQ=('paragraph', 'Quotations', {'fo:color': '#ff0000'}),
    H1A=('paragraph', 'Heading_20_1', {'fo:color': '#ff0000'}), H2A=('paragraph', 'Heading_20_2', {'fo:color': '#ff0000'}), H3A=('paragraph', 'Heading_20_3', {'fo:color': '#ff0000'}))
MARKS = dict(i='i', b='b', TI='i', TB='b', TIB='ib', TIU='i', PI='i', PB='b')
QUOTES = ('Quotations', 'PQ')
T_ROW, T_CELL, T_REP = q('table:table-row'), q('table:table-cell'), q('table:number-columns-repeated')
ODS_ID = dict(_charlist='CrID:', _loclist='LcID:', _itemlist='ItID:', _scenelist='ScID:')
ODS_COLS = dict(_charlist=10, _loclist=5, _itemlist=5, _scenelist=21)


class BadDoc(Exception):
    pass


class Doc:
    """An unpacked document."""

    def __init__(self, data):
        try:
            with zipfile.ZipFile(io.BytesIO(data)) as z:
                self.names = z.namelist()
                self.members = {n: z.read(n) for n in self.names}
            xml = self.members['content.xml']
            self.ns = {}
            for ev, (p, u) in ET.iterparse(io.BytesIO(xml), events=['start-ns']):
                self.ns.setdefault(p, u)
            self.root = ET.fromstring(xml)
        except Exception as ex:
            raise BadDoc(f'{type(ex).__name__}: {ex}')

    def save(self, date=(2023, 11, 15, 10, 0, 0), stored=False, order=None):
        for p, u in self.ns.items():
            if p and not re.fullmatch(r'ns\d+', p):
                ET.register_namespace(p, u)
        for p, u in NS.items():
            ET.register_namespace(p, u)
        body = ET.tostring(self.root, encoding='unicode')
        self.members['content.xml'] = ('<?xml version="1.0" encoding="UTF-8"?>\n' + body).encode('utf-8')
        buf = io.BytesIO()
        with zipfile.ZipFile(buf, 'w') as z:
            for n in (order or self.names):
                zi = zipfile.ZipInfo(n, date)
                zi.compress_type = zipfile.ZIP_STORED if stored or n == 'mimetype' else zipfile.ZIP_DEFLATED
                z.writestr(zi, self.members[n])
        return buf.getvalue()

    # ------------------------------------------------------------ text documents
    def sections(self):
        """dict section name -> (parent element list object, start, end) giving the editable blocks"""
        out = {}
        for s in self.root.iter(T_SECTION):
            name = s.get(q('text:name'))
            if name and not (name.startswith('CrID:') or (name.startswith('ChID') and any(c.tag == T_SECTION for c in s))):
                out[name] = s
        return out

    def body(self):
        b = self.root.find(q('office:body'))
        t = b.find(q('office:text')) if b is not None else None
        if t is None:
            raise BadDoc('no text body')
        return t

    def paras(self, suffix, key):
        """(container, [paragraph elements]) of an editable region."""
        if suffix == '_proof':
            num = key.split(':')[1]
            body = self.body()
            inside, got = False, []
            for el in list(body):
                if el.tag in (T_P, T_H):
                    t = ''.join(el.itertext())
                    if t == f'[ScID:{num}]':
                        inside = True
                        continue
                    if inside and t.startswith('[/ScID'):
                        return body, got
                if inside:
                    got.extend([p for i in el.iter(T_ITEM) for p in i if p.tag == T_P] if el.tag == T_LIST else [el])
            raise BadDoc(f'no scene {key} in the document')
        secs = self.sections()
        if key not in secs:
            raise BadDoc(f'no section {key} in the document')
        s = secs[key]
        out = []
        for e in s:
            if e.tag == T_P or e.tag == T_H and not key.startswith('ChID'):
                out.append(e)
            elif e.tag == T_LIST:
                out.extend(p for i in e.iter(T_ITEM) for p in i if p.tag == T_P)
        return s, out

    def keys(self, suffix):
        if suffix == '_proof':
            return [f'ScID:{m}' for m in re.findall(r'\[ScID:(\d+)\]', ''.join(''.join(e.itertext()) + '\n' for e in self.body() if e.tag == T_P))]
        want = dict(_manuscript='ScID', _scenes='ScID', _notes='ScID', _todo='ScID', _chapters='ChID', _parts='ChID', _characters='CrID_', _items='ItID', _locations='LcID')[suffix]
        return [k for k in self.sections() if k.startswith(want)]

    # ------------------------------------------------------------ spreadsheets
    def table(self):
        b = self.root.find(q('office:body'))
        sp = b.find(q('office:spreadsheet')) if b is not None else None
        t = sp.find(q('table:table')) if sp is not None else None
        if t is None:
            raise BadDoc('no table')
        return t

    def rows(self, suffix):
        """list of [element, id] of the data rows"""
        out = []
        for r in self.table().findall(T_ROW):
            c = r.find(T_CELL)
            t = cell_text(c) if c is not None else ''
            if t.startswith(ODS_ID[suffix]):
                out.append([r, t[len(ODS_ID[suffix]):]])
        return out


def cell_text(c):
    return '\n'.join(''.join(p.itertext()) for p in c.findall(T_P))


def expand(row, n):
    """replace repeated cells by single ones, at least n of them"""
    out = []
    for c in list(row):
        if c.tag != T_CELL:
            continue
        rep = int(c.get(T_REP, '1'))
        if T_REP in c.attrib:
            del c.attrib[T_REP]
        for j in range(min(rep, 40)):
            out.append(c if j == 0 else copy.deepcopy(c))
    while len(out) < n:
        out.append(ET.Element(T_CELL))
    for c in list(row):
        row.remove(c)
    row.extend(out)
    return out


def set_cell(c, value):
    for k in [k for k in c.attrib if not k.endswith('style-name')]:
        del c.attrib[k]
    for p in list(c):
        c.remove(p)
    c.text = None
    if value == '':
        return
    c.set(q('office:value-type'), 'string')
    for line in value.split('\n'):
        p = ET.SubElement(c, T_P)
        fill(p, [line])


def fill(p, runs):
    """Put text runs into a paragraph: strings, or [style, text] with style i, b, lang..."""
    p.text = None
    for c in list(p):
        p.remove(c)
    for r in runs:
        if isinstance(r, str):
            put(p, r)
        elif r[0] in ('note', 'fn', 'en'):
            if r[0] == 'note':
                el = a = ET.SubElement(p, q('office:annotation'))
                ET.SubElement(el, q('dc:creator')).text = 'Reader'
                ET.SubElement(el, q('dc:date')).text = '2023-11-15T10:00:00'
            else:
                el = ET.SubElement(p, q('text:note'))
                el.set(q('text:note-class'), 'footnote' if r[0] == 'fn' else 'endnote')
                ET.SubElement(el, q('text:note-citation')).text = '1'
                a = ET.SubElement(el, q('text:note-body'))
            n = ET.SubElement(a, T_P)
            if len(r) > 2:
                n.set(T_STYLE, r[2])
            half = len(r[1]) // 2
            if len(r) > 3:
                put(n, r[1][:half])
                sp = ET.SubElement(n, T_SPAN)
                sp.set(T_STYLE, r[3])
                put(sp, r[1][half:])
            else:
                put(n, r[1])
        else:
            sp = ET.SubElement(p, T_SPAN)
            sp.set(T_STYLE, NAMED.get(r[0], r[0]).replace(':', '_'))
            put(sp, r[1])


def put(el, s):
    """append character data the ODF way: further blanks become text:s"""
    last = el[-1] if len(el) else None

    def add(t):
        nonlocal last
        if last is None:
            el.text = (el.text or '') + t
        else:
            last.tail = (last.tail or '') + t
    pos = 0
    first = not (el.text or len(el))
    for m in re.finditer(r' {2,}|^ |\t|\n', s):
        if m.group() == ' ' and not first:
            continue
        add(s[pos:m.start()])
        if m.group() in '\t\n':
            last = ET.SubElement(el, T_TAB if m.group() == '\t' else T_BR)
            pos = m.end()
            continue
        n = len(m.group())
        if m.start() > 0 or not first:
            add(' ')
            n -= 1
        if n:
            last = ET.SubElement(el, T_S)
            if n > 1:
                last.set(q('text:c'), str(n))
        pos = m.end()
    add(s[pos:])


def runs_text(runs, style=None):
    """the yWriter text of a paragraph (without formatting, if style is '')"""
    def tagged(text, marks):
        return ''.join(f'[{m}]' for m in marks) + text + ''.join(f'[/{m}]' for m in reversed(marks))
    m = list(MARKS.get(style or '', ''))
    out = ''
    for r in runs:
        if isinstance(r, str):
            out += r
        elif r[0] in ('note', 'fn', 'en'):
            out += '/*' + (f'@{r[0]} ' if r[0] != 'note' else '') + r[1].strip() + '*/'
        elif style == '':
            out += r[1]
        elif r[0].startswith('L:'):
            out += tagged(r[1], ['lang=' + r[0][2:]])
        else:
            out += tagged(r[1], [x for x in MARKS.get(r[0], '') if x not in m])
    return '\n'.join(tagged(x, m) for x in out.split('\n')) if m else out


def top(box, p):
    """the child of the container that is or holds the paragraph"""
    for e in box:
        if e is p or e.tag == T_LIST and any(x is p for x in e.iter(T_P)):
            return e


def para(style, runs):
    """A new paragraph or heading"""
    if style in ('h1', 'h2', 'h3', 'h4'):
        el = ET.Element(T_H)
        el.set(q('text:outline-level'), style[1])
        el.set(T_STYLE, 'Heading_20_' + style[1])
        fill(el, runs)
        return el
    el = ET.Element(T_P)
    fill(el, runs)
    if style == 'li':
        el.set(T_STYLE, 'Text_20_body')
        li = ET.Element(T_LIST)
        ET.SubElement(li, T_ITEM).append(el)
        return li
    el.set(T_STYLE, style)
    return el


def auto_styles(d):
    """Define the automatic styles the document uses"""
    used = {e.get(T_STYLE) for e in d.root.iter() if e.get(T_STYLE) in AUTO or (e.get(T_STYLE) or '').startswith('L_')}
    if not used:
        return
    auto = d.root.find(q('office:automatic-styles'))
    if auto is None:
        auto = ET.Element(q('office:automatic-styles'))
        d.root.insert(0, auto)
    have = {e.get(q('style:name')) for e in auto}
    for name in sorted(used - have):
        if name.startswith('L_'):
            lng, _, ctr = name[2:].partition('-')
            family, parent, props = 'text', None, {'fo:language': lng, 'fo:country': ctr or 'none'}
        else:
            family, parent, props = AUTO[name]
        st = ET.SubElement(auto, q('style:style'))
        st.set(q('style:name'), name)
        st.set(q('style:family'), family)
        if parent:
            st.set(q('style:parent-style-name'), parent)
        tp = ET.SubElement(st, q('style:text-properties'))
        for k, v in props.items():
            tp.set(q(k), v)


# ---------------------------------------------------------------- editing
def edit(data, suffix, edits):
    d = Doc(data)
    opts = {}
    for e in edits:
        k = e[0]
        if k == 'set':  # key, index, runs
            box, ps = d.paras(suffix, e[1])
            if ps:
                fill(ps[e[2] % len(ps)], e[3])
        elif k == 'ins':  # key, index, runs[, style]
            box, ps = d.paras(suffix, e[1])
            i = e[2] % (len(ps) + 1)
            if ps:
                ref = ps[i - 1] if i else ps[0]
                pos = list(box).index(top(box, ref)) + (1 if i else 0)
            else:
                pos = len(list(box))
            style = e[4] if len(e) > 4 else 'Text_20_body' if i == 0 else 'First_20_line_20_indent'
            box.insert(pos, para(style, e[3]))
        elif k == 'del':
            box, ps = d.paras(suffix, e[1])
            if len(ps) > 1:
                box.remove(top(box, ps[e[2] % len(ps)]))
        elif k == 'all':  # key, [runs, ...]: replace the whole text
            box, ps = d.paras(suffix, e[1])
            pos = list(box).index(top(box, ps[0])) if ps else len(list(box))
            for p in ps:
                box.remove(top(box, p))
            for j, runs in enumerate(e[2]):
                st = 'Text_20_body' if j == 0 else 'First_20_line_20_indent'
                if isinstance(runs, dict):
                    st = f'h{runs["h"]}' if 'h' in runs else runs['st']
                    runs = runs['runs']
                box.insert(pos + j, para(st, runs))
        elif k == 'cell':  # id, column, value
            for r, i in d.rows(suffix):
                if i == e[1]:
                    set_cell(expand(r, ODS_COLS[suffix])[e[2]], e[3])
        elif k == 'delrow':
            t = d.table()
            for r, i in d.rows(suffix):
                if i == e[1]:
                    t.remove(r)
        elif k == 'mvrow':  # id, new position among the data rows
            t = d.table()
            rows = d.rows(suffix)
            mv = [r for r, i in rows if i == e[1]]
            rest = [r for r, i in rows if i != e[1]]
            if mv and rest:
                n = e[2] % (len(rest) + 1)
                t.remove(mv[0])
                ref = rest[n - 1] if n else rest[0]
                t.insert(list(t).index(ref) + (1 if n else 0), mv[0])
        elif k == 'addrow':  # id, position, values
            t = d.table()
            rows = d.rows(suffix)
            el = ET.Element(T_ROW)
            c = ET.SubElement(el, T_CELL)
            set_cell(c, ODS_ID[suffix] + e[1])
            for v in e[3]:
                set_cell(ET.SubElement(el, T_CELL), v)
            n = e[2] % (len(rows) + 1)
            if rows:
                ref = rows[n - 1][0] if n else rows[0][0]
                t.insert(list(t).index(ref) + (1 if n else 0), el)
            else:
                t.append(el)
        elif k == 'lo':
            lo_resave(d, suffix, random.Random(e[1]))
            opts['lo'] = random.Random(e[1] + 1)
        else:
            raise ValueError(k)
    if suffix not in ODS_ID:
        auto_styles(d)
    if 'lo' in opts:
        r = opts['lo']
        order = [n for n in d.names if n != 'mimetype']
        r.shuffle(order)
        order = [n for n in d.names if n == 'mimetype'] + order
        return d.save(order=order, stored=r.random() < 0.2)
    return d.save()


def strip_ws(el, inline=False):
    """remove pretty-printing white space between block elements"""
    blocky = el.tag not in (T_P, T_H, T_SPAN, T_A)
    if blocky and el.text and not el.text.strip(' \n\r\t'):
        el.text = None
    for c in el:
        strip_ws(c)
        if blocky and c.tail and not c.tail.strip(' \n\r\t'):
            c.tail = None


def ods_resave(d, suffix, r):
    for row in d.table().findall(T_ROW):
        cells = expand(row, 1)
        for c in list(row):
            row.remove(c)
        i = 0
        while i < len(cells):
            c = cells[i]
            n = 1
            key = (sorted(c.attrib.items()), cell_text(c))
            while i + n < len(cells) and (sorted(cells[i + n].attrib.items()), cell_text(cells[i + n])) == key and (cell_text(c) == '' or r.random() < 0.5):
                n += 1
            if cell_text(c) == '':
                for p in list(c):
                    c.remove(p)
            if n > 1:
                c.set(T_REP, str(n))
            row.append(c)
            i += n
        if r.random() < 0.3:
            e = ET.SubElement(row, T_CELL)
            e.set(T_REP, str(r.choice([1000, 16000])))
    t = d.table()
    if r.random() < 0.5:
        e = ET.SubElement(t, T_ROW)
        e.set(q('table:number-rows-repeated'), '1048000')
        c = ET.SubElement(e, T_CELL)
        c.set(T_REP, '1024')


def lo_resave(d, suffix, r):
    """What LibreOffice does to a document that is merely opened and saved."""
    strip_ws(d.root)
    if suffix in ODS_ID:
        return ods_resave(d, suffix, r)
    auto = d.root.find(q('office:automatic-styles'))
    if auto is None:
        auto = ET.Element(q('office:automatic-styles'))
        d.root.insert(0, auto)
    made = {}

    def auto_style(kind, name, parent, **props):
        if name not in made:
            st = ET.SubElement(auto, q('style:style'))
            st.set(q('style:name'), name)
            st.set(q('style:family'), kind)
            if parent:
                st.set(q('style:parent-style-name'), parent)
            tp = ET.SubElement(st, q('style:text-properties'))
            for k, v in props.items():
                tp.set(q(k.replace('_', ':', 1).replace('__', '-')), v)
            made[name] = True
        return name
    note = q('office:annotation')
    try:
        regions = [d.paras(suffix, k)[1] for k in d.keys(suffix)]
    except BadDoc:
        regions = []
    for ps in regions:
        for p in ps:
            if r.random() < 0.35:
                st = p.get(T_STYLE) or 'Standard'
                if p.tag == T_P and st in ('Text_20_body', 'First_20_line_20_indent'):
                    n = 'P' + str(1 + list(('Text_20_body', 'First_20_line_20_indent')).index(st))
                    p.set(T_STYLE, auto_style('paragraph', n, st, officeooo_rsid='0012ab34'))
            if r.random() < 0.5:
                split_runs(p, r, lambda: auto_style('text', 'T9' + str(r.randint(1, 3)), None, officeooo_rsid='0034cd56'))
            if r.random() < 0.1:
                insert_empty(p, r, ET.Element(q('text:soft-page-break')))
            if r.random() < 0.05:
                b = ET.Element(q('text:bookmark'))
                b.set(q('text:name'), 'bm')
                insert_empty(p, r, b)
    b = d.body()
    if r.random() < 0.7:
        sq = ET.Element(q('text:sequence-decls'))
        s1 = ET.SubElement(sq, q('text:sequence-decl'))
        s1.set(q('text:display-outline-level'), '0')
        s1.set(q('text:name'), 'Illustration')
        b.insert(0, sq)


def split_runs(p, r, style):
    """wrap random pieces of the direct text of a paragraph into spans"""
    if len(p) == 0 and p.text and len(p.text) > 3:
        t = p.text
        n = r.randint(1, 3)
        cuts = sorted(r.sample(range(1, len(t)), min(n, len(t) - 1)))
        parts = [t[a:b] for a, b in zip([0] + cuts, cuts + [len(t)])]
        p.text = None
        last = None
        for s in parts:
            if r.random() < 0.6:
                sp = ET.SubElement(p, T_SPAN)
                sp.set(T_STYLE, style())
                sp.text = s
                last = sp
            elif last is None:
                p.text = (p.text or '') + s
            else:
                last.tail = (last.tail or '') + s


def insert_empty(p, r, el):
    if len(p) == 0 and p.text:
        i = r.randrange(len(p.text) + 1)
        el.tail = p.text[i:]
        p.text = p.text[:i]
        p.append(el)


# ---------------------------------------------------------------- new documents
STYLES = ('<?xml version="1.0" encoding="UTF-8"?><office:document-styles xmlns:office="{office}" xmlns:style="{style}" xmlns:fo="{fo}" xmlns:text="{text}" office:version="1.2"><office:styles>'
          '<style:default-style style:family="graphic"/><style:default-style style:family="paragraph"><style:text-properties fo:language="{{lang}}" fo:country="{{ctr}}"/></style:default-style>'
          '</office:styles></office:document-styles>').format(**NS)
MANIFEST = '<?xml version="1.0" encoding="UTF-8"?><manifest:manifest xmlns:manifest="urn:oasis:names:tc:opendocument:xmlns:manifest:1.0"><manifest:file-entry manifest:media-type="application/vnd.oasis.opendocument.text" manifest:full-path="/"/></manifest:manifest>'


def build_odt(spec):
    """A document written from scratch by the user: spec = dict(title, author, desc, blocks=[[style, runs]...], lo=seed)"""
    root = ET.Element(q('office:document-content'))
    ET.SubElement(root, q('office:automatic-styles'))
    body = ET.SubElement(ET.SubElement(root, q('office:body')), q('office:text'))
    # h1..h3: headings, with an automatic style (A) or as paragraphs with this style (P); h4: paragraph (scene divider), H4: heading
    for st, runs in spec['blocks']:
        if st[0] == 'h' and st[1:2] in '123':
            el = para(st[:2], runs)
            if st.endswith('A'):
                el.set(T_STYLE, f'H{st[1]}A')
            if 'P' in st:
                el.tag = T_P
                del el.attrib[q('text:outline-level')]
        elif st == 'H4':
            el = para('h4', runs)
        else:
            el = para({'p': 'Text_20_body', 'f': 'First_20_line_20_indent', 'h4': 'Heading_20_4'}.get(st, st), runs)
        body.append(el)
    d = Doc.__new__(Doc)
    d.root, d.ns = root, {}
    auto_styles(d)
    if spec.get('lo') is not None:
        r = random.Random(spec['lo'])
        for el in list(body.iter(T_P)) + list(body.iter(T_H)):
            if r.random() < 0.3:
                split_runs(el, r, lambda: 'T' + str(r.randint(90, 99)))
            if r.random() < 0.1:
                insert_empty(el, r, ET.Element(q('text:soft-page-break')))
        if r.random() < 0.5:
            sq = ET.Element(q('text:sequence-decls'))
            ET.SubElement(sq, q('text:sequence-decl')).set(q('text:name'), 'Table')
            body.insert(0, sq)
    m = ET.Element(q('office:document-meta'))
    mm = ET.SubElement(m, q('office:meta'))
    for tag, k in (('dc:title', 'title'), ('meta:initial-creator', 'author'), ('dc:description', 'desc')):
        if spec.get(k):
            ET.SubElement(mm, q(tag)).text = spec[k]
    for p, u in NS.items():
        ET.register_namespace(p, u)
    d.names = ['mimetype', 'content.xml', 'styles.xml', 'META-INF/manifest.xml']
    d.members = {'mimetype': b'application/vnd.oasis.opendocument.text', 'META-INF/manifest.xml': MANIFEST.encode(), 'content.xml': b'',
                 'styles.xml': STYLES.format(lang=spec.get('lang', 'en'), ctr=spec.get('ctr', 'US')).encode()}
    if spec.get('meta', True):
        d.members['meta.xml'] = ET.tostring(m, encoding='utf-8', xml_declaration=True)
        d.names.append('meta.xml')
    return d.save()


# ---------------------------------------------------------------- damage
def damage(data, how):
    k = how[0]
    if k == 'cut':  # truncated after a fraction
        return data[:int(len(data) * how[1])]
    if k == 'cutn':
        return data[:how[1]]
    if k == 'flip':  # [pos fraction, xor]...
        b = bytearray(data)
        for fr, x in how[1]:
            if b:
                b[min(len(b) - 1, int(fr * len(b)))] ^= (x or 1)
        return bytes(b)
    if k == 'zero':  # a block of zeros (lost write)
        b = bytearray(data)
        a = int(how[1] * len(b))
        n = min(how[2], len(b) - a)
        b[a:a + n] = bytes(n)
        return bytes(b)
    if k == 'gap':  # a piece is missing
        a = int(how[1] * len(data))
        return data[:a] + data[a + how[2]:]
    if k == 'other':
        return how[1].encode('utf-8')
    if k == 'drop':  # a member of the package is missing
        try:
            d = Doc(data)
        except BadDoc:
            return data[:10]
        d.names = [n for n in d.names if n != how[1]]
        return d.save()
    if k == 'member':  # a member is cut, inside an intact package
        try:
            d = Doc(data)
        except BadDoc:
            return data[:10]
        x = d.save()
        with zipfile.ZipFile(io.BytesIO(x)) as z:
            mem = {n: z.read(n) for n in z.namelist()}
        if how[1] in mem:
            mem[how[1]] = mem[how[1]][:int(len(mem[how[1]]) * how[2])]
        buf = io.BytesIO()
        with zipfile.ZipFile(buf, 'w') as z:
            for n, c in mem.items():
                z.writestr(zipfile.ZipInfo(n, (2023, 11, 15, 10, 0, 0)), c)
        return buf.getvalue()
    raise ValueError(k)


def has_member(data, name):
    try:
        with zipfile.ZipFile(io.BytesIO(data)) as z:
            return name in z.namelist() and z.getinfo(name).file_size > 0
    except Exception:
        return True


def first_difference(a, b):
    """short text about the first difference of two files"""
    if a is None or b is None:
        return 'missing' if a is None else 'unexpected file'

    def parts(x):
        try:
            with zipfile.ZipFile(io.BytesIO(x)) as z:
                return {n: z.read(n) for n in z.namelist()}
        except Exception:
            return {'': x}
    pa, pb = parts(a), parts(b)
    for n in sorted(set(pa) | set(pb)):
        if n == 'meta.xml':
            continue
        x, y = pa.get(n), pb.get(n)
        if x is None or y is None:
            return f'member {n} {"missing" if x is None else "unexpected"}'
        if x != y:
            i = next((i for i, (c, d) in enumerate(zip(x, y)) if c != d), min(len(x), len(y)))
            return f'{n} at {i}: {x[max(0, i - 20):i + 40]!r} / {y[max(0, i - 20):i + 40]!r}'
    return 'metadata'
