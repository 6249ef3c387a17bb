"""Plan generators of the conversion properties: seed -> plan (JSON) for sim.world.World."""
import random

from .kernel import h64
from .world import EXPORTS, IMPORTS, rule
from .worldgen import Builder

CHAOS = 1 << 30


def _chaos(r, mode, **kw):
    return dict(mode=mode, seed=r.randrange(CHAOS), **kw)


MEMBERS = ['mimetype', 'content.xml', 'styles.xml', 'meta.xml', 'META-INF/manifest.xml', 'manifest.rdf', 'settings.xml']


def damage_how(r, kinds):
    k = r.choice(kinds)
    if k == 'cut':
        return [k, r.choice([0.0, round(r.random(), 5), round(r.random(), 5), round(1 - r.random() ** 3 * 0.1, 5)])]
    if k == 'cutn':
        return [k, r.choice([0, 1, 2, 3, 5, 30, 50, 100, 1000])]
    if k == 'flip':
        return [k, [[round(r.random(), 6), r.choice([1, 2, 4, 8, 16, 32, 64, 128, 255])] for _ in range(r.choice([1, 1, 1, 2, 5]))]]
    if k in ('zero', 'gap'):
        return [k, round(r.random(), 5), r.choice([1, 1, 2, 10, 100, 512, 4096])]
    if k == 'other':
        return [k, r.choice(['', 'x', '<html></html>', '<?xml version="1.0" encoding="utf-8"?><office:document-content/>', 'PK\x03\x04', 'PK\x05\x06' + '\0' * 18])]
    if k == 'drop':
        return [k, r.choice(MEMBERS)]
    return [k, r.choice(['content.xml', 'content.xml', 'content.xml', 'styles.xml', 'meta.xml']), round(r.random(), 4)]


def any_chaos(r):
    return _chaos(r, r.choice(['error', 'error', 'error', 'crash', 'sticky', 'full', 'nomem', 'short', 'intr', 'read']))


def more_doc(b, tree, path=None):
    """Another document of the project, put beside it; returns its path."""
    s = b.suffix(True)
    p = b.docpath(s)
    if p not in b.plan['files']:
        b.plan['files'][p] = b.doc_spec(tree, s)
    return p


def size(r, tier):
    return dict(nscenes=r.choice([25, 40, 60]) if r.random() < (0.06 if tier == 'quick' else 0.15) else None)


def c01(seed, tier):
    b = Builder(seed, **size(random.Random(seed ^ 1), tier))
    r = b.r
    kind, src, s, tgt = b.scenario(('import', 'import', 'import', 'create'))
    t = 0
    for k in range(r.choice([1, 1, 2, 3, 4, 5])):
        if k and kind == 'import' and r.random() < 0.4:
            src = more_doc(b, t)
        st = b.conv(src, s, prog=0)
        if r.random() < 0.85:
            st['chaos'] = _chaos(r, 'crash' if r.random() < 0.8 else 'any')
            if r.random() < 0.15:
                st['chaos'] = _chaos(r, 'intr')
        x = r.random()
        if x < 0.25:
            b.act('recover', path=tgt)
        elif x < 0.35 and kind == 'import':
            b.act('edit', path=tgt, ops=b.ywedits(t, 1))
        elif x < 0.4:
            b.act('heal')
        if r.random() < 0.5:
            b.restart()
    return b.plan


def c02(seed, tier, kinds=('import', 'import', 'import', 'create'), crash=0.0):
    b = Builder(seed, **size(random.Random(seed ^ 1), tier))
    r = b.r
    kind, src, s, tgt = b.scenario(kinds)
    for k in range(r.choice([1, 1, 2, 3, 4])):
        if k and kind == 'import' and r.random() < 0.3:
            src = more_doc(b, 0)
        if k and kind == 'export' and r.random() < 0.3:
            s = b.suffix()
        st = b.conv(src, s)
        if r.random() < 0.9:
            if r.random() < crash:
                st['chaos'] = _chaos(r, 'crash')
            else:
                st['chaos'] = _chaos(r, 'any', modes=['error'] * 5 + ['sticky', 'sticky', 'full', 'full', 'nomem', 'intr', 'short'])
        x = r.random()
        if x < 0.5:
            b.act('heal')
        if r.random() < 0.1:
            b.restart()
        if r.random() < 0.1 and kind != 'create':
            b.act('edit', path=b.prj, ops=b.ywedits(0, 1))
    return b.plan


def c03(seed, tier):
    return c02(seed, tier, ('export',), 0.3)


def wild_source(b):
    """A conversion of any kind, including the ones that have to be refused."""
    r = b.r
    x = r.random()
    t = 0
    if x < 0.4:
        return b.prj, b.suffix()
    if x < 0.75:
        return more_doc(b, t), ''
    if x < 0.82:  # no project of that name
        s = b.suffix(True)
        p = b.dir + '/nobody' + s + EXPORTS[s]
        b.plan['files'].setdefault(p, b.doc_spec(t, s))
        return p, ''
    if x < 0.88:
        p = b.dir + '/fresh' + str(r.randrange(3)) + '.odt'
        b.plan['files'].setdefault(p, b.create_spec())
        return p, ''
    if x < 0.92:  # nothing there
        return b.dir + '/' + r.choice(['none.yw7', 'none_proof.odt', 'none.odt', 'nodir/x.yw7', 'none_charlist.ods']), b.suffix()
    if x < 0.95:
        return b.prj, r.choice(['_what', '_data', '.odt', '_', '_manuscript.odt', 'proof'])
    p = b.dir + '/' + r.choice(['n.txt', 'n.yw6', 'n.ods', 'n_xref.odt', 'n_brf_synopsis.odt', 'n', 'n.ODT', 'n.docx', 'n.yw7.bak', '.yw7', 'x_proof.ods', 'x_charlist.odt'])
    b.plan['files'].setdefault(p, r.choice([dict(text='something else'), dict(tree=t)]))
    return p, ''


def mixed(seed, tier, n=(1, 2, 2, 3, 4, 6), chaos=0.6, ans=0.25, mode=None, keep=0.1, progs=1):
    b = Builder(seed, **size(random.Random(seed ^ 1), tier))
    r = b.r
    t = b.tree()
    b.place()
    b.add_project(t)
    if r.random() < 0.4:
        b.plan['files'][b.prj + '.bak'] = dict(tree=t, ops=[['set', 'PROJECT', None, 'Title', 'An older version']])
    if r.random() < 0.3:
        t2 = b.tree()
        b.plan['files'][b.dir + '/nobody2.yw7'] = dict(tree=t2)
    for k in range(r.choice(n)):
        src, s = wild_source(b)
        st = b.conv(src, s, prog=r.randrange(progs))
        if r.random() < chaos:
            st['chaos'] = mode(r) if mode else any_chaos(r)
        if r.random() < ans:
            st['ans'] = r.choice(['no', 'no', 'eof', 'intr', 'exc'])
        if r.random() < keep:
            st['keep'] = True
        if r.random() < 0.5:
            b.act('heal')
        if r.random() < 0.2:
            b.act('recover', path=b.prj)
        if r.random() < 0.1:
            b.restart(r.randrange(progs))
        if r.random() < 0.06:
            b.act('lock', path=b.prj)
        elif r.random() < 0.2:
            b.act('unlock', path=b.prj)
    b.decoys(r.randint(0, 6))
    return b.plan


def c04(seed, tier):
    return mixed(seed, tier, mode=lambda r: _chaos(r, r.choice(['error', 'error', 'error', 'sticky', 'full', 'nomem', 'short', 'short', 'intr', 'read'])))


def c05(seed, tier):
    b = Builder(seed, **size(random.Random(seed ^ 1), tier))
    r = b.r
    t = b.tree()
    b.place()
    b.add_project(t)
    sufs = [b.suffix() for _ in range(2)]
    docs = [more_doc(b, t) for _ in range(2)]
    tgts = [b.docpath(s) for s in sufs] + [b.prj]
    for p in tgts:
        if r.random() < 0.5 and p not in b.plan['files']:
            b.plan['files'][p] = dict(text='an earlier document')
        if r.random() < 0.3:
            b.plan['files'][p + '.bak'] = dict(text='an earlier backup') if p != b.prj else dict(tree=t, ops=[['set', 'PROJECT', None, 'Title', 'Earlier']])
    for k in range(r.choice([2, 3, 4, 6, 8])):
        if r.random() < 0.5:
            st = b.conv(b.prj, r.choice(sufs))
        else:
            st = b.conv(r.choice(docs))
        if r.random() < 0.4:
            st['chaos'] = _chaos(r, r.choice(['error', 'error', 'crash', 'sticky', 'full', 'nomem', 'short', 'intr']))
        if r.random() < 0.2:
            st['ans'] = r.choice(['no', 'eof', 'intr', 'exc'])
        if r.random() < 0.15 and st['src'] != b.prj:
            st['askacts'] = [dict(a='edit', path=b.prj, ops=b.ywedits(t, 1))]
        b.act('heal')
        if r.random() < 0.6:
            b.act('recover', path=b.prj)
        if r.random() < 0.2:
            b.act('edit', path=b.prj, ops=b.ywedits(t, 2))
        if r.random() < 0.1:
            b.act('del', path=r.choice(tgts) + '.bak')
        if r.random() < 0.1:
            b.act('lock', path=b.prj)
            b.conv(b.prj, r.choice(sufs))
            b.act('unlock', path=b.prj)
        if r.random() < 0.1:
            b.act('del', path=b.docpath(r.choice(sufs)))
    return b.plan


def c06(seed, tier):
    b = Builder(seed, **size(random.Random(seed ^ 1), tier))
    r = b.r
    t = b.tree()
    b.place()
    b.add_project(t)
    if r.random() < 0.4:
        b.plan['files'][b.prj + '.bak'] = dict(tree=t, ops=[['set', 'PROJECT', None, 'Title', 'Earlier']])
    for k in range(r.choice([1, 2, 3])):
        exp = r.random() < 0.4
        src, s = (b.prj, b.suffix()) if exp else (more_doc(b, t), '')
        if exp and r.random() < 0.5:
            b.plan['files'].setdefault(b.docpath(s), dict(text='an earlier document'))
        late = r.random() < 0.55
        if not late:
            b.act('lock', path=b.prj)
        st = b.conv(src, s)
        if r.random() < 0.2:
            st['ans'] = r.choice(['no', 'eof'])
        if late:
            if not exp and r.random() < 0.35 or (exp and r.random() < 0.3 and b.docpath(s) in b.plan['files']):
                st['askacts'] = [dict(a='lock', path=b.prj)]
            else:
                st['chaos'] = _chaos(r, 'event', max='source', act=dict(a='lock', path=b.prj))
        if r.random() < 0.15:
            c = _chaos(r, r.choice(['short', 'error']))
            st['chaos'] = [st['chaos'], c] if 'chaos' in st else c
        b.act('unlock', path=b.prj)
        b.act('heal')
        if r.random() < 0.5:  # once the lock is gone, the same conversion works
            b.conv(src, s, unlocked=True)
        if r.random() < 0.2:
            b.restart()
    # other locks mean nothing
    for p in (b.prj + '.lock2', b.path + '.lock', b.dir + '/other.yw7.lock', b.prj[:-1] + '.lock'):
        if r.random() < 0.3:
            b.plan['files'][p] = dict(text='')
    return b.plan


def c07(seed, tier):
    b = Builder(seed)
    r = b.r
    kind, src, s, tgt = b.scenario(('import', 'import', 'export', 'export', 'create'))
    for k in range(r.choice([1, 2, 3])):
        st = b.conv(src, s)
        st['ans'] = r.choice(['yes', 'no', 'no', 'eof', 'intr', 'exc'])
        x = r.random()
        if x < 0.2:
            st['chaos'] = _chaos(r, r.choice(['error', 'short', 'full', 'nomem', 'read']))
        if x > 0.85:
            st['keep'] = True
        if r.random() < 0.3:
            b.act('heal')
        if r.random() < 0.3:
            b.act('del', path=tgt) if kind == 'export' else None
        if r.random() < 0.3 and kind == 'import':
            src = more_doc(b, 0)
        elif r.random() < 0.3 and kind == 'export':
            s = b.suffix()
            tgt = b.docpath(s)
    return b.plan


def c08(seed, tier):
    b = Builder(seed)
    r = b.r
    t = b.tree()
    b.place()
    b.add_project(t)
    if r.random() < 0.75:
        s = b.suffix(True)
        src = b.docpath(s)
        b.plan['files'][src] = b.doc_spec(t, s)
        st = b.conv(src)
    else:
        s = b.suffix()
        src = b.prj
        b.plan['files'][b.docpath(s)] = dict(text='an earlier document')
        st = b.conv(src, s)
    acts = []
    for _ in range(r.choice([1, 1, 2, 3])):
        x = r.random()
        if x < 0.5:
            acts.append(dict(a='edit', path=b.prj, ops=b.ywedits(t, r.randint(1, 3))))
        elif x < 0.8 and src != b.prj:
            acts.append(dict(a='put', path=src, data=b.doc_spec(t, s)))
        elif x < 0.85:
            t2 = b.tree()
            acts.append(dict(a='put', path=b.prj, data=dict(tree=t2)))
        elif x < 0.9 and src == b.prj:
            acts.append(dict(a='put', path=b.docpath(s), data=dict(text='saved meanwhile')))
        elif x < 0.93 and src == b.prj:
            acts.append(dict(a='del', path=b.docpath(s)))
        elif x < 0.96:
            acts.append(dict(a='put', path=b.prj, data=dict(text='<?xml version="1.0"?><YWRITER7><PROJECT><Ti')))
        elif src != b.prj:
            acts.append(dict(a='put', path=src, data=dict(text='no document')))
    st['askacts'] = acts
    if r.random() < 0.25:
        st2 = b.conv(st['src'], st['suffix'])
        st2['askacts'] = [dict(a='edit', path=b.prj, ops=b.ywedits(t, r.randint(1, 3)))]
    return b.plan


def c09(seed, tier):
    b = Builder(seed)
    r = b.r
    kind, src, s, tgt = b.scenario(('create',))
    x = r.random()
    t = b.tree() if len(b.plan['trees']) < 2 else 0
    if x < 0.45:
        b.plan['files'][tgt] = r.choice([dict(tree=t), dict(tree=t), dict(text=''), dict(text='not a project')])
        if r.random() < 0.4:
            b.plan['files'][tgt + '.bak'] = dict(tree=t)
        if r.random() < 0.2:
            b.act('lock', path=tgt)
        st = b.conv(src)
        st['ans'] = r.choice(['yes', 'yes', 'no'])
        if r.random() < 0.4:
            st['chaos'] = _chaos(r, r.choice(['error', 'crash', 'short', 'nomem', 'full', 'intr']))
    else:
        st = b.conv(src)
        st['chaos'] = [_chaos(r, 'event', act=dict(a='put', path=tgt, data=dict(tree=t)))]
        if r.random() < 0.35:
            st['chaos'].append(_chaos(r, r.choice(['error', 'error', 'crash', 'full', 'nomem', 'sticky'])))
    if r.random() < 0.5:
        b.act('heal')
        st = b.conv(src)
        if r.random() < 0.3:
            st['chaos'] = _chaos(r, r.choice(['error', 'crash']))
    return b.plan


def c10(seed, tier):
    return mixed(seed, tier, chaos=0.55, n=(1, 2, 3, 4))


def c11(seed, tier):
    return mixed(seed, tier, chaos=0.75, keep=0.15, n=(1, 2, 3, 5, 8), mode=lambda r: _chaos(r, r.choice(['error', 'error', 'error', 'sticky', 'full', 'nomem', 'intr', 'intr', 'read', 'short'])))


def c12(seed, tier):
    b = Builder(seed)
    r = b.r
    b.place()
    prjs = []
    for k in range(r.choice([1, 2, 2, 3])):
        t = b.tree()
        p = b.path if k == 0 else b.dir + r.choice(['/other', '/zweites Buch', '/q']) + str(k)
        prjs.append((t, p))
        b.plan['files'][p + '.yw7'] = dict(tree=t)
    for i in range(3):
        e = b.plan['progs'][str(i)]
        e['env'] = dict(r.choice([dict(bufsize=512), dict(bufsize=1024), dict(), dict()]), locale=('de_DE', 'UTF-8'))
    often = b.suffix() if seed % 4 == 0 else None  # the writer exports the same again and again
    for k in range(r.choice([2, 3, 4, 6, 8])):
        t, p = r.choice(prjs)
        prog = r.choice([0, 0, 0, 1])
        if often is not None and r.random() < 0.8:
            src, s = p + '.yw7', often
        elif r.random() < 0.5:
            src, s = p + '.yw7', b.suffix()
        else:
            s = b.suffix(True)
            src = p + s + IMPORTS[s]
            if src not in b.plan['files']:
                b.plan['files'][src] = b.doc_spec(t, s)
            s = ''
        cwd = b.plan['progs'][str(prog)]['cwd']
        if r.random() < 0.3 and src.startswith(cwd + '/'):
            src = src[len(cwd) + 1:]
            if r.random() < 0.3:
                src = './' + src
        st = b.conv(src, s, prog=prog)
        if r.random() < 0.3:
            st['chaos'] = any_chaos(r)
        if r.random() < 0.1:
            st['ans'] = r.choice(['no', 'intr'])
        if r.random() < 0.15:
            st['keep'] = True
        b.act('heal')
        if r.random() < 0.3:
            b.act('clock', dt=r.choice([1, 3600, -86400, 10**8, -10**8]))
        if r.random() < 0.2:
            b.act('edit', path=p + '.yw7', ops=b.ywedits(t, 2))
        b.act('recover', path=p + '.yw7')
    return b.plan


def c13(seed, tier):
    b = Builder(seed, **size(random.Random(seed ^ 1), tier))
    r = b.r
    kind, src, s, tgt = b.scenario(('import', 'import', 'export', 'create'))
    cause = r.choice(['fault'] * 6 + ['lock', 'damage', 'decline'])
    if cause == 'lock' and kind == 'create':
        cause = 'fault'
    if cause == 'damage':
        good = b.plan['files'][src]
        b.plan['files'][src] = dict(damage=damage_how(r, ['cut', 'zero', 'gap', 'other']), of=good)
    keep = r.random() < 0.25
    for k in range(r.choice([1, 1, 2, 3])):
        if cause == 'lock':
            b.act('lock', path=b.prj)
        st = b.conv(src, s, mark=True)
        if keep:
            st['keep'] = True
        if cause == 'decline':
            st['ans'] = r.choice(['no', 'intr', 'exc', 'eof'])
        elif cause == 'fault' or r.random() < 0.3:
            st['chaos'] = _chaos(r, r.choice(['error', 'error', 'error', 'crash', 'crash', 'sticky', 'full', 'nomem', 'intr', 'read']))
    b.act('heal')
    if cause == 'lock':
        b.act('unlock', path=b.prj)
    if cause == 'damage':
        b.act('put', path=src, data=good)
    if kind != 'export' or cause == 'fault':
        b.act('discard' if kind == 'create' else 'recover', path=tgt if kind != 'export' else b.prj)
    if r.random() < 0.35:
        b.restart()
    st = b.conv(src, s, again=True)
    if keep:
        st['keep'] = True
    return b.plan


def c18(seed, tier):
    b = Builder(seed)
    r = b.r
    x = r.random()
    t = b.tree()
    b.place()
    b.add_project(t)
    if x < 0.6:  # the document is damaged
        s = b.suffix(True)
        src = b.docpath(s)
        good = b.doc_spec(t, s)
        if r.random() < 0.25:
            b.plan['files'][src] = good
            st = b.conv(src, undamaged=good)
            st['chaos'] = _chaos(r, 'read', kinds=['eio', 'eacces', 'etimedout', 'emfile', 'ebusy', 'enoent'])
        else:
            how = r.choice(['cut', 'cut', 'cutn', 'flip', 'flip', 'flip', 'zero', 'gap', 'other', 'drop', 'member'])
            b.plan['files'][src] = dict(damage=damage_how(r, [how]), of=good)
            st = b.conv(src, undamaged=good)
    elif x < 0.75:  # new project from a damaged document
        src = b.dir + '/brandnew.odt'
        good = b.create_spec()
        b.plan['files'][src] = dict(damage=damage_how(r, ['cut', 'flip', 'flip', 'zero', 'gap', 'other', 'drop', 'member']), of=good)
        st = b.conv(src, undamaged=good)
    else:  # the project is truncated
        good = b.plan['files'][b.prj]
        b.plan['files'][b.prj] = dict(damage=damage_how(r, ['cut', 'cut', 'cut', 'cutn']), of=good)
        if r.random() < 0.5:
            s = b.suffix(True)
            src = b.docpath(s)
            b.plan['files'][src] = b.doc_spec(t, s)
            st = b.conv(src, undamaged=b.plan['files'][src], project_damaged=True)
        else:
            s = b.suffix()
            src = b.prj
            if r.random() < 0.6:
                b.plan['files'][b.docpath(s)] = dict(text='an earlier document')
            st = b.conv(src, s, undamaged=good, project_damaged=True)
    if r.random() < 0.2:
        b.decoys(3)
    return b.plan


GEN = dict(C01=c01, C02=c02, C03=c03, C04=c04, C05=c05, C06=c06, C07=c07, C08=c08, C09=c09, C10=c10, C11=c11, C12=c12, C13=c13, C18=c18)
