"""C05: backup files and the file-system footprint of a save."""
import io
import os

import docs
import odf
from core import Violation, check, same, short
from odf import Package

RULE = ('A case is a directory tree, one to three documents (new, opened by path, bytes or stream, flat, from a '
        'template) and a history of edits, saves under absolute and relative names, exports, reads and foreign changes '
        'of files; non-trivial: at least two saves, one of them over an existing file.')
ASSUME = ['documents opened from bytes or file-like objects make no backups (documented)',
          'a backup name that is itself the target of another save is an ordinary file name']
BUDGET = {'quick': 4200, 'thorough': 70000}
# files other programs keep beside a document
BESIDE = ['{0}.tmp', '{0}~', '{0}.new', '{0}.old', '{0}.part', '{0}.bak.bak', '.~lock.{0}#', '~{0}', '{0}.lock', '{0}.1', '{1}.tmp', '{1}.bak', '{1}.new', '{1}.zip', 'tmp{0}']
NAMES = ['a.odt', 'b', 'sub/c.odt', 'x.y.z.ods', 'd\xe4 \u4e2d.odt', 'a.odt.bak', 'sub/.hidden', 'x.tmp', 'b.bak', 'a']


def strategy(profile):
    from hypothesis import strategies as st
    import gen
    s = docs.strategies()
    doc = s.doc(['odt', 'ods'], False, 2).map(lambda d: dict(d, feature={}, extra=d['extra'][:2]))
    name = st.sampled_from(NAMES)
    src = st.fixed_dictionaries({'kind': st.sampled_from(['path', 'path', 'new', 'new', 'bytes', 'stream', 'flat', 'template']),
                                 'doc': doc, 'name': name, 'backup': st.sampled_from([True, True, True, False])})
    w = st.integers(0, 5)
    op = gen.choice((5, gen.op('save', w)), (5, gen.op('saveas', w, name, st.sampled_from(['abs', 'abs', 'rel', 'dot', 'subrel']))),
                    (2, gen.op('edit', w, gen.word(4))), (1, gen.op('bytes', w)), (1, gen.op('stream', w)),
                    (1, gen.op('read', name)), (1, gen.op('foreign', name, gen.word(6))), (1, gen.op('remove', name)),
                    (1, gen.op('backup', w, st.booleans())), (2, gen.op('old', w, st.sampled_from(['remove', 'foreign', 'other']))), (1, gen.op('new_from', name)), (1, gen.op('look', w)))
    return st.fixed_dictionaries({
        'beside': st.lists(st.sampled_from(BESIDE), max_size=3, unique=True),
        'files': st.lists(st.tuples(name, st.one_of(gen.word(6), gen.word(6), st.just(''))).map(list), max_size=4, unique_by=lambda f: f[0]),
        'docs': st.lists(src, min_size=1, max_size=3),
        'ops': st.lists(op, min_size=2, max_size=16 if profile['big'] else 9)})


def flat_bytes(d):
    data = docs.content_node(d)
    return odf.serialise(odf.E('office:document', {'office:mimetype': odf.MIME[d['type']], 'office:version': '1.2'},
                               None, [odf.E('office:meta', {}, None, d['meta'] or [])] + data[3]))


def snapshot(folder):
    out = {}
    for base, dirs, files in os.walk(folder):
        for n in dirs:
            out[os.path.relpath(os.path.join(base, n), folder) + '/'] = None
        for n in files:
            p = os.path.join(base, n)
            with open(p, 'rb') as f:
                out[os.path.relpath(p, folder)] = f.read()
    return out


class Doc(object):
    def __init__(self, doc, path, makes_backups, flat, mark):
        self.doc, self.path, self.makes, self.flat, self.mark = doc, path, makes_backups, flat, mark
        self.source = None     # the file its package is read from
        self.sources = []      # all of them
        self.extra = {}        # members that ezodf just copies
        self.tainted = False   # the package was replaced behind its back


REGISTERED = ('mimetype', 'content.xml', 'styles.xml', 'meta.xml', 'META-INF/manifest.xml')


def extra_members(blob):
    return dict((k, v) for k, v in Package(blob).members.items() if k not in REGISTERED)


def run_case(case, ctx):
    import ezodf
    top = os.path.realpath(ctx.tmpdir())
    folder = os.path.join(top, 'work')
    os.makedirs(os.path.join(folder, 'sub'))
    os.makedirs(os.path.join(top, 'elsewhere'))
    os.chdir(os.path.join(folder, 'sub'))
    for name, text in case['files']:
        with open(os.path.join(folder, name), 'wb') as f:
            f.write(text.encode('utf-8'))
    for name in NAMES + ['own%d.%s' % (i, e) for i in range(3) for e in ('odt', 'ods', 'xml')]:
        for pattern in case.get('beside', ()):
            sub, base = os.path.split(name)
            other = os.path.join(sub, pattern.format(base, os.path.splitext(base)[0]))
            if other not in NAMES and other[:-4] not in NAMES:
                with open(os.path.join(folder, other), 'wb') as f:
                    f.write(b'not yours')
    live = []
    for n, src in enumerate(case['docs']):
        d, kind = src['doc'], src['kind']
        own = os.path.join(folder, 'own%d.%s' % (n, 'xml' if kind == 'flat' else d['type']))
        blob = flat_bytes(d) if kind == 'flat' else docs.package(d)
        if kind not in ('new', 'bytes', 'stream'):
            with open(own, 'wb') as f:
                f.write(blob)
        before = snapshot(top)
        path = own
        if kind == 'new':
            path = os.path.join(folder, src['name'])
            doc = ezodf.newdoc(d['type'], path)
        elif kind == 'template':
            path = os.path.join(folder, src['name'])
            doc = ezodf.newdoc(filename=path, template=own)
        elif kind in ('bytes', 'stream'):
            path = None
            doc = ezodf.opendoc(blob if kind == 'bytes' else io.BytesIO(blob))
        else:
            doc = ezodf.opendoc(own)
        diff(before, snapshot(top), {}, 'creating or opening a document')
        if not src['backup']:
            doc.backup = False
        x = Doc(doc, path, kind not in ('bytes', 'stream'), kind == 'flat', 'mark%d' % n)
        live.append(x)
        if kind in ('path', 'template'):
            x.source = own
            x.sources.append(own)
        if kind not in ('flat', 'new'):
            x.extra = extra_members(blob)
        ctx.note('doc ' + kind)
    saves = over = 0
    for n, op in enumerate(case['ops']):
        ctx.step()
        k = op[0]
        before = snapshot(top)
        if k in ('save', 'saveas'):
            x = live[op[1] % len(live)]
            x.doc.meta['title'] = x.mark = 'mark-%d' % n
            if k == 'save':
                if x.path is None:
                    continue
                path = x.path
                x.doc.save()
            else:
                path = os.path.join(folder, op[2])
                style = op[3]
                if style == 'abs':
                    x.doc.saveas(path)
                elif style == 'subrel' and op[2].startswith('sub/'):
                    x.doc.saveas(op[2][4:])
                else:
                    x.doc.saveas(os.path.relpath(path, os.getcwd()) if style == 'rel' else './../' + op[2])
                x.path = path
            after = snapshot(top)
            rel = os.path.relpath(path, top)
            expected = {rel: Ellipsis}
            if before.get(rel) is not None:
                over += 1
                if x.doc.backup and x.makes:
                    expected[rel + '.bak'] = before[rel]
                    ctx.note('backup made')
            diff(before, after, expected, '%s of document %d (%s)' % (k, op[1] % len(live), rel))
            blob = after[rel]
            if x.flat:
                title = odf.etree.fromstring(blob).find('{%s}meta' % odf.NS['office']).find('{%s}title' % odf.NS['dc'])
            else:
                title = Package(blob).xml('meta.xml').find('{%s}meta' % odf.NS['office']).find('{%s}title' % odf.NS['dc'])
            same(title is not None and title.text, x.mark, 'title in the written file')
            if not x.flat:
                if not x.tainted:
                    same(extra_members(blob), x.extra, 'copied members of the written package')
                if x.makes:
                    x.extra, x.tainted = extra_members(blob), False
                    x.source = path
                    x.sources.append(path)
            for y in live:
                if y is not x and y.source and y.source in (path, path + '.bak') and after[os.path.relpath(y.source, top)] != before.get(os.path.relpath(y.source, top)):
                    y.tainted = True
            saves += 1
            ctx.note(k)
            continue
        if k == 'edit':
            doc = live[op[1] % len(live)].doc
            doc.meta['subject'] = op[2]
            if hasattr(doc, 'sheets'):
                doc.sheets.append(ezodf.Sheet('s%d' % n, size=(1, 1)))
            else:
                doc.body.append(ezodf.Paragraph(op[2]))
        elif k == 'bytes':
            live[op[1] % len(live)].doc.tobytes()
        elif k == 'stream':
            x = live[op[1] % len(live)]
            if x.flat:
                continue
            name = x.doc.docname
            stream = io.BytesIO()
            x.doc.saveas(stream)
            x.doc.docname = name
            check(len(stream.getvalue()) > 100, 'nothing written to the stream')
        elif k in ('read', 'new_from'):
            path = os.path.join(folder, op[1])
            if not os.path.exists(path):
                continue
            try:
                if k == 'read':
                    doc = ezodf.opendoc(path)
                    doc.tobytes()
                else:
                    doc = ezodf.newdoc(filename=os.path.join(folder, 'never.odt'), template=path)
                    doc.tobytes()
                list(doc.body.xmlnode)
                doc.meta['title'] = 'not saved'
            except Exception:
                ctx.note('unreadable file')
        elif k == 'look':
            doc = live[op[1] % len(live)].doc
            [b.kind for b in doc.body]
            list(doc.meta.usertags)
        elif k == 'backup':
            live[op[1] % len(live)].doc.backup = op[2]
        elif k in ('foreign', 'remove'):
            path = os.path.join(folder, op[1])
            # the package a document was read from must stay available for copying its members
            if any(x.path == path or x.source == path for x in live if not x.flat):
                continue
            if k == 'foreign':
                with open(path, 'wb') as f:
                    f.write(op[2].encode('utf-8'))
            elif os.path.exists(path):
                os.remove(path)
            before = snapshot(top)
        elif k == 'old':      # files a document was read from or saved as in former times
            x = live[op[1] % len(live)]
            for path in x.sources:
                if any(path in (y.source, y.path) for y in live):
                    continue
                ctx.note('old file: ' + op[2])
                if op[2] == 'remove':
                    if os.path.exists(path):
                        os.remove(path)
                else:
                    with open(path, 'wb') as f:
                        f.write(b'foreign' if op[2] == 'foreign' else docs.package(case['docs'][0]['doc']))
            before = snapshot(top)
        diff(before, snapshot(top), {}, k)
    ctx.nontrivial(saves >= 2 and over >= 1)


def diff(before, after, expected, what):
    """after differs from before exactly by the expected files"""
    for name in sorted(set(before) | set(after) | set(expected)):
        want = expected.get(name, before.get(name, None) if name in before else False)
        if name in expected:
            if name not in after:
                raise Violation('%s: file %r is missing' % (what, name))
            if want is not Ellipsis and after[name] != want:
                raise Violation('%s: %r contains %s instead of %s' % (what, name, short(after[name], 60), short(want, 60)))
            continue
        if name not in after:
            raise Violation('%s: file %r vanished' % (what, name))
        if name not in before:
            raise Violation('%s: file %r was created' % (what, name))
        if after[name] != before[name]:
            raise Violation('%s: file %r was changed' % (what, name))
