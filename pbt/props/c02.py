"""C02: every package written is a valid ODF container."""
import io
import os
import zipfile

import docs
import odf
from core import Violation, check, same
from odf import Package, Q, check_container

RULE = ('A case is a document type, a creation route (new, from a template, opened from a package with legal oddities '
        'or defects the library tolerates) and a chain of edits and writes by all routes; non-trivial: at least two '
        'packages were written and the document came from a generated package or was edited.')
ASSUME = ['source packages have unique member names and well-formed parts',
          'packages without any type information are opened by file name with a matching extension',
          'formula documents are a known finding']
BUDGET = {'quick': 10800, 'thorough': 90000}
TYPES = sorted(odf.MIME)


def strategy(profile):
    from hypothesis import strategies as st
    import gen
    s = docs.strategies()
    write = gen.op('write', st.sampled_from(['save', 'saveas', 'sameas', 'bytes', 'stream', 'export']))
    edit = gen.choice((2, gen.op('title', gen.word(4))), (2, gen.op('content', gen.word(4))),
                      (1, gen.op('style', st.just('s1'))), (2, gen.op('register', st.sampled_from(
                          ['Pictures/a.png', 'settings.xml', 'x.xml', 'Pictures/1.png', 'Object 1/content.xml']), gen.word(5))),
                      (1, gen.op('nobackup')))
    step = gen.choice((5, write), (3, edit), (1, gen.op('reopen', st.sampled_from(['path', 'bytes', 'stream']))))
    new = st.fixed_dictionaries({'how': st.just('new'), 'type': st.sampled_from(TYPES)})
    route = st.sampled_from(['path', 'path', 'bytes', 'stream'])
    part = st.sampled_from(PARTS)
    tamper = st.lists(gen.choice((2, gen.op('drop', gen.choice((3, part), (2, st.sampled_from(
        ['mimetype', 'META-INF/manifest.xml', 'other']))))), (2, gen.op('entry', gen.choice((3, part), (1, st.just('/'))))),
        (1, gen.op('mime', st.sampled_from(TYPES))), (1, gen.op('root', st.sampled_from(TYPES))),
        (1, gen.op('late', st.integers(0, 3))), (1, gen.op('packed')), (1, gen.op('cut', st.integers(1, 60))),
        (1, gen.op('reorder', st.integers(0, 5)))), max_size=2)
    opened = st.fixed_dictionaries({'how': st.sampled_from(['open', 'open', 'template']),
                                    'doc': s.doc(TYPES, True, 2), 'route': route})
    return st.fixed_dictionaries({'src': gen.choice((1, new), (3, opened)),
                                  'name': st.sampled_from(['a.', 'sub/b c.', '\xe4\u4e2d.', 'noext', 'x.zip', 'x.odt.']),
                                  'tamper': tamper,
                                  'steps': st.lists(step, min_size=1, max_size=7 if profile['big'] else 5)})


PARTS = ['content.xml', 'styles.xml', 'meta.xml']


def tampered(blob, ops, mime):
    """(package, is it still one with the least necessary content of the given type)"""
    p = Package(blob)
    members = [(i.filename, p.members[i.filename], i.compress_type) for i in p.infos]
    tree, cut = odf.etree.fromstring(p.members['META-INF/manifest.xml']), 0
    for op in ops:
        k = op[0]
        if k == 'drop':
            names = [n for n, _, _ in members if n not in PARTS + ['mimetype', 'META-INF/manifest.xml']][:1]
            members = [m for m in members if m[0] not in (names if op[1] == 'other' else [op[1]])]
        elif k in ('entry', 'root'):
            for e in list(tree):
                if e.get(Q('manifest:full-path')) == ('/' if k == 'root' else op[1]):
                    if k == 'root':
                        e.set(Q('manifest:media-type'), odf.MIME[op[1]])
                    else:
                        tree.remove(e)
        elif k == 'mime':
            members = [(n, odf.MIME[op[1]].encode('ascii') if n == 'mimetype' else d, how) for n, d, how in members]
        elif k == 'packed':
            members = [(n, d, zipfile.ZIP_DEFLATED if n == 'mimetype' else how) for n, d, how in members]
        elif k == 'late':
            members = members[1:2 + op[1]] + members[:1] + members[2 + op[1]:]
        elif k == 'reorder':
            members = members[:1] + members[1 + op[1]:] + members[1:1 + op[1]]
        elif k == 'cut':
            cut = op[1]
    members = [(n, odf.etree.tostring(tree) if n == 'META-INF/manifest.xml' else d, how) for n, d, how in members]
    out = io.BytesIO()
    with zipfile.ZipFile(out, 'w') as z:
        for n, data, how in members:
            info = zipfile.ZipInfo(n)
            info.compress_type = how
            z.writestr(info, data)
    data = out.getvalue()
    names = [m[0] for m in members]
    entries = dict((e.get(Q('manifest:full-path')), e.get(Q('manifest:media-type'))) for e in tree)
    # the mimetype member has to begin with the type (that it is longer is not required to be noticed)
    ok = (not cut and names[0] == 'mimetype' and members[0][1].startswith(mime.encode('ascii')) and
          members[0][2] == zipfile.ZIP_STORED and 'META-INF/manifest.xml' in names and
          all(n in names and n in entries for n in PARTS) and entries.get('/') == mime)
    exact = not names or names[0] != 'mimetype' or members[0][1] == mime.encode('ascii')
    return data[:len(data) - cut] if cut else data, ok if exact or not ok else None


def oasis(path, mime):
    from ezodf.filemanager import check_zipfile_for_oasis_validity as valid
    return valid(path, mime.encode('ascii'))


def plain_type(t):
    return odf.TEMPLATE_OF.get(t, t)


def verify(blob, mime, known_entries, bodytag, what):
    p = check_container(blob, mime)
    entries = p.manifest()
    paths = [e[0] for e in entries]
    for name in ('/', 'content.xml', 'styles.xml', 'meta.xml'):
        if paths.count(name) != 1:
            raise Violation('%s: the manifest has %d entries for %r' % (what, paths.count(name), name))
    root = dict(entries)['/']
    if root != mime:
        raise Violation('%s: the manifest root entry has media type %r instead of %r' % (what, root, mime))
    for name in ('content.xml', 'styles.xml', 'meta.xml'):
        same(dict(entries)[name], 'text/xml', '%s: media type of %s in the manifest' % (what, name))
    for path, media in entries:
        if path is None:
            raise Violation('%s: manifest entry without path' % what)
        if path == '/' or path in p.members or path in known_entries:
            continue
        if path.endswith('/') and any(n.startswith(path) for n in p.members):
            continue
        raise Violation('%s: the manifest names %r which is not in the package' % (what, path))
    body = p.xml('content.xml').find(Q('office:body'))
    if body is None or body.find(Q(bodytag)) is None:
        raise Violation('%s: content.xml has no %s' % (what, bodytag))
    return p


def run_case(case, ctx):
    import ezodf
    src, folder = case['src'], ctx.tmpdir()
    known = set()
    os.makedirs(os.path.join(folder, 'sub'))
    target = case['name'] + (src.get('type') or src['doc']['type']) if case['name'].endswith('.') else case['name']
    target = os.path.join(folder, target)
    if src['how'] == 'new':
        t = src['type']
        doc = ezodf.newdoc(t, target)
        path = target
        sourcepath = None
    else:
        d = src['doc']
        t = d['type']
        blob = docs.package(d)
        f = d['feature']
        route = src['route']
        if f.get('nomimetype') and (f.get('nomanifest') or f.get('norootentry')):
            route = 'path'
        if d['styles'] is None or d['meta'] is None or f:
            ctx.note('odd source')
        sp = Package(blob)
        if 'META-INF/manifest.xml' in sp.members:
            known = set(p for p, _ in sp.manifest())
        sourcepath = os.path.join(folder, 'source.' + t)
        with open(sourcepath, 'wb') as fp:
            fp.write(blob)
        arg = sourcepath if route == 'path' else blob if route == 'bytes' else io.BytesIO(blob)
        if src['how'] == 'template':
            t = plain_type(t)
            doc = ezodf.newdoc(filename=target, template=arg)
            path = target
        else:
            doc = ezodf.opendoc(arg)
            path = sourcepath if route == 'path' else None
    ctx.note('%s %s' % (src['how'], t))
    mime = odf.MIME[t]
    same(doc.doctype, t, 'doctype')
    same(doc.mimetype, mime, 'mimetype')
    body = odf.BODYTAG[t]
    verify(doc.tobytes(), mime, known, body, 'bytes of the fresh document')
    writes, edits, n = 1, 0, 0
    registered = {}
    for step in case['steps']:
        ctx.step()
        k = step[0]
        if k == 'title':
            doc.meta['title'] = step[1]
            edits += 1
        elif k == 'content':
            edits += 1
            if hasattr(doc, 'sheets'):
                doc.sheets.append(ezodf.Sheet('n%d' % n, size=(1, 2)))
            elif t in docs.TEXTUAL:
                doc.body.append(ezodf.Paragraph(step[1]))
            n += 1
        elif k == 'style':
            doc.inject_style('<style:style style:name="%s"/>' % step[1])
            edits += 1
        elif k == 'register':
            doc.filemanager.register(step[1], step[2], 'text/xml' if step[1].endswith('.xml') and
                                     step[1] != 'settings.xml' else '')
            registered[step[1]] = step[2].encode('utf-8')
            edits += 1
        elif k == 'nobackup':
            doc.backup = False
        elif k == 'reopen':
            blob = doc.tobytes()
            path = os.path.join(folder, 'reopened')
            with open(path, 'wb') as fp:
                fp.write(blob)
            known.update(p for p, _ in Package(blob).manifest())
            doc = ezodf.opendoc(path if step[1] == 'path' else blob if step[1] == 'bytes' else io.BytesIO(blob))
            if step[1] != 'path':
                path = None
            same(doc.doctype, t, 'doctype after reopening')
            same(doc.mimetype, mime, 'mimetype after reopening')
        else:
            how = step[1]
            if how in ('bytes', 'export'):
                blob = doc.tobytes()
            elif how == 'stream':
                stream, name = io.BytesIO(), doc.docname
                doc.saveas(stream)
                doc.docname = name
                blob = stream.getvalue()
            else:
                if how == 'save' and path is not None:
                    doc.save()
                elif how == 'sameas' and path is not None:
                    doc.saveas(path)
                else:
                    path = target if how == 'saveas' else os.path.join(folder, 'other-%d' % n)
                    doc.saveas(path)
                with open(path, 'rb') as fp:
                    blob = fp.read()
                check(oasis(path, mime), 'the validity check refuses the package written by %s' % how)
                wrong = odf.MIME[TYPES[(TYPES.index(t) + 1 + n) % len(TYPES)]]
                check(wrong == mime or not oasis(path, wrong), 'the validity check takes the package for a %s' % wrong)
            writes += 1
            p = verify(blob, mime, known, body, 'package written by %s' % how)
            for name, data in registered.items():
                same(p.members.get(name), data, 'registered member %r' % name)
            ctx.note('write ' + how)
    if case.get('tamper'):
        path = os.path.join(folder, 'tampered')
        data, ok = tampered(doc.tobytes(), case['tamper'], mime)
        with open(path, 'wb') as fp:
            fp.write(data)
        got = bool(oasis(path, mime))
        same(got, got if ok is None else ok, 'validity check of the written package after %s' % case['tamper'])
        ctx.note('tampered: %s' % ('accepted' if got else 'refused'))
    ctx.nontrivial(writes >= 2 and (edits or src['how'] != 'new'))
