"""C06: all ways to open a document agree; type detection is by content."""
import io
import os

import docs
import odf
from core import Violation, check, raises, same, short
from odf import BODYTAG, MIME, Package, Q, TEMPLATE_OF, canon, unq

RULE = ('A case is a package (any type, regular or with missing mimetype member, manifest, root entry, styles or meta '
        'part, or with a mimetype member and a root entry that disagree, with leading bytes or an archive comment), a file name with any extension, stream '
        'positions and a list of later uses (edits, saves elsewhere, templates); non-trivial: all three opening routes '
        'or all three template routes were compared.')
ASSUME = ['file-like object means BytesIO (documented)',
          'packages with neither mimetype member nor root entry can only be opened by a name with the matching extension']
BUDGET = {'quick': 5600, 'thorough': 60000}
EXT = {v: k for k, v in MIME.items()}


def strategy(profile):
    from hypothesis import strategies as st
    import gen
    s = docs.strategies()
    doc = s.doc(sorted(MIME), True, 3)
    stem = st.sampled_from(['doc', 'a b', '\xe4\u4e2d', 'x.y', '.h', 'template', 'META-INF'])
    ext = st.sampled_from(sorted(MIME) + ['', 'zip', 'xml', 'ODT', 'bak', 'odt~', 'docx', 'fods'])
    return st.fixed_dictionaries({
        'doc': doc, 'stem': stem, 'ext': st.one_of(st.none(), st.none(), ext),
        'other': st.one_of(st.none(), st.none(), st.integers(0, 3)),
        'bad': gen.choice((12, st.none()), (1, st.sampled_from(['application/zip', 'text/plain', 'x', '',
                                                                 'application/vnd.oasis.opendocument.foo']))),
        'wrapping': st.sampled_from([None, None, None, None, '#!/bin/sh\n', 'MZ\0\0', '<?xml version="1.0"?><a/>', 'comment']),
        'pos': st.sampled_from([0, 0, 5, 'end']), 'arg': st.sampled_from(sorted(MIME) + ['zzz']),
        'rel': st.booleans(),
        'uses': st.lists(st.one_of(st.sampled_from(['edit', 'save', 'saveas_file', 'saveas_stream', 'bytes', 'reopen']),
                                   ), max_size=4)})


def stamp_free(meta, src_meta):
    """meta tree without what is created with the current time"""
    node = odf.etree.fromstring(odf.etree.tostring(meta))
    box = node.find(Q('office:meta'))
    if src_meta is None and box is not None:
        for name in ('meta:creation-date', 'dc:date', 'meta:generator'):
            for e in box.findall(Q(name)):
                e.text = None
    return canon(node)


def fingerprint(doc, src):
    body = doc.body.xmlnode
    out = [('doctype', doc.doctype), ('mimetype', doc.mimetype), ('body', type(doc.body).__name__),
           ('content', canon(doc.content.xmlnode)), ('styles', canon(doc.styles.xmlnode)),
           ('meta', stamp_free(doc.meta.xmlnode, src['meta'])),
           ('keywords', tuple(doc.meta.keywords)), ('usertags', tuple(doc.meta.usertags)),
           ('title', tuple(doc.meta[k] if body is not None and has(doc.meta, k) else None
                           for k in ('title', 'subject', 'creator', 'language', 'editing-cycles'))),
           ('sheets', tuple(doc.sheets.names()) if hasattr(doc, 'sheets') else None),
           ('pages', tuple(doc.pages.names()) if hasattr(doc, 'pages') else None)]
    return out


def has(meta, key):
    try:
        meta[key]
        return True
    except KeyError:
        return False


def member_view(blob, src):
    p = Package(blob)
    out = {}
    for n in p.names:
        if n == 'meta.xml':
            out[n] = stamp_free(p.xml(n), src['meta'])
        elif n in ('content.xml', 'styles.xml', 'META-INF/manifest.xml'):
            out[n] = canon(p.xml(n))
        else:
            out[n] = p.members[n]
    return out


def agree(views, what):
    first, ref = views[0]
    for name, view in views[1:]:
        for (k, a), (_, b) in zip(view, ref):
            if a != b:
                d = odf.first_difference(a, b) if k in ('content', 'styles', 'meta') else '%s vs %s' % (short(a), short(b))
                raise Violation('%s: %s differs between %s and %s: %s' % (what, k, name, first, d))


def run_case(case, ctx):
    import ezodf
    import ezodf.drawingpage  # registers the page class
    src = dict(case['doc'])
    f = dict(src['feature'])
    # mimetype member and manifest root entry may name different types with the same body
    own = src['type']
    if f.get('nomimetype') and f.get('norootentry') or f.get('nomimetype') and f.get('nomanifest'):
        rule = 'ext'
    elif f.get('nomimetype'):
        rule = 'manifest'
    else:
        rule = 'mimetype'
    mimetype, root = MIME[own], MIME[own]
    if case['other'] is not None and rule != 'ext':
        kin = sorted(t for t in MIME if BODYTAG[t] == BODYTAG[own] and t != own)
        if kin and rule == 'mimetype':
            root = MIME[kin[case['other'] % len(kin)]]
            ctx.note('member and root entry disagree')
    if case['bad'] is not None and rule != 'ext':
        mimetype = case['bad']
        if rule == 'manifest':
            root = case['bad']
    blob = enclose(rebuild(docs.package(dict(src, feature=f)), mimetype, root, rule), case.get('wrapping'))
    if case.get('wrapping'):
        ctx.note('archive with leading bytes or a comment')
    folder = os.path.join(ctx.tmpdir(), 'in')
    out = os.path.join(ctx.tmpdir(), 'out')
    os.mkdir(folder)
    os.mkdir(out)
    ext = own if rule == 'ext' or case['ext'] is None else case['ext']
    path = os.path.join(folder, case['stem'] + ('.' + ext if ext else ''))
    with open(path, 'wb') as fp:
        fp.write(blob)
    os.chdir(folder)
    name = os.path.basename(path) if case['rel'] else path

    def stream():
        s = io.BytesIO(blob)
        s.seek(len(blob) if case['pos'] == 'end' else case['pos'])
        return s

    streams = []

    def routes():
        s = stream()
        streams.append(s)
        return [('path', name), ('bytes', blob), ('file-like', s)]

    def source_intact(what):
        same(sorted(os.listdir(folder)), [os.path.basename(path)], '%s: files in the folder of the source' % what)
        with open(path, 'rb') as fp:
            check(fp.read() == blob, '%s altered the source file', what)
        for s in streams:
            check(not s.closed and s.getvalue() == blob, '%s altered the source stream', what)

    if case['bad'] is not None and rule != 'ext':
        for route, arg in routes():
            for what, func in (('opendoc', lambda: ezodf.opendoc(arg)),
                               ('newdoc', lambda: ezodf.newdoc(filename=os.path.join(out, 'n'), template=arg))):
                try:
                    doc = func()
                except Exception:
                    continue
                raise Violation('%s by %s accepted the type %r as %r' % (what, route, case['bad'], doc.mimetype))
        source_intact('a rejected open')
        same(os.listdir(out), [], 'files after a rejected open')
        ctx.note('rejected type')
        return
    ctx.note('type by ' + rule)

    expected = own
    opened, views = [], []
    for route, arg in routes():
        if rule == 'ext' and route != 'path':
            continue
        doc = ezodf.opendoc(arg)
        opened.append((route, doc))
        views.append((route, fingerprint(doc, src)))
        same(doc.doctype, expected, 'doctype of the document opened by ' + route)
        same(doc.mimetype, MIME[expected], 'mimetype of the document opened by ' + route)
        same(doc.body.xmlnode.tag, Q(BODYTAG[own]), 'body element')
        same(hasattr(doc, 'sheets'), own in docs.SHEETS, 'document has sheets')
        same(hasattr(doc, 'pages'), own in docs.PAGED, 'document has pages')
    agree(views, 'opening')
    source_intact('opening')
    exports = [(r, sorted(member_view(d.tobytes(), src).items())) for r, d in opened]
    agree(exports, 'export')
    # the content is the content of the package
    p = Package(blob)
    if 'content.xml' in p.members:
        docs.compare_content(p.xml('content.xml'), Package(opened[0][1].tobytes()).xml('content.xml'), own)
    ctx.nontrivial(len(views) == 3)
    # templates
    target = TEMPLATE_OF.get(expected, expected)
    views, made = [], []
    for route, arg in routes():
        if rule == 'ext' and route != 'path':
            continue
        new = os.path.join(out, 'new-%s' % route)
        doc = ezodf.newdoc(case['arg'], new, arg)
        same(doc.docname, new, 'name of the new document')
        same(doc.doctype, target, 'doctype of a document created from a template by ' + route)
        same(doc.mimetype, MIME[target], 'mimetype of a document created from a template by ' + route)
        same(type(doc).__name__, 'PackagedDocument', 'class of a new document')
        made.append((route, doc))
        views.append((route, fingerprint(doc, src)))
        ref = fingerprint(opened[0][1], src)
        for (k, a), (_, b) in zip(views[-1][1], ref):
            if k not in ('doctype', 'mimetype') and a != b:
                raise Violation('%s of the document created by %s is not that of the template' % (k, route))
    agree(views, 'creating from a template')
    source_intact('creating from a template')
    same(os.listdir(out), [], 'files created without saving')
    # without a name of its own there is nowhere to save a document made from a template
    if case['uses']:
        for route, arg in routes():
            if rule == 'ext' and route != 'path':
                continue
            doc = ezodf.newdoc(template=arg)
            check(not doc.docname, 'unnamed document created from a template by %s is called %r', route, doc.docname)
            same((doc.doctype, doc.mimetype), (target, MIME[target]), 'type of an unnamed document created by ' + route)
            doc.meta['title'] = 'edited'
            doc.backup = case['rel']
            raises(IOError, doc.save)
            same(ezodf.opendoc(doc.tobytes()).doctype, target, 'doctype of the export of an unnamed document')
            source_intact('saving an unnamed document made from the source')
    ctx.note('template' if target != expected else 'non-template as template')
    # later uses do not reach the source
    for n, use in enumerate(case['uses']):
        for kind, group in (('open', opened), ('new', made)):
            for route, doc in group:
                if use == 'edit':
                    doc.meta['title'] = 'edited'
                    doc.meta.keywords.add('k%d' % n)
                    doc.body.append(ezodf.Paragraph('new text'))
                elif use == 'save' and kind == 'new':
                    doc.save()
                    check(os.path.isfile(os.path.join(out, 'new-%s' % route)), 'no file was written')
                elif use == 'saveas_file':
                    doc.saveas(os.path.join(out, '%s-%s-%d' % (kind, route, n)))
                    made_name = os.path.join(out, '%s-%s-%d' % (kind, route, n))
                    want = target if kind == 'new' else expected
                    with open(made_name, 'rb') as fp:
                        odf.check_container(fp.read(), MIME[want])
                    same(ezodf.opendoc(made_name).doctype, want, 'doctype of the saved document')
                    if kind == 'new':
                        os.remove(made_name) if n % 2 else None
                        doc.saveas(os.path.join(out, 'new-%s' % route))
                elif use == 'saveas_stream':
                    s, keep = io.BytesIO(), doc.docname
                    doc.saveas(s)
                    doc.docname = keep
                    same(ezodf.opendoc(s).doctype, target if kind == 'new' else expected, 'doctype of the written stream')
                elif use == 'bytes':
                    same(ezodf.opendoc(doc.tobytes()).doctype, target if kind == 'new' else expected,
                         'doctype of the exported bytes')
        if use == 'reopen':
            again = ezodf.opendoc(name)
            agree([('second open', fingerprint(again, src)), ('first open', fingerprint(ezodf.opendoc(name), src))], 'reopening')
            same(again.doctype, expected, 'doctype of the second open')
        source_intact(use)


def enclose(blob, wrapping):
    """an archive can follow other bytes and have a comment"""
    import zipfile
    if wrapping == 'comment':
        buf = io.BytesIO(blob)
        with zipfile.ZipFile(buf, 'a') as z:
            z.comment = b'made by hand'
        return buf.getvalue()
    return (wrapping or '').encode('latin-1') + blob


def rebuild(blob, mimetype, root, rule):
    """exchange the type texts of a package"""
    import zipfile
    p = zipfile.ZipFile(io.BytesIO(blob))
    buf = io.BytesIO()
    with zipfile.ZipFile(buf, 'w') as z:
        for zi in p.infolist():
            data = p.read(zi)
            if zi.filename == 'mimetype':
                data = mimetype.encode('utf-8')
            elif zi.filename == 'META-INF/manifest.xml':
                tree = odf.etree.fromstring(data)
                for e in tree:
                    if isinstance(e.tag, str) and e.get(Q('manifest:full-path')) == '/':
                        e.set(Q('manifest:media-type'), root)
                data = odf.etree.tostring(tree, encoding='UTF-8', xml_declaration=True)
            z.writestr(zi, data)
    return buf.getvalue()
