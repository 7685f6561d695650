"""C07: flat XML documents open, edit and save without loss."""
import copy
import os

import docs
import odf
from core import Violation, check, same, short
from odf import BODYTAG, E, MIME, NS, Q, build, canon, etree, unq

RULE = ('A case is a single-file XML document of any type (any subset and order of the top-level containers, foreign '
        'elements, comments, several encodings) with a list of edits and saves, or an input that must be rejected; '
        'non-trivial: at least two edits and a save.')
ASSUME = ['comments and processing instructions outside the root element are not part of the document tree',
          'flat documents are opened by file name (documented)']
BUDGET = {'quick': 7800, 'thorough': 70000}
TOP = ['office:meta', 'office:settings', 'office:scripts', 'office:font-face-decls', 'office:styles',
       'office:automatic-styles', 'office:master-styles', 'office:body']


def strategy(profile):
    from hypothesis import strategies as st
    import gen
    s = docs.strategies()
    types = sorted(MIME)
    top = lambda t: st.fixed_dictionaries({
        'type': st.just(t), 'body': s.body(t), 'bodyattrs': st.sampled_from([{}, {'x:a': '1'}]),
        'meta': st.one_of(s.meta, s.meta, st.none()), 'groups': s.styles,
        'settings': st.one_of(st.none(), st.lists(s.para.map(lambda e: e[:4] + [None]), max_size=2)),
        'scripts': st.one_of(st.none(), st.just([])), 'foreign': st.booleans(), 'comment': st.booleans(),
        'ws': st.booleans(), 'embed': st.sampled_from([None, None, None, None, 'master', 'foreign', 'settings', 'body']), 'shuffle': st.integers(0, 5),
        'attrs': st.sampled_from([{'office:version': '1.2'}, {}, {'office:version': '1.1', 'x:q': 'r'}]),
        'encoding': st.sampled_from(['utf-8', 'utf-8', 'utf-16', 'latin', 'nodecl', 'bom', 'doctype', 'entity']),
        'name': st.sampled_from(['a.fodt', 'b.xml', 'c', 'd.ods', '\xe4.fods', 'x.zip'])})
    i = st.integers(0, 5)
    edit = gen.choice(
        (3, gen.op('append', gen.word(5))), (2, gen.op('meta', st.sampled_from(['title', 'subject', 'creator', 'language']), gen.word(5))),
        (2, gen.op('keyword', gen.word(4))), (2, gen.op('usertag', gen.word(4), gen.word(4))),
        (2, gen.op('style', st.sampled_from(['Z1', 'Z2', 'Z3']))), (2, gen.op('ptext', i, gen.word(4))),
        (1, gen.op('remove', i)), (1, gen.op('count', st.sampled_from(['page', 'cell', 'word']), st.integers(0, 9))),
        (4, gen.op('save')), (2, gen.op('saveas', st.sampled_from(['n1', 'n2', 'a.fodt']))), (1, gen.op('reopen')))
    good = st.sampled_from(types).flatmap(top)
    bad = gen.choice((2, st.binary(max_size=60).map(lambda b: ['bytes', b.decode('latin-1')])),
                     (1, st.sampled_from(['', '<a', '<a></b>', 'PK\x03\x04', '<?xml version="1.0"?>', 'just text', '<a/><b/>',
                                          '\x00', '<a>&undefined;</a>']).map(lambda b: ['bytes', b])),
                     (2, st.sampled_from(['office:document-content', 'office:body', 'x:document', 'document', 'office:text',
                                          'office:document-meta', 'text:document']).map(lambda r: ['root', r])),
                     (2, st.sampled_from(['', 'text/xml', 'application/vnd.oasis.opendocument.texts', 'odt', None,
                                          'application/vnd.oasis.opendocument', 'Application/vnd.oasis.opendocument.text']).map(
                                              lambda r: ['mimetype', r])),
                     (1, st.integers(1, 60).map(lambda n: ['cut', n])), (1, st.just(['missing'])), (1, st.just(['folder'])),
                     (1, st.integers(1, 60).map(lambda n: ['cutzip', n])))
    return gen.choice(
        (9, st.fixed_dictionaries({'doc': good, 'ops': st.lists(edit, min_size=2, max_size=14 if profile['big'] else 8)})),
        (1, st.fixed_dictionaries({'doc': good, 'ops': st.just([]), 'reject': bad})))


EMBEDDED = E('office:document', {'office:mimetype': MIME['odt']}, None, [
    E('office:meta', {}, None, [E('dc:title', {}, 'inner'), E('meta:keyword', {}, 'inner'),
                                E('meta:user-defined', {'meta:name': 'inner'}, 'inner')]),
    E('office:settings'), E('office:font-face-decls'), E('office:styles', {}, None, [E('style:style', {'style:name': 'inner'})]),
    E('office:automatic-styles'), E('office:master-styles'),
    E('office:body', {}, None, [E('office:text', {}, None, [E('text:p', {}, 'inner')])])])


def flat_node(d):
    kids = []
    if d['meta'] is not None:
        kids.append(E('office:meta', {}, None, d['meta']))
    if d['settings'] is not None:
        kids.append(E('office:settings', {}, None, d['settings']))
    if d['scripts'] is not None:
        kids.append(E('office:scripts'))
    kids += d['groups']
    if d['foreign']:
        kids.append(E('x:top', {'x:a': '1'}, 'foreign', [E('x:in')]))
    if d['comment']:
        kids.insert(len(kids) // 2, ['#comment', {}, ' top ', [], None])
    body = [E(BODYTAG[d['type']], d['bodyattrs'], None, d['body'])]
    if d['comment']:
        body.insert(0, ['#comment', {}, 'in front of the body', [], None])
    kids.append(E('office:body', {}, None, body))
    if d.get('embed'):
        inner = E('draw:object', {'draw:name': 'embedded'}, None, [EMBEDDED])
        if d['embed'] == 'master':
            kids.insert(0, E('office:master-styles', {}, None, [E('style:master-page', {'style:name': 'em'}, None, [inner])]))
            if any(k[0] == 'office:master-styles' for k in kids[1:]):
                kids.pop(0)
                box = [n for n, k in enumerate(kids) if k[0] == 'office:master-styles'][0]
                kids[box] = kids[box][:3] + [[E('style:master-page', {'style:name': 'em'}, None, [inner])] + list(kids[box][3])] + kids[box][4:]
        elif d['embed'] == 'settings':
            kids = [k for k in kids if k[0] != 'office:settings']
            kids.insert(0, E('office:settings', {}, None, [inner]))
        elif d['embed'] == 'foreign':
            kids.insert(0, E('x:first', {}, None, [EMBEDDED]))
        else:
            for k in kids:
                if k[0] == 'office:body':
                    k[3].insert(0, E('x:first', {}, None, [EMBEDDED]))
    if d['shuffle'] == 5:
        kids = kids[::-1]
    if d['ws']:
        kids = [k[:4] + ['\n '] for k in kids]
    return E('office:document', dict(d['attrs'], **{'office:mimetype': MIME[d['type']]}), None, kids)


def listing(folder):
    out = {}
    for n in os.listdir(folder):
        p = os.path.join(folder, n)
        if os.path.isfile(p):
            with open(p, 'rb') as f:
                out[n] = f.read()
        else:
            out[n] = None
    return out


def reject(case, ctx, folder):
    import ezodf
    kind = case['reject'][0]
    d = case['doc']
    data = flat_node(d)
    path = os.path.join(folder, d['name'])
    if kind == 'bytes':
        blob = case['reject'][1].encode('latin-1')
        try:
            root = etree.fromstring(blob)
            if root.tag == Q('office:document'):
                return
        except (etree.XMLSyntaxError, ValueError):
            pass
    elif kind == 'root':
        data[0] = case['reject'][1]
        blob = odf.serialise(data)
    elif kind == 'mimetype':
        data[1].pop('office:mimetype')
        if case['reject'][1] is not None:
            data[1]['office:mimetype'] = case['reject'][1]
        blob = odf.serialise(data)
    elif kind == 'cut':
        blob = odf.serialise(data)
        blob = blob[:-min(case['reject'][1], len(blob))]
    elif kind == 'cutzip':
        blob = docs.package({'type': 'odt', 'body': [], 'before': [], 'styles': [], 'meta': [], 'extra': [], 'manifest': []})
        blob = blob[:-min(case['reject'][1] + 22, len(blob))]
    if kind == 'folder':
        os.mkdir(path)
    elif kind != 'missing':
        with open(path, 'wb') as f:
            f.write(blob)
    before = listing(folder)
    for what, func in (('opendoc', lambda: ezodf.opendoc(path)),
                       ('newdoc', lambda: ezodf.newdoc('odt', os.path.join(folder, 'new'), path))):
        try:
            doc = func()
        except Exception as e:
            ctx.note('%s rejected by %s' % (kind, type(e).__name__))
        else:
            raise Violation('%s accepted %s as %s' % (what, case['reject'], doc.mimetype))
        if listing(folder) != before:
            raise Violation('a rejected %s changed the file system' % what)


def run_case(case, ctx):
    import ezodf
    import ezodf.drawingpage  # registers the page class
    folder = os.path.join(ctx.tmpdir(), 'd')
    os.mkdir(folder)
    if case.get('reject'):
        return reject(case, ctx, folder)
    d = case['doc']
    t = d['type']
    data = flat_node(d)
    blob = docs.encode(data, d['encoding'])
    path = os.path.join(folder, d['name'])
    with open(path, 'wb') as f:
        f.write(blob)
    model = etree.fromstring(blob)        # independent copy which gets the same edits
    created = [n for n in TOP if model.find(Q(n)) is None]
    box = model.find(Q('office:meta'))
    absent = [n for n in ('meta:generator', 'dc:date', 'meta:editing-cycles') + (('meta:creation-date',) if box is None else ()) if box is None or box.find(Q(n)) is None]
    doc = ezodf.opendoc(path)
    ctx.note('type ' + t)

    def look(doc, what):
        same(type(doc).__name__, 'FlatXMLDocument', what + ': class')
        same(doc.mimetype, MIME[t], what + ': mimetype')
        same(doc.doctype, t, what + ': doctype')
        same(doc.body.xmlnode.tag, Q(BODYTAG[t]), what + ': body element')
        app = model.find(Q('office:body')).find(Q(BODYTAG[t]))
        if t in docs.SHEETS:
            same(list(doc.sheets.names()), [e.get(Q('table:name')) for e in app.findall(Q('table:table'))], what + ': sheets')
        if t in docs.PAGED:
            same(list(doc.pages.names()), [e.get(Q('draw:name')) for e in app.findall(Q('draw:page'))], what + ': pages')
        same(hasattr(doc, 'sheets'), t in docs.SHEETS, what + ': has sheets')
        same(hasattr(doc, 'pages'), t in docs.PAGED, what + ': has pages')
        meta = model.find(Q('office:meta'))
        if meta is not None:
            same(list(doc.meta.keywords), [e.text for e in meta.findall(Q('meta:keyword'))], what + ': keywords')
            same(list(doc.meta.usertags), [(e.get(Q('meta:name')), e.text) for e in meta.findall(Q('meta:user-defined'))],
                 what + ': user tags')
            for key, tag in (('title', 'dc:title'), ('subject', 'dc:subject'), ('creator', 'dc:creator'),
                             ('language', 'dc:language'), ('description', 'dc:description')):
                e = meta.find(Q(tag))
                try:
                    got = (doc.meta[key],)
                except KeyError:
                    got = ()
                same(got, () if e is None else (e.text,), what + ': meta tag ' + key)

    def compare(blob, what):
        try:
            out = etree.fromstring(blob)
        except etree.XMLSyntaxError as e:
            raise Violation('%s: not well-formed: %s' % (what, e))
        src = copy.deepcopy(model)
        same(unq(out.tag), 'office:document', what + ': root element')
        docs.drop_added(src, out, [n for n in TOP if n not in ('office:meta', 'office:body')], what)
        sm, om = src.find(Q('office:meta')), out.find(Q('office:meta'))
        check(len(out.findall(Q('office:meta'))) <= 1 or len(src.findall(Q('office:meta'))) > 1, '%s: meta data doubled', what)
        check(om is not None, '%s: no meta data', what)
        if sm is None:
            for e in list(om):
                if unq(e.tag) in ('meta:creation-date', 'dc:date', 'meta:generator', 'meta:editing-cycles') or \
                        unq(e.tag) == 'meta:document-statistic' and docs.is_empty(e):
                    docs.detach(e)
            check(docs.is_empty(om), '%s: created meta data: %s', what, [unq(e.tag) for e in om])
            docs.detach(om)
            if src.get(Q('grddl:transformation')) is None:
                out.attrib.pop(Q('grddl:transformation'), None)
        else:
            docs.drop_added(sm, om, ['meta:document-statistic'], what)
            for name in absent:       # added by the library, at any place
                for e in (sm.find(Q(name)), om.find(Q(name))):
                    if e is not None:
                        docs.detach(e)
            docs.neutral_meta(om, sm)
            docs.neutral_meta(sm, sm)
        tag = Q(BODYTAG[t])
        docs.drop_added(src.find(Q('office:body')).find(tag), out.find(Q('office:body')).find(tag),
                        ['text:variable-decls', 'text:user-field-decls'], what)
        for name in created:          # containers the file did not have stand anywhere
            a, b = src.find(Q(name)), out.find(Q(name))
            if a is not None and b is not None:
                docs.detach(a)
                docs.detach(b)
                a.tail = b.tail = None
                docs.same_tree(a, b, '%s: %s' % (what, name))
        docs.same_tree(src, out, what)

    def meta_box():
        """the meta element of the model; created like the library does"""
        box = model.find(Q('office:meta'))
        if box is None:
            box = etree.SubElement(model, Q('office:meta'))
            e = etree.SubElement(box, Q('meta:creation-date'))
            e.text = doc.meta['creation-date']
            for tag in ('dc:date', 'meta:generator'):
                etree.SubElement(box, Q(tag))
            etree.SubElement(box, Q('meta:document-statistic'))
            if model.get(Q('grddl:transformation')) is None:
                model.set(Q('grddl:transformation'), doc.meta.xmlnode.get(Q('grddl:transformation')))
        if box.find(Q('meta:document-statistic')) is None:
            etree.SubElement(box, Q('meta:document-statistic'))
        return box

    def simple(tag, text):
        box = meta_box()
        e = box.find(Q(tag))
        if e is None:
            e = etree.SubElement(box, Q(tag))
        e.text = text

    look(doc, 'after opening')
    compare(doc.tobytes(), 'export after opening')
    same(listing(folder), {d['name']: blob}, 'files after opening')
    edits = saves = 0
    app = model.find(Q('office:body')).find(Q(BODYTAG[t]))
    for n, op in enumerate(case['ops']):
        ctx.step()
        k = op[0]
        before = listing(folder)
        if k in ('save', 'saveas'):
            # the library appends missing date, generator and counter elements on the first save
            simple_order(model, meta_box)
            if k == 'save':
                doc.save()
            else:
                path = os.path.join(folder, op[1])
                doc.saveas(path)
            after = listing(folder)
            name = os.path.basename(path)
            expected = dict(before)
            if name in before:
                expected[name + '.bak'] = before[name]
            check(name in after, 'file %s was not written', name)
            expected[name] = after[name]
            same(sorted(after), sorted(expected), 'files after ' + k)
            check(after == expected, 'wrong backup or changed files after %s', k)
            compare(after[name], k)
            same(canon(etree.fromstring(after[name])), canon(etree.fromstring(doc.tobytes())), 'file and export')
            again = ezodf.opendoc(path)
            look(again, 'reopened')
            saves += 1
            ctx.note(k)
            continue
        if k == 'reopen':
            if saves and not edits_since(ctx, n, case['ops']):
                doc = ezodf.opendoc(path)
                ctx.note('continued with the reopened document')
            continue
        edits += 1
        if k == 'append':
            if t in docs.SHEETS:
                doc.sheets.append(ezodf.Sheet('T%d' % n, size=(1, 2)))
                doc.sheets['T%d' % n][0, 1].set_value(op[1].replace(' ', '_'))
                node = build(E('table:table', {'table:name': 'T%d' % n}, None, [
                    E('table:table-column'), E('table:table-column'), E('table:table-row', {}, None, [
                        E('table:table-cell'), E('table:table-cell', {'office:value-type': 'string'}, None, [E('text:p', {}, op[1].replace(' ', '_'))])])]), {})
                place(app, node, 'table:table')
            elif t in docs.PAGED:
                page = ezodf.drawingpage.DrawingPage('P%d' % n)
                page.append(ezodf.Paragraph('x'))
                doc.pages.append(page)
                place(app, build(E('draw:page', {'draw:name': 'P%d' % n}, None, [E('text:p', {}, 'x')]), {}), 'draw:page')
            else:
                doc.body.append(ezodf.Paragraph('p %d' % n))
                node = build(E('text:p', {}, 'p %d' % n), {})
                if t in docs.TEXTUAL:
                    pos = len(app)
                    while pos and unq(app[pos - 1].tag) in docs.EPILOGUE:
                        pos -= 1
                    app.insert(pos, node)
                else:
                    app.append(node)
        elif k == 'meta':
            doc.meta[op[1]] = op[2]
            simple({'title': 'dc:title', 'subject': 'dc:subject', 'creator': 'dc:creator', 'language': 'dc:language'}[op[1]], op[2])
        elif k == 'keyword':
            doc.meta.keywords.add(op[1])
            box = meta_box()
            if op[1] not in [e.text for e in box.findall(Q('meta:keyword'))]:
                etree.SubElement(box, Q('meta:keyword')).text = op[1]
        elif k == 'usertag':
            doc.meta.usertags[op[1]] = op[2]
            box = meta_box()
            found = [e for e in box.findall(Q('meta:user-defined')) if e.get(Q('meta:name')) == op[1]]
            if found:
                found[0].text = op[2]
                found[0].attrib.pop(Q('meta:value-type'), None)
            else:
                e = etree.SubElement(box, Q('meta:user-defined'))
                e.set(Q('meta:name'), op[1])
                e.text = op[2]
        elif k == 'count':
            doc.meta.count[op[1]] = op[2]
            meta_box().find(Q('meta:document-statistic')).set(Q('meta:%s-count' % op[1]), str(op[2]))
        elif k == 'style':
            doc.inject_style('<style:style style:name="%s" style:family="text"/>' % op[1])
            meta_box()
            box = model.find(Q('office:styles'))
            if box is None:
                box = etree.SubElement(model, Q('office:styles'))
            box.append(build(E('style:style', {'style:name': op[1], 'style:family': 'text'}), {}))
            tail = doc.xmlnode.find(Q('office:styles'))[-1].tail
            box[-1].tail = tail if not (tail or '').strip() else None     # ignorable whitespace
        elif k in ('ptext', 'remove'):
            ours = [e for e in app if e.tag == Q('text:p')]
            # accessing a table expands it, so the paragraphs are accessed by their index
            theirs = [i for i, e in enumerate(doc.body.xmlnode) if e.tag == Q('text:p')]
            same(len(theirs), len(ours), 'paragraphs of the body')
            if not ours or t not in docs.TEXTUAL:
                continue
            i = op[1] % len(ours)
            if k == 'ptext':
                doc.body[theirs[i]].style_name = op[2]
                ours[i].set(Q('text:style-name'), op[2])
            else:
                doc.body.remove(doc.body[theirs[i]])
                app.remove(ours[i])
        ctx.note('edit ' + k)
        look(doc, 'after %s' % k)
        compare(doc.tobytes(), 'after %r' % (op,))
    same(canon(etree.fromstring(doc.tobytes())), canon(doc.xmlnode), 'export')
    ctx.nontrivial(edits >= 2 and saves)


def edits_since(ctx, n, ops):
    for op in reversed(ops[:n]):
        if op[0] in ('save', 'saveas'):
            return False
        if op[0] != 'reopen':
            return True
    return True


def simple_order(model, meta_box):
    box = meta_box()
    for tag in ('dc:date', 'meta:generator', 'meta:editing-cycles'):
        if box.find(Q(tag)) is None:
            etree.SubElement(box, Q(tag))


def place(app, node, tag):
    found = app.findall(Q(tag))
    if found:
        app.insert(app.index(found[-1]) + 1, node)
        return
    pos = len(app)
    while pos and unq(app[pos - 1].tag) in docs.EPILOGUE:
        pos -= 1
    app.insert(pos, node)
