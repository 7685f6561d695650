"""C01: opening and saving loses nothing that was not edited."""
import io
import os

from lxml import etree

import docs
import odf
from core import HarnessError, Violation, check, same
from odf import E, Package, Q, build, canon

RULE = ('A case is a generated package (foreign XML, members and manifest entries, unusual encodings and zip features), '
        'a route to open it, edits and a chain of saves; non-trivial: at least one unmanaged member or foreign manifest '
        'entry, a non-empty body and at least one completed save.')
ASSUME = ['the meta part, if present, contains an office:meta element', 'member names are unique in the source package',
          'comments outside the root element of a part and its document type declaration are not content',
          'tables that were accessed are judged by C16 and C18, not here']
BUDGET = {'quick': 9000, 'thorough': 80000}

TYPES = ['odt', 'ods', 'odg', 'odp', 'ott', 'ots', 'odm', 'odc', 'odi', 'oth', 'otp', 'otg']


def strategy(profile):
    from hypothesis import strategies as st
    import gen
    s = docs.strategies()
    n = st.integers(0, 20)
    edit = gen.choice((2, gen.op('title', gen.word(5))), (1, gen.op('keyword', gen.word(4))),
                      (1, gen.op('usertag', gen.word(3), gen.word(3))), (1, gen.op('count', st.integers(0, 9))),
                      (3, gen.op('paragraph', gen.word(4))), (2, gen.op('cell', n, n, gen.word(3))),
                      (1, gen.op('style', gen.word(3))), (1, gen.op('look')), (1, gen.op('register', gen.word(4))),
                      (2, gen.op('body_attr', gen.word(3))), (1, gen.op('delete', n)))
    write = st.sampled_from(['save', 'other', 'third', 'bytes', 'stream', 'subdir'])
    step = gen.choice((3, st.tuples(st.just('edit'), edit).map(list)), (4, gen.op('write', write)),
                      (1, gen.op('reopen', st.sampled_from(['path', 'bytes', 'stream']))))
    return st.fixed_dictionaries({
        'doc': s.doc(TYPES[:3] if profile['tiny'] else TYPES, False, 6 if profile['big'] else 4),
        'open': st.sampled_from(['path', 'bytes', 'stream']),
        'steps': st.lists(step, min_size=1, max_size=7 if profile['big'] else 4)})


class Expected(object):
    """the source as element trees, with the edits applied"""

    def __init__(self, doc):
        self.doc = doc
        blob = docs.package(doc)
        p = Package(blob)
        self.blob = blob
        self.type = doc['type']
        self.members = {n: b for n, b in p.members.items()
                        if n not in ('mimetype', 'content.xml', 'styles.xml', 'meta.xml', 'META-INF/manifest.xml')}
        self.content = p.xml('content.xml')
        self.styles = p.xml('styles.xml')
        self.meta = p.xml('meta.xml')
        self.manifest = p.xml('META-INF/manifest.xml')
        self.masked = set()      # positions of sheets that were accessed
        self.injected = []       # names of injected styles

    def app(self):
        return self.content.find(Q('office:body')).find(Q(odf.BODYTAG[self.type]))

    def verify(self, blob, what):
        import copy
        out = Package(blob)
        for name, data in self.members.items():
            if name not in out.members:
                raise Violation('%s: member %r was lost' % (what, name))
            if out.members[name] != data:
                raise Violation('%s: member %r changed from %r to %r' % (what, name, data[:60], out.members[name][:60]))
        for name in out.members:
            if name not in self.members and name not in ('mimetype', 'content.xml', 'styles.xml', 'meta.xml',
                                                         'META-INF/manifest.xml'):
                raise Violation('%s: member %r was added' % (what, name))
        same(out.members.get('mimetype'), odf.MIME[self.type].encode(), '%s: mimetype' % what)
        content, expected = out.xml('content.xml'), copy.deepcopy(self.content)
        for tree in (content, expected):
            app = tree.find(Q('office:body')).find(Q(odf.BODYTAG[self.type]))
            tables = app.findall(Q('table:table')) if app is not None else []
            for i in sorted(self.masked):
                if i < len(tables):
                    tail = tables[i].tail
                    tables[i].clear()
                    tables[i].tail = tail
        docs.compare_content(expected, content, self.type, '%s: content.xml' % what)
        styles = out.xml('styles.xml')
        if self.injected:
            # the injected styles are the last ones, in order
            common = styles.find(Q('office:styles'))
            tail = list(common)[-len(self.injected):] if common is not None else []
            same([(e.tag, dict(e.attrib), len(e)) for e in tail],
                 [(Q('style:style'), {Q('style:name'): n, Q('style:family'): 'text'}, 0) for n in self.injected],
                 '%s: injected styles' % what)
            for e in tail:
                common.remove(e)
        docs.compare_styles(copy.deepcopy(self.styles), styles, '%s: styles.xml' % what)
        docs.compare_meta(copy.deepcopy(self.meta), out.xml('meta.xml'), '%s: meta.xml' % what)
        docs.compare_manifest(self.manifest, out.xml('META-INF/manifest.xml'), self.type)


def sub(parent, tag, text=None, attrs=None):
    node = etree.SubElement(parent, Q(tag))
    for k, v in (attrs or {}).items():
        node.set(Q(k), v)
    node.text = text
    return node


def edit(doc, exp, op, ctx):
    import ezodf
    k = op[0]
    meta = exp.meta.find(Q('office:meta'))
    if k == 'title':
        doc.meta['title'] = op[1]
        node = meta.find(Q('dc:title'))
        if node is None:
            node = sub(meta, 'dc:title')
        node.text = op[1]
    elif k == 'keyword':
        present = [e.text for e in meta.findall(Q('meta:keyword'))]
        doc.meta.keywords.add(op[1])
        if op[1] not in present:
            sub(meta, 'meta:keyword', op[1])
    elif k == 'usertag':
        found = [e for e in meta.findall(Q('meta:user-defined')) if e.get(Q('meta:name')) == op[1]]
        if not found:
            doc.meta.usertags[op[1]] = op[2]
            sub(meta, 'meta:user-defined', op[2], {'meta:name': op[1]})
    elif k == 'count':
        if meta.find(Q('meta:document-statistic')) is not None:
            doc.meta.count['word'] = op[1]
            meta.find(Q('meta:document-statistic')).set(Q('meta:word-count'), str(op[1]))
    elif k == 'paragraph':
        if exp.type not in docs.TEXTUAL:
            return
        app = exp.app()
        text = 'new' + op[1].replace(' ', '_')
        doc.body.append(ezodf.Paragraph(text))
        # behind everything but the closing elements
        pos = len(app)
        while pos and app[pos - 1].tag in [Q(t) for t in docs.EPILOGUE]:
            pos -= 1
        new = etree.Element(Q('text:p'))
        new.text = text
        app.insert(pos, new)
    elif k == 'cell':
        if exp.type not in docs.SHEETS or not len(doc.sheets):
            return
        i = op[1] % len(doc.sheets)
        sheet = doc.sheets[i]
        exp.masked.add(i)
        if sheet.nrows() and sheet.ncols():
            sheet[op[2] % sheet.nrows(), 0].set_value(op[3])
    elif k == 'style':
        xml = '<style:style style:name="%s" style:family="text"/>' % ''.join(c for c in op[1] if c.isalnum())
        doc.inject_style(xml)
        exp.injected.append(''.join(c for c in op[1] if c.isalnum()))
    elif k == 'look':
        doc.meta.keywords
        list(doc.meta.usertags)
        list(doc.meta.count)
        if hasattr(doc, 'sheets'):
            list(doc.sheets.names())
        if hasattr(doc, 'pages'):
            list(doc.pages.names())
        for child in doc.body:
            if child.kind != 'Table':
                child.plaintext()
            else:
                return_masked(doc, exp)
    elif k == 'register':
        name = 'Pictures/new-%d' % len(exp.members)
        doc.filemanager.register(name, op[1], 'image/x')
        exp.members[name] = op[1].encode('utf-8')
        sub(exp.manifest, 'manifest:file-entry', None, {'manifest:full-path': name, 'manifest:media-type': 'image/x'})
    elif k == 'body_attr':
        doc.body.set_attr(Q('x:edited'), op[1])
        exp.app().set(Q('x:edited'), op[1])
    elif k == 'delete':
        # the generic list interface on the body: delete one child that is no declaration
        app = exp.app()
        kids = [i for i in range(len(app)) if app[i].tag in (Q('text:p'), Q('text:h'), Q('draw:page'), Q('table:table'))]
        if not kids or exp.masked:
            return
        node = app[kids[op[1] % len(kids)]]
        same_tag = [e for e in app if e.tag == node.tag]
        at = same_tag.index(node)
        live = [e for e in doc.body.xmlnode if e.tag == node.tag][at]
        tail = node.tail
        check(not tail, 'harness: body children have no tail')
        del doc.body[doc.body.xmlnode.index(live)]
        app.remove(node)


def return_masked(doc, exp):
    """iterating over the body wraps the tables, which expands them; they are judged by C18"""
    exp.masked.update(range(len(exp.app().findall(Q('table:table')))))


def run_case(case, ctx):
    import ezodf
    exp = Expected(case['doc'])
    folder = ctx.tmpdir()
    src = os.path.join(folder, 'source.' + exp.type)
    with open(src, 'wb') as f:
        f.write(exp.blob)

    def opened(how, blob, path):
        if how == 'path':
            return ezodf.opendoc(path)
        return ezodf.opendoc(blob if how == 'bytes' else io.BytesIO(blob))

    doc = opened(case['open'], exp.blob, src)
    ctx.note('open by ' + case['open'])
    path = src if case['open'] == 'path' else None
    last, saves = exp.blob, 0
    exp.verify(doc.tobytes(), 'bytes of the unedited document')
    for step in case['steps']:
        ctx.step()
        if step[0] == 'edit':
            edit(doc, exp, step[1], ctx)
            ctx.note('edit ' + step[1][0])
            continue
        if step[0] == 'reopen':
            last = doc.tobytes()
            path = os.path.join(folder, 're.' + exp.type)
            with open(path, 'wb') as f:
                f.write(last)
            doc = opened(step[1], last, path)
            if step[1] != 'path':
                path = None
            exp.verify(doc.tobytes(), 'reopened document')
            # what the previous document created is content of the new one
            exp.content, exp.masked = Package(last).xml('content.xml'), set()
            if exp.injected:
                exp.styles, exp.injected = Package(last).xml('styles.xml'), []
            continue
        how = step[1]
        if how == 'bytes':
            blob = doc.tobytes()
        elif how == 'stream':
            stream, name = io.BytesIO(), doc.docname
            doc.saveas(stream)
            doc.docname = name
            blob = stream.getvalue()
        else:
            if how == 'save' and path is not None:
                target = path
                doc.save()
            else:
                if how == 'subdir':
                    os.makedirs(os.path.join(folder, 'sub'), exist_ok=True)
                    target = os.path.join(folder, 'sub', 'd\xe4 x.' + exp.type)
                else:
                    target = os.path.join(folder, '%s.%s' % (how, exp.type))
                doc.saveas(target)
                path = target
            with open(target, 'rb') as f:
                blob = f.read()
        saves += 1
        ctx.note('write ' + how)
        exp.verify(blob, 'written by %s' % how)
    d = case['doc']
    ctx.nontrivial(saves and d['body'] and (d['extra'] or d['manifest']))
