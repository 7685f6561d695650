"""Documents as plain data: generator, package builder with unusual but legal features, comparison.

document data (JSON):
  {'type': 'odt', 'body': [element data], 'bodyattrs': {}, 'before': [element data] (children of the
   content root in front of office:body), 'styles': [element data] | None, 'meta': [element data] | None,
   'extra': [[name, latin-1 text, compress]], 'manifest': [[path, media type, {attrs}]], 'feature': {...}}
"""
import io
import re
import struct
import zipfile

from lxml import etree

import odf
from core import HarnessError, Violation, short
from odf import BODYTAG, E, MIME, NS, Q, build, canon, first_difference, serialise, unq

TEXTUAL = ('odt', 'ott', 'odm', 'oth')
SHEETS = ('ods', 'ots')
PAGED = ('odg', 'otg', 'odp', 'otp')


# ------------------------------------------------------------ building

def content_node(doc):
    root = E('office:document-content', {'office:version': '1.2'}, None,
             list(doc['before']) + [E('office:body', {}, None, [
                 E(BODYTAG[doc['type']], doc.get('bodyattrs'), None, doc['body'])])])
    return root


def styles_node(doc):
    return E('office:document-styles', {'office:version': '1.2'}, None, doc['styles'] or [])


def meta_node(doc):
    return E('office:document-meta', {'office:version': '1.2'}, None,
             [E('office:meta', {}, None, doc['meta'] or [])])


def encode(data, how):
    """serialised part in one of the encodings XML allows"""
    node = build(data)
    if how == 'utf-16':
        return etree.tostring(node, encoding='UTF-16', xml_declaration=True)
    if how == 'latin':
        return etree.tostring(node, encoding='ISO-8859-1', xml_declaration=True)
    if how == 'nodecl':
        return etree.tostring(node, encoding='UTF-8', xml_declaration=False)
    if how == 'bom':
        return b'\xef\xbb\xbf' + etree.tostring(node, encoding='UTF-8', xml_declaration=False)
    if how == 'doctype':
        return b'<?xml version="1.0"?>\n<!DOCTYPE x [<!ENTITY e "ent">]>\n' + etree.tostring(
            node, encoding='UTF-8', xml_declaration=False)
    if how == 'entity':
        return with_entity(etree.tostring(node, encoding='UTF-8', xml_declaration=False), node)
    return etree.tostring(node, encoding='UTF-8', xml_declaration=True)


def with_entity(data, node):
    """one text of the document is written as an entity of its own"""
    texts = [t for e in node.iter('*') for t in (e.text, e.tail) if t and re.match('[A-Za-z0-9]+$', t)]
    for t in texts:
        raw = b'>' + t.encode() + b'<'
        if raw in data:
            data = data.replace(raw, b'>&ent;<')
            break
    else:
        t = 'unused'
    result = b'<?xml version="1.0"?>\n<!DOCTYPE x [<!ENTITY ent "%s">]>\n' % t.encode() + data
    return result if canon(etree.fromstring(result)) == canon(node) else data


def members(doc):
    """[(name, bytes, compress)] of the package"""
    f = doc.get('feature') or {}
    out = []
    if not f.get('nomimetype'):
        out.append(('mimetype', MIME[doc['type']].encode(), bool(f.get('packmimetype'))))
    out.append(('content.xml', encode(content_node(doc), f.get('encoding')), True))
    if doc['styles'] is not None:
        out.append(('styles.xml', encode(styles_node(doc), f.get('encoding')), True))
    if doc['meta'] is not None:
        out.append(('meta.xml', encode(meta_node(doc), f.get('encoding')), True))
    for name, text, compress in doc['extra']:
        out.append((name, text.encode('latin-1'), compress))
    if not f.get('nomanifest'):
        entries = []
        if not f.get('norootentry'):
            entries.append(E('manifest:file-entry', dict({'manifest:full-path': '/',
                                                          'manifest:media-type': MIME[doc['type']]},
                                                         **f.get('rootattrs', {}))))
        listed = [m[0] for m in out if m[0] != 'mimetype'] if not f.get('shortmanifest') else []
        for name in listed:
            entry = {'manifest:full-path': name, 'manifest:media-type': 'text/xml' if name.endswith('.xml') else ''}
            if name in f.get('badmedia', {}):
                entry.update({'manifest:media-type': f['badmedia'][name]})
                if f['badmedia'][name] is None:
                    del entry['manifest:media-type']
            kids = [E('x:note', {'x:of': name}, 'n')] if f.get('entrynotes') else []
            entries.append(E('manifest:file-entry', dict(entry, **({'x:size': '1'} if kids else {})), None, kids))
        for path, media, attrs, children in doc['manifest']:
            if path not in listed:
                entries.append(E('manifest:file-entry', dict(attrs, **{
                    'manifest:full-path': path, 'manifest:media-type': media}), None, children))
        if f.get('shuffle'):   # the order of the entries has no meaning
            entries = [e for _, e in sorted(enumerate(entries), key=lambda x: (x[0] * 7919 + f['shuffle'] * 31) % 101)]
        out.append(('META-INF/manifest.xml', serialise(E('manifest:manifest', {}, None, entries)), True))
    order = f.get('order')
    if order:
        head, rest = out[:1], out[1:]
        if f.get('mimetypelast'):
            head, rest = [], out
        keyed = [((order[i % len(order)] * 7919 + i * order[0]) % 101, i) for i in range(len(rest))]
        out = head + [rest[i] for _, i in sorted(keyed)]
    return out


def package(doc):
    f = doc.get('feature') or {}
    buf = io.BytesIO()
    target = buf
    if f.get('stream'):
        # sizes and checksums in data descriptors, as written by streaming producers
        class Sink(object):
            def __init__(self):
                self.pos = 0

            def write(self, b):
                buf.write(b)
                self.pos += len(b)
                return len(b)

            def flush(self):
                pass
        target = Sink()
    with zipfile.ZipFile(target, 'w') as z:
        if f.get('zipcomment'):
            z.comment = b'made by a test'
        for name, blob, compress in members(doc):
            zi = zipfile.ZipInfo(name, (2011, 2, 3, 4, 5, 6))
            zi.compress_type = zipfile.ZIP_DEFLATED if compress else zipfile.ZIP_STORED
            zi.external_attr = 0o644 << 16
            if f.get('zipextra') and name != 'mimetype':
                zi.extra = struct.pack('<HHBI', 0x5455, 5, 1, 1300000000)
                zi.comment = b'c'
            z.writestr(zi, blob)
    return f.get('prefix', '').encode('latin-1') + buf.getvalue()


# ------------------------------------------------------------ comparison

ALLOWED = {
    'content.xml': [((), 'office:scripts'), ((), 'office:font-face-decls'), ((), 'office:automatic-styles'),
                    ((), 'office:body')],
    'styles.xml': [((), 'office:font-face-decls'), ((), 'office:styles'), ((), 'office:automatic-styles'),
                   ((), 'office:master-styles')],
    'meta.xml': [(('office:meta',), 'meta:document-statistic')],
}


def is_empty(node):
    return not len(node) and not node.attrib and not (node.text or '')


def drop_added(src, out, names, where):
    """remove empty containers from out which src does not have"""
    for name in names:
        have = src.find(Q(name)) if src is not None else None
        if have is not None:
            continue
        found = out.findall(Q(name))
        if len(found) > 1:
            raise Violation('%s: %d elements %s were added' % (where, len(found), name))
        if found:
            node = found[0]
            if not is_empty(node):
                raise Violation('%s: added element %s is not empty' % (where, name))
            detach(node)


def detach(node):
    """remove node, its tail stays in place"""
    parent = node.getparent()
    if node.tail:
        prev = node.getprevious()
        if prev is not None:
            prev.tail = (prev.tail or '') + node.tail
        else:
            parent.text = (parent.text or '') + node.tail
    parent.remove(node)


def neutral_meta(meta, other):
    """generator, date and editing cycles may change or be added"""
    for name in ('meta:generator', 'dc:date', 'meta:editing-cycles'):
        node = meta.find(Q(name))
        if node is None:
            continue
        if other.find(Q(name)) is None:
            detach(node)
        else:
            node.text = None


def compare_content(src, out, doctype, what='content.xml'):
    """src, out: root elements (modified by this function)"""
    drop_added(src, out, ['office:scripts', 'office:font-face-decls', 'office:automatic-styles'], what)
    tag = Q(BODYTAG[doctype])
    sb, ob = src.find(Q('office:body')), out.find(Q('office:body'))
    sapp = sb.find(tag) if sb is not None else None
    oapp = ob.find(tag) if ob is not None else None
    if oapp is None:
        raise Violation('%s has no %s element' % (what, BODYTAG[doctype]))
    drop_added(sapp, oapp, ['text:variable-decls', 'text:user-field-decls'], what)
    if sapp is None and is_empty(oapp):
        detach(oapp)
    if sb is None and is_empty(ob):
        detach(ob)
    same_tree(src, out, what)


def same_tree(src, out, what):
    a, b = canon(out), canon(src)
    if a != b:
        raise Violation('%s changed: %s' % (what, first_difference(a, b)))
    for prefix, uri in src.nsmap.items():
        if out.nsmap.get(prefix) != uri:
            raise Violation('%s: declaration of namespace prefix %s was lost' % (what, prefix))


def compare_styles(src, out, what='styles.xml'):
    drop_added(src, out, ['office:font-face-decls', 'office:styles', 'office:automatic-styles',
                          'office:master-styles'], what)
    same_tree(src, out, what)


def compare_meta(src, out, what='meta.xml'):
    sm, om = src.find(Q('office:meta')), out.find(Q('office:meta'))
    if om is None:
        raise Violation('%s has no office:meta element' % what)
    drop_added(sm, om, ['meta:document-statistic'], what)
    neutral_meta(om, sm)
    neutral_meta(sm, sm)
    same_tree(src, out, what)


def manifest_entries(root):
    return [(e.tag, tuple(sorted(e.attrib.items())), e.text or '', tuple(canon(c, True) for c in e))
            for e in root if isinstance(e.tag, str)]


def compare_manifest(src, out, doctype, managed=('mimetype', 'content.xml', 'styles.xml', 'meta.xml', '/')):
    """every entry of the source stays, in order; only entries of managed parts are added"""
    path = Q('manifest:full-path')
    got = list(out)
    for e in (list(src) if src is not None else []):
        if not isinstance(e.tag, str):
            continue
        p = e.get(path)
        found = [g for g in got if isinstance(g.tag, str) and g.get(path) == p and g.tag == e.tag]
        if not found:
            raise Violation('manifest entry %r was lost' % p)
        g = found[0]
        a, b = dict(g.attrib), dict(e.attrib)
        if p in managed:
            a.pop(Q('manifest:media-type'), None)
            b.pop(Q('manifest:media-type'), None)
        if a != b or canon(g)[2:] != canon(e)[2:]:
            raise Violation('manifest entry %r changed from %r to %r' % (p, b, a))
    old = [e.get(path) for e in src if isinstance(e.tag, str)] if src is not None else []
    new = [e.get(path) for e in out if isinstance(e.tag, str)]
    if [p for p in new if p in old] != old:
        raise Violation('order of the manifest entries changed: %r, was %r' % (new, old))
    for p in new:
        if p not in old and p not in managed:
            raise Violation('manifest entry %r was added' % p)
    if src is not None and dict(src.attrib) != dict(out.attrib):
        raise Violation('attributes of the manifest changed from %r to %r' % (dict(src.attrib), dict(out.attrib)))


# ------------------------------------------------------------ strategies

DECLS = ['office:forms', 'text:sequence-decls', 'text:variable-decls', 'text:user-field-decls']
EPILOGUE = ['table:named-expressions', 'table:database-ranges', 'table:data-pilot-tables', 'table:consolidation',
            'table:dde-links']


def strategies():
    from hypothesis import strategies as st
    import gen
    import tables

    class S(object):
        pass
    s = S()

    xmltext = st.one_of(st.none(), gen.text(8).map(lambda t: t or None), gen.word(6))
    s.xmltext = xmltext
    attrname = st.sampled_from(['text:style-name', 'xml:lang', 'x:a', 'x:b', 'loext:c', 'style:name', 'draw:name',
                                'text:name', 'plain', 'xlink:href', 'office:value-type', 'table:formula'])
    attrs = st.dictionaries(attrname, st.one_of(gen.word(4), gen.text(6), st.sampled_from([
        '', 'of:=SUM([.A1:.A3])', 'string', 'true', 'Pictures/1.png'])), max_size=2)
    s.attrs = attrs
    leaf = st.builds(E, st.sampled_from([
        'text:span', 'text:s', 'text:tab', 'text:line-break', 'text:soft-page-break', 'text:bookmark', 'text:a',
        'text:variable-get', 'text:user-field-get', 'text:note', 'draw:frame', 'draw:image', 'x:leaf', 'x:any',
        'office:annotation', 'text:p', 'text:h', 'text:change-start', 'dc:title', 'meta:keyword', 'office:meta',
        'style:name', 'table:table-cell', 'text:variable-set']),
        attrs, xmltext, st.just([]), xmltext)
    misc = st.one_of(st.builds(lambda t, tail: ['#comment', {}, t, [], tail], st.sampled_from(['c', ' a <b> ', '']),
                               xmltext),
                     st.builds(lambda t, tail: ['#pi', {'target': 'pi'}, t, [], tail], st.sampled_from(['', 'x="1"']),
                               xmltext))

    def node(tags, children, max_children=3):
        return st.builds(E, tags, attrs, xmltext, st.lists(children, max_size=max_children), xmltext)

    inner = gen.choice((8, leaf), (1, misc))
    para = node(st.sampled_from(['text:p', 'text:p', 'text:h', 'text:span', 'x:block']), inner)
    s.para = para
    notail = lambda e: e[:4] + [None]
    li = st.builds(lambda a, ps: E('text:list-item', a, None, ps), attrs, st.lists(para.map(notail), max_size=2))
    lst = st.builds(lambda a, items: E('text:list', a, None, items), attrs, st.lists(li, max_size=2))
    section = st.builds(lambda a, ps: E('text:section', a, None, ps), attrs,
                        st.lists(gen.choice((3, para.map(notail)), (1, lst)), max_size=2))
    t = tables.strategies()
    table = t.table(big=False).map(tables._table_data)
    s.table = table
    s.block = gen.choice((8, para.map(notail)), (2, lst), (2, section), (1, table), (1, misc.map(notail)))
    page = st.builds(lambda n, a, ch: E('draw:page', dict(a, **{'draw:name': n}), None, ch),
                     gen.word(5), st.dictionaries(st.sampled_from(['draw:style-name', 'x:a']), gen.word(3), max_size=2),
                     st.lists(node(st.sampled_from(['draw:frame', 'draw:rect', 'draw:g', 'presentation:notes']),
                                   para), max_size=2))
    s.page = page

    def decl(tag):
        kid = {'text:variable-decls': st.builds(lambda n, v: E('text:variable-decl', {
                   'text:name': n, 'office:value-type': v}), gen.word(3), st.sampled_from(['string', 'float', 'boolean'])),
               'text:user-field-decls': st.builds(lambda n, v: E('text:user-field-decl', {
                   'text:name': n, 'office:value-type': 'string', 'office:string-value': v}), gen.word(3), gen.word(3)),
               }.get(tag, leaf.map(notail))
        return st.builds(lambda a, k: E(tag, {}, None, k), st.none(), st.lists(kid, max_size=2))

    s.prelude = st.lists(st.sampled_from(range(len(DECLS))), max_size=3, unique=True).map(sorted).flatmap(
        lambda ids: st.tuples(*[decl(DECLS[i]) for i in ids]).map(list))
    s.epilogue = st.lists(st.sampled_from(range(len(EPILOGUE))), max_size=2, unique=True).map(sorted).flatmap(
        lambda ids: st.tuples(*[st.builds(lambda k, tag=EPILOGUE[i]: E(tag, {}, None, k),
                                          st.lists(leaf.map(notail), max_size=1)) for i in ids]).map(list))

    def body(doctype, max_size=4):
        if doctype in SHEETS:
            mid = st.lists(table, max_size=3).map(lambda ts: [
                [x[0], dict(x[1], **{'table:name': 'S%d' % i})] + x[2:] for i, x in enumerate(ts)])
        elif doctype in PAGED:
            mid = st.lists(page, max_size=3)
        elif doctype in TEXTUAL:
            mid = st.lists(s.block, max_size=max_size)
        else:
            mid = st.lists(node(st.sampled_from(['chart:chart', 'draw:frame']), para).map(notail), max_size=1)
        return st.tuples(s.prelude, mid, s.epilogue).map(lambda p: p[0] + p[1] + p[2])

    s.body = body
    style = st.builds(lambda tag, n, f, ch: E(tag, {'style:name': n, 'style:family': f}, None, ch),
                      st.sampled_from(['style:style', 'style:style', 'text:list-style', 'number:date-style']),
                      gen.word(4), st.sampled_from(['paragraph', 'table-cell', 'text']),
                      st.lists(node(st.sampled_from(['style:text-properties', 'style:map', 'x:p']), leaf).map(notail),
                               max_size=2))
    s.style = style
    pagelayout = st.builds(lambda n: E('style:page-layout', {'style:name': n}, None, [
        E('style:header-style')]), gen.word(3))
    font = st.builds(lambda n: E('style:font-face', {'style:name': n, 'svg:font-family': 'F'}), gen.word(4))
    group = st.one_of(
        st.lists(font, max_size=2).map(lambda k: E('office:font-face-decls', {}, None, k)),
        st.lists(gen.choice((3, style), (1, misc.map(notail))), max_size=3).map(lambda k: E('office:styles', {}, None, k)),
        st.lists(gen.choice((2, style), (1, pagelayout)), max_size=2).map(
            lambda k: E('office:automatic-styles', {}, None, k)),
        st.lists(st.builds(lambda n: E('style:master-page', {'style:name': n}), gen.word(3)), max_size=1).map(
            lambda k: E('office:master-styles', {}, None, k)))
    s.styles = st.lists(group, max_size=4, unique_by=lambda e: e[0])
    foreign = leaf.map(lambda e: notail(e if e[0].startswith('x:') else ['x:leaf'] + e[1:]))
    s.before = st.lists(st.one_of(
        st.lists(font, max_size=2).map(lambda k: E('office:font-face-decls', {}, None, k)),
        st.lists(style, max_size=3).map(lambda k: E('office:automatic-styles', {}, None, k)),
        st.lists(leaf.map(notail), max_size=1).map(lambda k: E('office:scripts', {}, None, k)),
        foreign), max_size=3, unique_by=lambda e: e[0])
    simple = st.builds(lambda tag, v: E(tag, {}, v or None), st.sampled_from([
        'meta:generator', 'dc:title', 'dc:description', 'dc:subject', 'meta:initial-creator', 'dc:creator',
        'meta:creation-date', 'dc:date', 'meta:editing-cycles', 'dc:language', 'meta:editing-duration', 'x:title']),
        st.one_of(gen.word(5), st.sampled_from(['', '3', '17', '2011-02-03T04:05:06'])))
    keyword = st.builds(lambda v: E('meta:keyword', {}, v), gen.word(5))
    user = st.builds(lambda n, v, ty: E('meta:user-defined', dict({'meta:name': n}, **ty), v), gen.word(4), gen.word(4),
                     st.sampled_from([{}, {'meta:value-type': 'float'}, {'meta:value-type': 'boolean'}]))
    stat = st.builds(lambda a: E('meta:document-statistic', a), st.dictionaries(
        st.sampled_from(['meta:page-count', 'meta:word-count', 'meta:cell-count', 'meta:frame-count', 'x:count']),
        st.integers(0, 99).map(str), max_size=3))
    group = st.builds(lambda t, k: E(t, {}, None, k), st.sampled_from(['x:group', 'x:group', 'dc:publisher']), st.lists(st.one_of(simple, keyword, user, stat), min_size=1, max_size=2))
    s.meta = st.lists(gen.choice((4, simple), (1, group), (2, keyword), (2, user), (1, stat), (1, misc.map(notail)),
                                 (1, foreign)), max_size=6,
                      unique_by=lambda e: (e[0] + str([k[0] for k in e[3]]), e[1].get('meta:name'), e[2] if e[0] in ('meta:keyword', '#comment') else 0))
    blob = st.one_of(st.binary(max_size=40), st.just(b''), st.binary(min_size=100, max_size=600),
                     st.just(b'<a><!-- x --> <b/></a>'), st.just(b'PK\x03\x04 not a zip')).map(
                         lambda b: b.decode('latin-1'))
    fname = st.sampled_from(['settings.xml', 'Pictures/1.png', 'Pictures/', 'Configurations2/accelerator/current.xml',
                             'Configurations2/', 'Object 1/content.xml', 'Object 1/meta.xml', 'Object 1/mimetype',
                             'ObjectReplacements/Object 1', 'Thumbnails/thumbnail.png', 'META-INF/documentsignatures.xml',
                             'META-INF/manifest.rdf', 'manifest.rdf', 'layout-cache', 'Content.xml', 'content.xml.bak', 'META.XML', 'Styles.xml',
                             'Mimetype', './content.xml', '/styles.xml',
                             'x/content.xml', 'a b/\xe4\u4e2d.bin', 'styles.xml/', 'meta.xmlx', 'mimetype2',
                             'versionlist.xml', 'Basic/script-lc.xml'])
    s.extra = st.lists(st.tuples(fname, blob, st.booleans()).map(
        lambda m: [m[0], '' if m[0].endswith('/') else m[1], m[2] and not m[0].endswith('/')]),
        max_size=5, unique_by=lambda m: m[0])
    enc = st.just(E('manifest:encryption-data', {'manifest:checksum': 'abc'}, None, [
        E('manifest:algorithm', {'manifest:algorithm-name': 'Blowfish CFB'})]))
    s.manifest = st.lists(st.tuples(
        st.sampled_from(['Pictures/', 'Configurations2/', 'missing.bin', 'Object 1/', 'Pictures/gone.png', 'a&b', 'Styles.xml', 'META.xml', './content.xml', 'xml', '//']),
        st.sampled_from(['', 'image/png', 'application/vnd.sun.xml.ui.configuration']),
        st.sampled_from([{}, {'manifest:version': '1.2'}, {'manifest:size': '12'}, {'x:q': '1'}]),
        st.lists(enc, max_size=1)).map(list), max_size=3, unique_by=lambda m: m[0])
    flag = st.sampled_from([True])
    s.feature = st.fixed_dictionaries({}, optional={
        'encoding': st.sampled_from(['utf-8', 'utf-16', 'latin', 'nodecl', 'bom', 'doctype', 'entity']),
        'packmimetype': flag, 'order': st.lists(st.integers(0, 50), min_size=1, max_size=4), 'zipextra': flag,
        'zipcomment': flag, 'stream': flag, 'entrynotes': flag, 'shuffle': st.integers(0, 50), 'rootattrs': st.sampled_from([{'manifest:version': '1.2'}, {'x:r': '1'}])})
    s.defects = st.fixed_dictionaries({}, optional={
        'badmedia': st.dictionaries(st.sampled_from(['content.xml', 'styles.xml', 'meta.xml']), st.sampled_from([None, '', 'application/xml', 'TEXT/XML', 'image/png']), min_size=1),
        'nomimetype': flag, 'nomanifest': flag, 'norootentry': flag, 'shortmanifest': flag, 'mimetypelast': flag})

    def doc(types, defects=False, body_size=4):
        def make(t):
            feature = st.builds(lambda a, b: dict(a, **b), s.feature, s.defects) if defects else s.feature
            return st.fixed_dictionaries({
                'type': st.just(t), 'body': body(t, body_size), 'bodyattrs': st.sampled_from([{}, {}, {'text:use-soft-page-breaks': 'true'}]),
                'before': s.before, 'styles': st.one_of(s.styles, s.styles, st.none()) if defects else s.styles,
                'meta': st.one_of(s.meta, s.meta, st.none()) if defects else s.meta,
                'extra': s.extra, 'manifest': s.manifest,
                'feature': gen.choice((2, st.just({})), (3, feature))})
        return st.sampled_from(list(types)).flatmap(make)
    s.doc = doc
    return s
