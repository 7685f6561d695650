"""Independent view on ODF files: builders from plain data, container reader, canonical trees.

Nothing in here uses ezodf; namespaces are written out from the OASIS standard.
"""
import io
import struct
import zipfile
import zlib

from lxml import etree

from core import Violation

NS = {
    'office': 'urn:oasis:names:tc:opendocument:xmlns:office:1.0',
    'style': 'urn:oasis:names:tc:opendocument:xmlns:style:1.0',
    'text': 'urn:oasis:names:tc:opendocument:xmlns:text:1.0',
    'table': 'urn:oasis:names:tc:opendocument:xmlns:table:1.0',
    'draw': 'urn:oasis:names:tc:opendocument:xmlns:drawing:1.0',
    'fo': 'urn:oasis:names:tc:opendocument:xmlns:xsl-fo-compatible:1.0',
    'xlink': 'http://www.w3.org/1999/xlink',
    'dc': 'http://purl.org/dc/elements/1.1/',
    'meta': 'urn:oasis:names:tc:opendocument:xmlns:meta:1.0',
    'number': 'urn:oasis:names:tc:opendocument:xmlns:datastyle:1.0',
    'presentation': 'urn:oasis:names:tc:opendocument:xmlns:presentation:1.0',
    'svg': 'urn:oasis:names:tc:opendocument:xmlns:svg-compatible:1.0',
    'chart': 'urn:oasis:names:tc:opendocument:xmlns:chart:1.0',
    'dr3d': 'urn:oasis:names:tc:opendocument:xmlns:dr3d:1.0',
    'form': 'urn:oasis:names:tc:opendocument:xmlns:form:1.0',
    'script': 'urn:oasis:names:tc:opendocument:xmlns:script:1.0',
    'manifest': 'urn:oasis:names:tc:opendocument:xmlns:manifest:1.0',
    'grddl': 'http://www.w3.org/2003/g/data-view#',
    # foreign namespaces used by the generators
    'x': 'urn:example:foreign',
    'loext': 'urn:org:documentfoundation:names:experimental:office:xmlns:loext:1.0',
}

MANIFEST = NS['manifest']


def Q(name):
    """prefix:local -> {uri}local (names without prefix stay)"""
    if ':' in name and not name.startswith('{'):
        prefix, local = name.split(':', 1)
        if prefix == 'xml':
            return '{http://www.w3.org/XML/1998/namespace}' + local
        return '{%s}%s' % (NS[prefix], local)
    return name


UNQ = {uri: prefix for prefix, uri in NS.items()}


def unq(tag):
    if not isinstance(tag, str):
        return '#' + getattr(tag, '__name__', str(tag))
    if tag.startswith('{'):
        uri, local = tag[1:].split('}', 1)
        return '%s:%s' % (UNQ.get(uri, uri), local)
    return tag


MIME = {
    'odt': 'application/vnd.oasis.opendocument.text',
    'ott': 'application/vnd.oasis.opendocument.text-template',
    'odg': 'application/vnd.oasis.opendocument.graphics',
    'otg': 'application/vnd.oasis.opendocument.graphics-template',
    'odp': 'application/vnd.oasis.opendocument.presentation',
    'otp': 'application/vnd.oasis.opendocument.presentation-template',
    'ods': 'application/vnd.oasis.opendocument.spreadsheet',
    'ots': 'application/vnd.oasis.opendocument.spreadsheet-template',
    'odc': 'application/vnd.oasis.opendocument.chart',
    'otc': 'application/vnd.oasis.opendocument.chart-template',
    'odi': 'application/vnd.oasis.opendocument.image',
    'oti': 'application/vnd.oasis.opendocument.image-template',
    'odm': 'application/vnd.oasis.opendocument.text-master',
    'oth': 'application/vnd.oasis.opendocument.text-web',
}
BODYTAG = {
    'odt': 'office:text', 'ott': 'office:text', 'odm': 'office:text', 'oth': 'office:text',
    'odg': 'office:drawing', 'otg': 'office:drawing',
    'odp': 'office:presentation', 'otp': 'office:presentation',
    'ods': 'office:spreadsheet', 'ots': 'office:spreadsheet',
    'odc': 'office:chart', 'otc': 'office:chart',
    'odi': 'office:image', 'oti': 'office:image',
}
TEMPLATE_OF = {'ott': 'odt', 'otg': 'odg', 'otp': 'odp', 'ots': 'ods', 'otc': 'odc', 'oti': 'odi'}


# ------------------------------------------------------------ elements from data
# element data: [tag, {attr: value}, text, [children], tail]
# comment: ['#comment', {}, text, [], tail];  processing instruction: ['#pi', {'target': t}, text, [], tail]

def E(tag, attrs=None, text=None, children=(), tail=None):
    return [tag, dict(attrs or {}), text, list(children), tail]


def build(data, nsmap=None):
    tag, attrs, text, children, tail = data
    if tag == '#comment':
        node = etree.Comment(text or '')
    elif tag == '#pi':
        node = etree.ProcessingInstruction(attrs.get('target', 'pi'), text or None)
    else:
        node = etree.Element(Q(tag), nsmap=nsmap if nsmap is not None else NS)
        for k, v in attrs.items():
            node.set(Q(k), v)
        node.text = text or None
        for c in children:
            node.append(build(c, {}))
    node.tail = tail or None
    return node


def data_of(node):
    """lxml element -> element data (with None for empty text)"""
    if node.tag is etree.Comment:
        return ['#comment', {}, node.text or None, [], node.tail or None]
    if node.tag is etree.ProcessingInstruction:
        return ['#pi', {'target': node.target}, node.text or None, [], node.tail or None]
    if not isinstance(node.tag, str):
        return ['#' + str(node.tag), {}, node.text, [], node.tail or None]
    return [unq(node.tag), {unq(k): v for k, v in node.attrib.items()},
            node.text or None, [data_of(c) for c in node], node.tail or None]


def canon(node, tail=False):
    """Canonical form: nested tuples, attribute order and prefixes do not matter."""
    if not isinstance(node.tag, str):
        head = ('#' + getattr(node.tag, '__name__', '?'), (getattr(node, 'target', None),),
                node.text or '', ())
    else:
        head = (node.tag, tuple(sorted(node.attrib.items())), node.text or '',
                tuple(canon(c, True) for c in node))
    return head + ((node.tail or '') if tail else '',)


KEYS = frozenset([Q('text:protection-key'), Q('table:protection-key')])


def canon_run(node):
    """canon() for the comparison of two runs: the library makes random protection keys."""
    def mask(c):
        attrs = c[1]
        if any(a and a[0] in KEYS for a in attrs):
            attrs = tuple((a[0], 'key') if a[0] in KEYS else a for a in attrs)
        return (c[0], attrs, c[2], tuple(mask(k) for k in c[3]), c[4])
    return mask(canon(node))


def canon_xml(blob):
    return canon(etree.fromstring(blob))


def first_difference(a, b, path=''):
    """Human-readable first difference of two canonical trees."""
    if a == b:
        return None
    if a is None or b is None:
        return '%s: %s vs %s' % (path or '/', _brief(a), _brief(b))
    here = '%s/%s' % (path, unq(a[0]) if a[0][:1] != '#' else a[0])
    if a[0] != b[0]:
        return '%s: element %s vs %s' % (here, unq(a[0]), unq(b[0]))
    if a[1] != b[1]:
        return '%s: attributes %r vs %r' % (here, a[1], b[1])
    if a[2] != b[2]:
        return '%s: text %r vs %r' % (here, a[2][:200], b[2][:200])
    for i, (x, y) in enumerate(zip(a[3], b[3])):
        d = first_difference(x, y, '%s[%d]' % (here, i))
        if d:
            return d
    if len(a[3]) != len(b[3]):
        longer = a[3] if len(a[3]) > len(b[3]) else b[3]
        return '%s: %d vs %d children, first extra %s' % (
            here, len(a[3]), len(b[3]), _brief(longer[min(len(a[3]), len(b[3]))]))
    if a[4] != b[4]:
        return '%s: tail %r vs %r' % (here, a[4][:200], b[4][:200])
    return '%s: differ' % here


def _brief(t):
    if t is None:
        return None
    return '<%s %r>%r' % (unq(t[0]) if t[0][:1] != '#' else t[0], t[1], t[2][:60])


def require_same(a, b, what):
    if a != b:
        raise Violation('%s: %s' % (what, first_difference(a, b)))


# ------------------------------------------------------------ packages

def serialise(node_or_data, declaration=True):
    node = build(node_or_data) if isinstance(node_or_data, list) else node_or_data
    return etree.tostring(node, encoding='UTF-8', xml_declaration=declaration)


def manifest_data(entries):
    """entries: [[full-path, media-type], ...]"""
    return E('manifest:manifest', {}, None,
             [E('manifest:file-entry', {'manifest:full-path': p, 'manifest:media-type': m})
              for p, m in entries])


def zip_bytes(members):
    """members: [(name, bytes, compress?)] in order"""
    buf = io.BytesIO()
    with zipfile.ZipFile(buf, 'w') as z:
        for name, blob, compress in members:
            zi = zipfile.ZipInfo(name, (2011, 2, 3, 4, 5, 6))
            zi.compress_type = zipfile.ZIP_DEFLATED if compress else zipfile.ZIP_STORED
            zi.external_attr = 0o644 << 16
            z.writestr(zi, blob)
    return buf.getvalue()


def content_data(doctype, body_children, before=(), body_attrs=None):
    """office:document-content element"""
    return E('office:document-content', {'office:version': '1.2'}, None,
             list(before) + [E('office:body', {}, None,
                               [E(BODYTAG[doctype], body_attrs or {}, None, body_children)])])


def package(doctype, content=None, styles=None, meta=None, extra=(), mimetype=True,
            manifest=None, root_entry=True, drop=(), order=None, compress_mimetype=False):
    """Bytes of a package. content/styles/meta: element data (None -> minimal)."""
    if content is None:
        content = content_data(doctype, [])
    if styles is None:
        styles = E('office:document-styles', {'office:version': '1.2'})
    if meta is None:
        meta = E('office:document-meta', {'office:version': '1.2'}, None,
                 [E('office:meta', {}, None, [])])
    members = []
    if mimetype:
        members.append(('mimetype', (mimetype if isinstance(mimetype, str) else MIME[doctype]).encode(),
                        compress_mimetype))
    parts = [('content.xml', content), ('styles.xml', styles), ('meta.xml', meta)]
    for name, data in parts:
        if name not in drop:
            members.append((name, serialise(data), True))
    for name, blob in extra:
        members.append((name, blob, True))
    if 'META-INF/manifest.xml' not in drop:
        if manifest is None:
            entries = [['/', MIME[doctype]]] if root_entry else []
            entries += [[m[0], 'text/xml' if m[0].endswith('.xml') else '']
                        for m in members if m[0] != 'mimetype']
            manifest = manifest_data(entries)
        members.append(('META-INF/manifest.xml', serialise(manifest), True))
    if order is not None:
        head = members[:1] if mimetype else []
        rest = members[len(head):]
        rest = [m for _, m in sorted(zip(order + [0] * len(rest), rest), key=lambda p: p[0])]
        members = head + rest
    return zip_bytes(members)


class Package(object):
    """Strict reader of a written package."""

    def __init__(self, blob):
        self.blob = blob
        try:
            z = zipfile.ZipFile(io.BytesIO(blob))
        except zipfile.BadZipFile as e:
            raise Violation('not a zip file: %s' % e)
        with z:
            self.infos = z.infolist()
            self.names = [i.filename for i in self.infos]
            bad = z.testzip()
            if bad is not None:
                raise Violation('bad checksum of member %r' % bad)
            self.members = {i.filename: z.read(i) for i in self.infos}

    def xml(self, name):
        if name not in self.members:
            raise Violation('member %s is missing' % name)
        try:
            return etree.fromstring(self.members[name])
        except etree.XMLSyntaxError as e:
            raise Violation('%s is not well-formed: %s' % (name, e))

    def manifest(self):
        root = self.xml('META-INF/manifest.xml')
        return [(e.get(Q('manifest:full-path')), e.get(Q('manifest:media-type')))
                for e in root.findall(Q('manifest:file-entry'))]


def local_header(blob):
    """(name, method, extra length, data) of the first member, from the raw bytes"""
    if len(blob) < 30:
        raise Violation('zip file too short')
    sig, ver, flags, method, t, d, crc, csize, usize, nlen, xlen = struct.unpack('<IHHHHHIIIHH', blob[:30])
    if sig != 0x04034b50:
        raise Violation('file does not start with a zip local header')
    name = blob[30:30 + nlen]
    start = 30 + nlen + xlen
    return name, method, xlen, flags, blob[start:start + usize], crc


def check_container(blob, mimetype):
    """The container rules of ODF 1.2 part 3 for a written package."""
    name, method, xlen, flags, data, crc = local_header(blob)
    if name != b'mimetype':
        raise Violation('first member is %r, not mimetype' % name)
    if method != 0:
        raise Violation('mimetype member is compressed')
    if xlen != 0:
        raise Violation('mimetype member has an extra field')
    if data != mimetype.encode('ascii'):
        raise Violation('mimetype member contains %r instead of %r' % (data, mimetype))
    if zlib.crc32(data) & 0xffffffff != crc:
        raise Violation('checksum of the mimetype member is wrong')
    p = Package(blob)
    dup = sorted(set(n for n in p.names if p.names.count(n) > 1))
    if dup:
        raise Violation('members %r exist more than once' % dup)
    for part, root in (('content.xml', 'office:document-content'), ('styles.xml', 'office:document-styles'),
                       ('meta.xml', 'office:document-meta'), ('META-INF/manifest.xml', 'manifest:manifest')):
        tag = p.xml(part).tag
        if tag != Q(root):
            raise Violation('root element of %s is %s' % (part, unq(tag)))
    return p
