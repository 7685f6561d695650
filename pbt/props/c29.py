"""C29: damaged and unsupported packages are rejected when they are opened, and only those."""
import copy
import gc
import io
import os
import zipfile

from lxml import etree

import docs
import odf
from core import Violation, check, same, short
from odf import E, MIME, Q, canon

RULE = ('A case is a generated package or flat XML document and up to three pieces of damage: bytes of a managed part changed, removed, '
        'inserted or cut off, a part emptied, exchanged with another part or given another root, another media type, or bytes of the zip '
        'container changed, cut or zeroed. A reference reader made of zipfile and the XML parser says whether the library has to '
        'reject the package or has to open it, and with which content. Non-trivial: the package was damaged, and has to be rejected or '
        'has a content differing from that of the undamaged package.')
ASSUME = ['any exception counts as a rejection', 'a missing content.xml, styles.xml, meta.xml or META-INF/manifest.xml, and a zero-length '
          'content.xml, styles.xml or meta.xml, is not damage: ezodf opens such packages',
          'formula documents and a meta.xml with the root of a flat document are not judged',
          'what becomes of damaged members the library does not manage is decided by C04']
BUDGET = {'quick': 9000, 'thorough': 90000}
PARTS = ['content.xml', 'styles.xml', 'meta.xml', 'META-INF/manifest.xml']
ROOTS = {'content.xml': Q('office:document-content'), 'styles.xml': Q('office:document-styles'),
         'meta.xml': Q('office:document-meta')}
BYTES = [0x3c, 0x3e, 0x26, 0x22, 0x27, 0x2f, 0x78, 0x20, 0x00, 0xff, 0x3a, 0x3d, 0x0a, 0xc3, 0x37, 0x2d, 0x21, 0x3f]
JUNK = ['junk', '<a>', '</a>', '<a/>', '&x;', '&amp;', '&#0;', '&#65;', ']]>', '\x00', '<!--', '-->', '<!-- c -->', '<', '>', '&', ' ', '\n', '"',
        '<?xml version="1.0"?>', '<?p d?>', '\xff', '\xc3\x28', '\xef\xbb\xbf', ' a="1"', ' a="1" a="2"', 'q:', '<q:a/>', '\x1b']
TAGS = ['office:document-content', 'office:document-styles', 'office:document-meta', 'office:document-settings', 'office:document',
        'manifest:manifest', 'x:document-content', 'office:document-Content', 'office:body', 'office:meta']
SUPPORTED = dict((m, t) for t, m in MIME.items())
FORMULA = ('application/vnd.oasis.opendocument.formula', 'application/vnd.oasis.opendocument.formula-template')
ROUTES = ['path', 'bytes', 'stream']


def strategy(profile):
    from hypothesis import strategies as st
    import gen
    s = docs.strategies()
    part = st.sampled_from(PARTS + ['content.xml', 'content.xml'])
    at = st.one_of(st.integers(0, 10 ** 6), st.sampled_from([0, 1, 2, -1, -2, -3]), st.integers(0, 60), st.integers(-60, -1))
    near = st.one_of(st.integers(0, 80), st.integers(-12, 0))
    byte = st.one_of(st.sampled_from(BYTES), st.integers(0, 255))
    mime = st.one_of(
        st.sampled_from(sorted(MIME.values())), st.sampled_from(sorted(MIME.values())).map(lambda m: m + '\n'), st.sampled_from(sorted(MIME.values())).map(lambda m: ' ' + m),
        st.sampled_from(sorted(MIME.values())).map(lambda m: m + '-template'), st.sampled_from(sorted(MIME.values())).map(lambda m: m[:-1]),
        st.sampled_from(sorted(MIME.values())).map(str.upper), st.sampled_from(['', '-template', 'odt', '.ods', 'application/zip', 'text/xml', '\xff\xfe', '\xc3\xa4', 'application/x-vnd.oasis.opendocument.text',
                         'application/vnd.sun.xml.writer', 'application/vnd.oasis.opendocument.database', 'application/vnd.oasis.opendocument.base'] + list(FORMULA)))
    damage = gen.choice(
        (4, gen.op('insert', part, at, st.sampled_from(JUNK))), (4, gen.op('byte', part, at, byte)), (4, gen.op('delete', part, at, st.integers(1, 12))),
        (3, gen.op('cut', part, at)), (2, gen.op('root', part, st.sampled_from(TAGS))), (2, gen.op('barename', part)),
        (1, gen.op('swap', part, part)), (1, gen.op('copy', part, part)), (1, gen.op('empty', part)), (1, gen.op('blank', part, st.sampled_from([' ', '\n', '\x00', '   \n', '<!-- c -->']))),
        (1, gen.op('twice', part)), (1, gen.op('drop', st.sampled_from(PARTS + ['mimetype']))), (1, gen.op('charset', part, st.sampled_from(['ascii', 'bogus', 'utf-16', 'utf-32', 'ISO-8859-1', 'utf-8']))),
        (3, gen.op('mimetype', mime)), (2, gen.op('insert', st.just('mimetype'), near, st.sampled_from(JUNK))), (1, gen.op('byte', st.just('mimetype'), near, byte)), (1, gen.op('delete', st.just('mimetype'), near, st.integers(1, 12))), (1, gen.op('rootentry', mime)), (2, gen.op('onlyentry', mime)), (2, gen.op('insert', part, st.sampled_from([0, -1]), st.sampled_from(JUNK))),
        (2, gen.op('zbyte', at, byte)), (2, gen.op('zcut', at)), (2, gen.op('zzero', at, st.integers(1, 60))), (1, gen.op('zgrow', at, st.sampled_from(JUNK))),
        (2, gen.op('crc', part)))
    return st.fixed_dictionaries({
        'doc': s.doc(sorted(MIME), True, 2), 'flat': st.sampled_from([False] * 5 + [True]),
        'damage': gen.choice((1, st.just([])), (12, damage.map(lambda d: [d])), (2, st.lists(damage, min_size=2, max_size=3))),
        'pad': gen.choice((30, st.just(['none', 0])), (1, st.tuples(st.sampled_from(['text', 'attr', 'nodes', 'member', 'entries']), st.sampled_from(
            [5000, 70000, 140000] + ([1100000] if profile['big'] else []))).map(list)), (1, st.tuples(st.just('deep'), st.sampled_from([60, 130, 200, 240])).map(list))),
        'ext': st.sampled_from(['', '', '.ods', '.odt', '.ott', '.zip', '.ODT', 'odt', '.odf.bak', '.tar.odp'])})


def with_pad(case):
    """the document of the case, with something large in it"""
    d, (kind, n) = case['doc'], case.get('pad') or ['none', 0]
    letters = lambda k: ''.join(chr(97 + (i * i * 31 + i * 7 + i // 26) % 26) for i in range(k))
    if kind == 'text':
        extra = [E('x:leaf', {}, letters(n))]
    elif kind == 'attr':
        extra = [E('x:leaf', {'x:a': letters(n)}, None)]
    elif kind == 'nodes':
        extra = [E('x:block', {}, None, [E('x:leaf', {'x:n': str(i)}, None) for i in range(n // 20)])]
    elif kind == 'deep':
        node = E('x:leaf', {}, 'x')
        for i in range(n):
            node = E('x:block', {}, None, [node])
        extra = [node]
    elif kind == 'member':
        return dict(d, extra=d['extra'] + [['Pictures/large.bin', letters(n), True]])
    elif kind == 'entries':
        return dict(d, manifest=d['manifest'] + [['Pictures/%d.png' % i, 'image/png', {}, []] for i in range(n // 60)])
    else:
        return d
    return dict(d, before=[e for e in d['before']] + extra)


# ------------------------------------------------------------ damage

def place(at, n):
    return at % (n + 1) if at >= 0 else max(0, n + 1 + at)


def hurt(blob, op, args):
    if op == 'insert':
        i = place(args[0], len(blob))
        return blob[:i] + args[1].encode('latin-1') + blob[i:]
    if op == 'byte':
        i = place(args[0], len(blob) - 1) if blob else 0
        return blob[:i] + bytes([args[1]]) + blob[i + 1:]
    if op == 'delete':
        i = place(args[0], len(blob))
        return blob[:i] + blob[i + args[1]:]
    if op == 'cut':
        return blob[:place(args[0], len(blob))]
    if op == 'empty':
        return b''
    if op == 'blank':
        return args[0].encode('latin-1')
    if op == 'twice':
        return blob + blob
    if op == 'charset':
        head = blob.split(b'?>', 1)
        if len(head) == 2 and head[0].startswith(b'<?xml'):
            blob = head[1]
        return b'<?xml version="1.0" encoding="%s"?>' % args[0].encode() + blob
    if op in ('root', 'barename'):
        try:
            root = etree.XML(blob)
        except etree.XMLSyntaxError:
            return blob
        root.tag = Q(args[0]) if op == 'root' else etree.QName(root).localname
        return etree.tostring(root, encoding='UTF-8', xml_declaration=True)
    raise AssertionError(op)


def damaged(case):
    """(bytes of the package, container was damaged)"""
    blob = docs.package(with_pad(case))
    with zipfile.ZipFile(io.BytesIO(blob)) as z:
        infos = [(i, z.read(i.filename)) for i in z.infolist()]
    names = [i.filename for i, _ in infos]
    data = dict((i.filename, b) for i, b in infos)
    crc = []
    touched = False
    zipped = []
    for d in case['damage']:
        op, args = d[0], d[1:]
        if op[0] == 'z':
            zipped.append(d)
            continue
        touched = True
        if op == 'crc':
            crc.append(args[0])
        elif op == 'drop':
            data.pop(args[0], None)
        elif op == 'mimetype':
            data['mimetype'] = args[0].encode('latin-1')
        elif op in ('rootentry', 'onlyentry'):
            if op == 'onlyentry':
                data.pop('mimetype', None)
            data['META-INF/manifest.xml'] = odf.serialise(odf.manifest_data([('/', args[0] if args[0].isascii() else 'x')]))
        elif op in ('swap', 'copy'):
            a, b = args
            if a in data and b in data:
                data[a], data[b] = data[b], (data[a] if op == 'swap' else data[b])
        elif args[0] in data:
            data[args[0]] = hurt(data[args[0]], op, args[1:])
    if touched:
        buf = io.BytesIO()
        with zipfile.ZipFile(buf, 'w') as z:
            for name in (['mimetype'] if 'mimetype' not in names else []) + names:
                if name in data:
                    zi = zipfile.ZipInfo(name, (2011, 2, 3, 4, 5, 6))
                    zi.compress_type = zipfile.ZIP_STORED if name in crc or name == 'mimetype' else zipfile.ZIP_DEFLATED
                    z.writestr(zi, data[name])
        blob = buf.getvalue()
        for name in crc:   # one byte of the stored part is changed behind the back of the checksum
            if data.get(name):
                i = blob.find(data[name])
                if i >= 0:
                    k = i + len(data[name]) // 2
                    blob = blob[:k] + bytes([blob[k] ^ 1]) + blob[k + 1:]
    for d in zipped:
        op, args = d[0], d[1:]
        i = place(args[0], len(blob) - 1) if blob else 0
        if op == 'zbyte':
            blob = blob[:i] + bytes([args[1]]) + blob[i + 1:]
        elif op == 'zcut':
            blob = blob[:i]
        elif op == 'zzero':
            blob = blob[:i] + b'\x00' * len(blob[i:i + args[1]]) + blob[i + args[1]:]
        else:
            blob = blob[:i] + args[1].encode('latin-1') + blob[i:]
    return blob, bool(zipped)


# ------------------------------------------------------------ reference reader

class Refused(Exception):
    pass


class Unjudged(Exception):
    pass


def parse(blob, what):
    try:
        return etree.XML(blob)
    except Exception as e:
        raise Refused('%s is not well-formed: %s' % (what, e))


class Reference(object):
    def __init__(self, blob):
        self.refused = self.unjudged = None
        self.parts = {}
        self.rest = {}
        self.restbroken = False
        self.media = None        # media type of the package, None: to be taken from the file name
        try:
            self.read(blob)
        except Refused as e:
            self.refused = str(e)
        except Unjudged as e:
            self.unjudged = str(e)

    def read(self, blob):
        if not zipfile.is_zipfile(io.BytesIO(blob)):
            raise Refused('not a zip package')
        try:
            z = zipfile.ZipFile(io.BytesIO(blob))
        except Exception as e:
            raise Refused('zip directory: %r' % e)
        with z:
            raw = {}
            for name in PARTS + ['mimetype']:
                try:
                    raw[name] = z.read(name)
                except KeyError:
                    pass
                except Exception as e:
                    raise Refused('%s cannot be read: %r' % (name, e))
            for name in z.namelist():
                if name not in raw:
                    try:
                        self.rest[name] = z.read(name)
                    except Exception:
                        self.restbroken = True
            if len(set(z.namelist())) != len(z.namelist()):
                self.restbroken = True
        if 'META-INF/manifest.xml' in raw:
            self.parts['META-INF/manifest.xml'] = parse(raw['META-INF/manifest.xml'], 'the manifest')
        if 'mimetype' in raw:
            try:
                self.media = raw['mimetype'].decode('utf-8')
            except UnicodeDecodeError:
                raise Refused('mimetype is not text')
        elif 'META-INF/manifest.xml' in self.parts:
            for e in self.parts['META-INF/manifest.xml']:
                if e.get(Q('manifest:full-path')) == '/':
                    self.media = e.get(Q('manifest:media-type'))
                    if self.media is None:
                        raise Refused('the package has no media type')
                    break
        for name in ('content.xml', 'styles.xml', 'meta.xml'):
            if raw.get(name):
                root = self.parts[name] = parse(raw[name], name)
                if name == 'meta.xml' and root.tag == Q('office:document'):
                    raise Unjudged('root of meta.xml')
                if root.tag != ROOTS[name]:
                    raise Refused('%s has the root %s' % (name, root.tag))

    def decide(self, filename, template):
        """(type, reason of the rejection)"""
        if self.refused:
            return None, self.refused
        media = self.media
        if media is None:
            ext = os.path.splitext(filename)[1].lstrip('.') if filename else ''
            if ext in ('odf', 'otf'):
                raise Unjudged('formula')
            if ext not in MIME:
                return None, 'no media type'
            media = MIME[ext]
        if template and media.endswith('-template'):
            media = media[:-9]
        if media in FORMULA:
            raise Unjudged('formula')
        if media not in SUPPORTED:
            return None, 'media type %r' % media
        return SUPPORTED[media], None


def neutral(meta):
    """a meta.xml without office:meta gets what a new document has"""
    meta.attrib.pop('{http://www.w3.org/2003/g/data-view#}transformation', None)
    node = meta.find(Q('office:meta'))
    if node is not None:
        for tag in ('meta:creation-date', 'dc:date', 'meta:generator', 'meta:document-statistic', 'meta:editing-cycles'):
            for e in node.findall(Q(tag)):
                node.remove(e)
        if docs.is_empty(node):
            docs.detach(node)


def compare_manifest(src, out, what):
    """all entries of the source in their order, even if the damage gave two of them one path"""
    path = Q('manifest:full-path')
    managed = ('mimetype', 'content.xml', 'styles.xml', 'meta.xml', '/')

    def entries(root, skip=()):
        return [(e.tag, tuple(sorted((k, v) for k, v in e.attrib.items() if k != Q('manifest:media-type') or e.get(path) not in managed)),
                 e.text or '', tuple(canon(c, True) for c in e)) for e in root if isinstance(e.tag, str) and e.get(path) not in skip]
    had = [e.get(path) for e in src if isinstance(e.tag, str)]
    same(entries(out, [p for p in managed if p not in had]), entries(src), what + ': manifest entries')
    same((out.tag, dict(out.attrib)), (src.tag, dict(src.attrib)), what + ': manifest')


def compare(ref, doc, doctype, what):
    """the open document has what the parts of the package say"""
    if 'content.xml' in ref.parts:
        docs.compare_content(copy.deepcopy(ref.parts['content.xml']), copy.deepcopy(doc.content.xmlnode), doctype, what + ': content.xml')
    if 'styles.xml' in ref.parts:
        docs.compare_styles(copy.deepcopy(ref.parts['styles.xml']), copy.deepcopy(doc.styles.xmlnode), what + ': styles.xml')
    if 'meta.xml' in ref.parts:
        src, out = copy.deepcopy(ref.parts['meta.xml']), copy.deepcopy(doc.meta.xmlnode)
        if src.find(Q('office:meta')) is None:
            neutral(out)
            neutral(src)
            docs.same_tree(src, out, what + ': meta.xml')
        else:
            docs.compare_meta(src, out, what + ': meta.xml')
    if 'META-INF/manifest.xml' in ref.parts:
        compare_manifest(ref.parts['META-INF/manifest.xml'], doc.filemanager.manifest.xmlnode, what)


# ------------------------------------------------------------ cases

def fds():
    return len(os.listdir('/proc/self/fd'))


def listing(folder):
    out = {}
    for n in sorted(os.listdir(folder)):
        with open(os.path.join(folder, n), 'rb') as fp:
            out[n] = fp.read()
    return out


def attempt(func, *args):
    try:
        return func(*args), None
    except Exception as e:
        return None, '%s: %s' % (type(e).__name__, short(str(e)))


def state(doc):
    return canon(doc.content.xmlnode), canon(doc.styles.xmlnode), canon(doc.filemanager.manifest.xmlnode)


def run_case(case, ctx):
    if case['flat']:
        return run_flat(case, ctx)
    import ezodf
    folder = ctx.tmpdir()
    whole = docs.package(with_pad(case))
    blob, container = damaged(case)
    ext = case['ext'] or '.' + case['doc']['type']
    path = os.path.join(folder, 'package' + ext)
    with open(path, 'wb') as fp:
        fp.write(blob)
    files = listing(folder)
    ref = Reference(blob)
    if ref.unjudged:
        ctx.note('unjudged: ' + ref.unjudged)
        return
    bystander = ezodf.newdoc('odt')
    bystander.body.append(ezodf.Paragraph('text'))
    before = state(bystander)
    opened = fds()
    outcome = None
    for template in (False, True):
        for route in ROUTES:
            source = path if route == 'path' else blob if route == 'bytes' else io.BytesIO(blob)
            what = ('%s from %s' % ('template' if template else 'document', route))
            try:
                doctype, reason = ref.decide(path if route == 'path' else None, template)
            except Unjudged as e:
                ctx.note('unjudged: %s' % e)
                continue
            if template:
                doc, error = attempt(ezodf.newdoc, 'odt', os.path.join(folder, 'new.odt'), source)
            else:
                doc, error = attempt(ezodf.opendoc, source)
            ctx.step()
            if reason is not None:
                check(doc is None, '%s was opened although it has to be rejected: %s', what, reason)
                outcome = outcome or 'rejected: ' + ''.join(c for c in reason.split(' ')[0] if c.isalnum() or c in './-')
            else:
                check(doc is not None, '%s was rejected with %s although all of its parts are sound', what, error)
                same((doc.doctype, doc.mimetype), (doctype, MIME[doctype]), what + ': type')
                check(fds() <= opened, '%s: a file stays open: %s, were %s', what, fds(), opened)
                compare(ref, doc, doctype, what)
                if not container and not ref.restbroken and (route == 'bytes') != template:
                    out, error = attempt(doc.tobytes)
                    check(out is not None, '%s cannot be exported: %s', what, error)
                    got = odf.Package(out)
                    for name, data in ref.rest.items():
                        check(got.members.get(name) == data, '%s: member %s changed', what, name)
                    if 'content.xml' in ref.parts:
                        docs.compare_content(copy.deepcopy(ref.parts['content.xml']), got.xml('content.xml'), doctype, what + ', exported')
                outcome = 'opened'
            doc = out = got = None
    if listing(folder) != files:
        raise Violation('opening changed the directory: %s, was %s' % (sorted(listing(folder)), sorted(files)))
    if fds() > opened:
        gc.collect()
    check(fds() <= opened, 'files stay open: %s, were %s', fds(), opened)
    same(state(bystander) == before, True, 'another open document is unchanged')
    # the same file with its sound content is opened afterwards
    sound = Reference(whole)
    with open(path, 'wb') as fp:
        fp.write(whole)
    try:
        doctype, reason = sound.decide(path, False)
    except Unjudged:
        doctype = None
    if doctype is not None:
        doc, error = attempt(ezodf.opendoc, path)
        check(doc is not None, 'the undamaged package was rejected with %s', error)
        compare(sound, doc, doctype, 'the undamaged package')
    ctx.note(outcome or 'unjudged')
    if case['damage']:
        ctx.note('damage: ' + case['damage'][0][0])
    if case['damage'] and outcome:
        changed = outcome != 'opened' or any(
            n not in sound.parts or n not in ref.parts or canon(sound.parts[n]) != canon(ref.parts[n])
            for n in PARTS if n in sound.parts or n in ref.parts) or sound.media != ref.media or sound.rest != ref.rest
        ctx.nontrivial(changed)


def run_flat(case, ctx):
    import ezodf
    d = case['doc']
    kids = [E('office:meta', {}, None, d['meta'] or []), E('office:styles', {}, None, [])]
    root = E('office:document', {'office:version': '1.2', 'office:mimetype': MIME[d['type']]}, None, kids + [
        E('office:body', {}, None, [E(odf.BODYTAG[d['type']], d.get('bodyattrs'), None, d['body'])])])
    whole = blob = docs.encode(root, (d.get('feature') or {}).get('encoding'))
    for x in case['damage']:
        op, args = x[0], x[1:]
        if op in ('insert', 'byte', 'delete', 'cut', 'empty', 'blank', 'twice', 'charset', 'root', 'barename'):
            blob = hurt(blob, op, args[1:])
        elif op == 'zcut':
            blob = hurt(blob, 'cut', args)
        elif op == 'zbyte':
            blob = hurt(blob, 'byte', args)
        elif op == 'zgrow':
            blob = hurt(blob, 'insert', args)
        elif op == 'zzero':
            blob = hurt(blob, 'delete', args)
        elif op in ('mimetype', 'rootentry', 'onlyentry', 'drop'):
            try:
                node = etree.XML(blob)
            except etree.XMLSyntaxError:
                continue
            if op == 'drop':
                node.attrib.pop(Q('office:mimetype'), None)
            else:
                try:
                    node.set(Q('office:mimetype'), args[0])
                except ValueError:
                    continue
            blob = etree.tostring(node, encoding='UTF-8', xml_declaration=True)
    folder = ctx.tmpdir()
    path = os.path.join(folder, 'flat.fodt')
    with open(path, 'wb') as fp:
        fp.write(blob)
    files = listing(folder)
    reason = doctype = None
    try:
        node = parse(blob, 'the file')
        media = node.get(Q('office:mimetype'))
        if node.tag != Q('office:document'):
            raise Refused('root %s' % node.tag)
        if media in FORMULA:
            return ctx.note('unjudged: formula')
        if media not in SUPPORTED:
            raise Refused('media type %r' % media)
        doctype = SUPPORTED[media]
    except Refused as e:
        reason = str(e)
    opened = fds()
    doc, error = attempt(ezodf.opendoc, path)
    ctx.step()
    if reason:
        check(doc is None, 'the flat document was opened although it has to be rejected: %s', reason)
        ctx.note('flat rejected')
    else:
        check(doc is not None, 'the flat document was rejected with %s although it is sound', error)
        same((doc.doctype, doc.mimetype), (doctype, MIME[doctype]), 'type of the flat document')
        src, out = node.find(Q('office:body')), copy.deepcopy(doc.xmlnode.find(Q('office:body')))
        if src is not None and src.find(Q(odf.BODYTAG[doctype])) is not None:
            src, out = [x.find(Q(odf.BODYTAG[doctype])) for x in (copy.deepcopy(src), out)]
            check(out is not None, 'the flat document has no body')
            docs.drop_added(src, out, ['text:variable-decls', 'text:user-field-decls'], 'flat document')
            check(canon(src) == canon(out), 'the body of the flat document changed: %s', odf.first_difference(canon(out), canon(src)))
        ctx.note('flat opened')
    same(listing(folder) == files, True, 'the directory is unchanged')
    doc = None
    if fds() > opened:
        gc.collect()
    check(fds() <= opened, 'files stay open: %s, were %s', fds(), opened)
    ctx.nontrivial(blob != whole)
