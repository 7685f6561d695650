"""C12: text objects keep their attributes as documented."""
import os
import re

import odf
from core import Violation, check, raises, same
from odf import Q, canon, etree, unq

RULE = ('A case is a group of text objects (created with constructor arguments, or loaded from XML), a history of '
        'attribute reads and writes, header and item operations and a save route; after every step all attributes of all '
        'objects are compared with the model; non-trivial: at least four writes to at least two attributes.')
ASSUME = ['XML-illegal characters are excluded', 'protection keys are random: only their characters and length are judged',
          'target frame names are not empty']
BUDGET = {'quick': 16400, 'thorough': 300000}
S, B, LEVEL, START, NUM, FRAME = 'string', 'bool', 'level', 'start', 'number', 'frame'
SPAN = {'style_name': S}
CLASSES = {
    'Span': SPAN,
    'Paragraph': dict(SPAN, cond_style_name=S, ID=S),
    'Heading': dict(SPAN, outline_level=LEVEL, restart_numbering=B, suppress_numbering=B, start_value=START, formatted_number=NUM),
    'Hyperlink': dict(SPAN, name=S, href=S, target_frame=FRAME),
    'List': {'style_name': S, 'continue_numbering': B},
    'ListItem': {'start_value': START, 'formatted_number': NUM},
    'ListHeader': {},
    'Section': {'style_name': S, 'name': S, 'protected': B},
    'NumberedParagraph': {'level': LEVEL, 'start_value': START, 'formatted_number': NUM},
}
XMLNAME = {
    ('Span', 'style_name'): 'text:style-name', ('Paragraph', 'style_name'): 'text:style-name', ('Heading', 'style_name'): 'text:style-name',
    ('Hyperlink', 'style_name'): 'text:style-name', ('List', 'style_name'): 'text:style-name', ('Section', 'style_name'): 'text:style-name',
    ('Paragraph', 'cond_style_name'): 'text:cond-style-name', ('Paragraph', 'ID'): 'text:id',
    ('Heading', 'outline_level'): 'text:outline-level', ('Heading', 'restart_numbering'): 'text:restart-numbering',
    ('Heading', 'suppress_numbering'): 'text:is-list-header', ('Heading', 'start_value'): 'text:start-value',
    ('Hyperlink', 'name'): 'office:name', ('Hyperlink', 'href'): 'xlink:href', ('Hyperlink', 'target_frame'): 'office:target-frame-name',
    ('List', 'continue_numbering'): 'text:continue-numbering', ('ListItem', 'start_value'): 'text:start-value',
    ('Section', 'name'): 'text:name', ('Section', 'protected'): 'text:protected', ('NumberedParagraph', 'level'): 'text:level',
    ('NumberedParagraph', 'start_value'): 'text:start-value',
}
TAGS = {'Span': 'text:span', 'Paragraph': 'text:p', 'Heading': 'text:h', 'Hyperlink': 'text:a', 'List': 'text:list',
        'ListItem': 'text:list-item', 'ListHeader': 'text:list-header', 'Section': 'text:section',
        'NumberedParagraph': 'text:numbered-paragraph'}
DELETABLE = (S, B, LEVEL)


def strategy(profile):
    from hypothesis import strategies as st
    import gen
    kind = st.sampled_from(sorted(CLASSES))
    sval = st.one_of(gen.word(6), gen.text(8), st.sampled_from(['', '_blank', '_self', 'true', '0', 'a"b', 'http://x/?a=1&b=2']))
    number = st.one_of(st.integers(-3, 12), st.sampled_from([0, 1, 2, 10, 100, 2 ** 40]), st.sampled_from([1.9, '3', True]))
    val = {S: sval, B: st.sampled_from([True, False, 1, 0, 'x', '']), LEVEL: number, START: number,
           NUM: st.one_of(gen.word(4), st.sampled_from(['1.', '1.2.3', '', '#2', 7])),
           FRAME: st.one_of(st.sampled_from(['_blank', '_self', '_parent', '_top', 'frame', '_Blank', 'blank', 'my_blank', '_blank2', ' _blank', '_blank ', '_new']), gen.nonempty(6))}

    def obj(k):
        return st.fixed_dictionaries({
            'kind': st.just(k), 'text': st.one_of(st.just(''), gen.word(5)), 'new': gen.choice((3, st.just(True)), (1, st.just(False))),
            'init': st.fixed_dictionaries({}, optional={a: val[t] for a, t in CLASSES[k].items()}),
            'heading': st.sampled_from([None, 'p', 'h']), 'box': st.booleans()})

    def write(k):
        return st.sampled_from(sorted(CLASSES[k])).flatmap(
            lambda a: gen.op('write', st.just(k), st.integers(0, 3), st.just(a), val[CLASSES[k][a]]))
    i = st.integers(0, 4)

    def ops(kinds):
        writable = [k for k in kinds if CLASSES[k]] or ['Span']
        return gen.choice((14, st.sampled_from(writable).flatmap(write)), (2, gen.op('del', st.integers(0, 30))), (2, gen.op('text', i, gen.word(4))),
                    (3, gen.op('header', i, gen.word(4))), (2, gen.op('item', i, gen.word(4), st.sampled_from(['append', 'insert', 'comment', 'raw', 'nested', 'alien', 'late', 'front']))),
                    (2, gen.op('content', i)), (1, gen.op('badheader', i, st.sampled_from(['ListItem', 'Paragraph', 'None']))),
                    (1, gen.op('ownheader', i)))

    def objects(kinds):
        return st.fixed_dictionaries({
            'objects': st.tuples(*[obj(k) for k in kinds]).map(list), 'lists': st.lists(lst, max_size=2),
            'ops': st.lists(ops(kinds), min_size=4, max_size=30 if profile['big'] else 16),
            'how': st.sampled_from(['bytes', 'path', 'flat'])})
    lst = st.fixed_dictionaries({'items': st.lists(st.one_of(gen.word(5), gen.text(6)), max_size=5),
                                 'header': st.sampled_from(['', 'head']), 'style': st.sampled_from(['', 'L1']), 'iter': st.booleans()})
    return st.lists(kind, min_size=2, max_size=5).flatmap(objects)


def shown(t, v):
    """value read after v was written"""
    if t == B:
        return bool(v)
    if t in (LEVEL, START):
        return max(1, int(v))
    if t == NUM:
        return str(v)
    return v


def default(t):
    return {B: False, LEVEL: 1}.get(t)


class Obj(object):
    def __init__(self, kind, wrapper, attrs, text):
        self.kind, self.w, self.attrs, self.text = kind, wrapper, attrs, text
        self.header, self.items, self.content, self.loaded = None, [], None, False


def create(o):
    import ezodf
    from ezodf.xmlns import wrap
    k, init, text = o['kind'], dict(o['init']), o['text']
    cls = getattr(ezodf.text, k)
    attrs = {a: default(t) for a, t in CLASSES[k].items()}
    if not o['new']:
        # from XML as another producer would write it
        node = etree.Element(Q(TAGS[k]))
        for a, v in init.items():
            t = CLASSES[k][a]
            name = XMLNAME.get((k, a))
            if t == NUM:
                e = etree.SubElement(node, Q('text:number'))
                e.text = str(v)
            elif t == B:
                node.set(Q(name), 'true' if v else 'false')
            elif t in (LEVEL, START):
                v = max(1, int(v)) if t == START else int(v)
                node.set(Q(name), str(v))
            else:
                node.set(Q(name), v)
            attrs[a] = shown(t, v)
        w = wrap(node)
        same(type(w).__name__, k, 'class of the loaded element')
        m = Obj(k, w, attrs, '')
        m.loaded = True       # with or without protection key
        if k == 'NumberedParagraph' and o['heading']:
            e = etree.SubElement(node, Q('text:' + o['heading']))
            e.text = m.text = text or None
            m.text = text
            m.content = e
            if o.get('box'):        # a text box has headings of its own
                box = etree.SubElement(etree.SubElement(e, Q('draw:frame')), Q('draw:text-box'))
                etree.SubElement(box, Q('text:h' if o['heading'] == 'p' else 'text:p')).text = 'boxed'
        return m
    kw = {}
    if 'style_name' in attrs and init.get('style_name') and k != 'NumberedParagraph':
        kw['style_name'] = attrs['style_name'] = init.pop('style_name')
    if k in ('Span', 'Paragraph', 'Heading', 'ListItem', 'ListHeader', 'Hyperlink'):
        kw['text'] = text
    m = Obj(k, None, attrs, text if 'text' in kw else '')
    if k == 'Hyperlink':
        href = init.pop('href', '')
        kw['href'] = href
        attrs['href'] = href or None
        attrs['target_frame'] = '_blank'
    if k == 'Heading':
        if 'outline_level' in init:
            kw['outline_level'] = init.pop('outline_level')
            attrs['outline_level'] = shown(LEVEL, kw['outline_level'])
    if k == 'Section' and init.get('name'):
        kw['name'] = attrs['name'] = init.pop('name')
    if k == 'NumberedParagraph' and o['heading']:
        p = ezodf.Heading(text) if o['heading'] == 'h' else ezodf.Paragraph(text)
        kw['paragraph'] = p
        m.content, m.text = p.xmlnode, text
    m.w = cls(**kw)
    for a, v in init.items():
        setattr(m.w, a, v)
        attrs[a] = shown(CLASSES[k][a], v)
    return m


def verify(m, what):
    w = m.w
    what = '%s: %s' % (what, m.kind)
    for a, v in m.attrs.items():
        got = getattr(w, a)
        if v == '' and CLASSES[m.kind][a] == NUM:
            got = got or ''
        if got != v or type(got) is not type(v):
            raise Violation('%s.%s is %r, expected %r' % (what, a, got, v))
    if m.kind == 'Hyperlink' and m.attrs['target_frame'] is not None and w.xmlnode.get(Q('xlink:show')) is not None:
        same(w.xmlnode.get(Q('xlink:show')), 'new' if m.attrs['target_frame'] == '_blank' else 'replace', what + ': xlink:show')
    if m.kind in ('Span', 'Paragraph', 'Heading', 'Hyperlink', 'ListItem', 'ListHeader'):
        same(w.plaintext(), m.text, what + ': plain text')
        same(w.textlen, len(m.text), what + ': text length')
    if m.kind == 'Section' and m.attrs['protected'] and not m.loaded:
        key = w.xmlnode.get(Q('text:protection-key'))
        check(key is not None and re.match('[A-Za-z0-9+/=]{9,}$', key), '%s: protection key is %s', what, key)
    if m.kind == 'NumberedParagraph' and m.content is not None:
        check(w.content.xmlnode is m.content, '%s: content is another element', what)
        same(w.content.plaintext(), m.text, what + ': text of the content')
        n = sum(1 for e in w.xmlnode if e.tag in (Q('text:p'), Q('text:h')))
        same(n, 1, what + ': number of content elements')
    if m.kind == 'List':
        headers = w.xmlnode.findall(Q('text:list-header'))
        check(len(headers) == (m.header is not None), '%s: %d headers', what, len(headers))
        if m.header is None:
            same(w.header, None, what + ': header')
        else:
            check(w.header.xmlnode is m.header[0] and w.xmlnode[0] is m.header[0], '%s: header is not the first child', what)
            same(w.header.plaintext(), m.header[1], what + ': header text')
            same(type(w.header).__name__, 'ListHeader', what + ': class of header')
        items = list(w.iteritems())
        check(len(items) == len(m.items) and all(a.xmlnode is b[0] for a, b in zip(items, m.items)), '%s: items differ', what)
        same([i.plaintext() for i, b in zip(items, m.items) if b[1] is not None], [b[1] for b in m.items if b[1] is not None], what + ': texts of items')


def run_case(case, ctx):
    import ezodf
    objects = [create(o) for o in case['objects']]
    for m in objects:
        ctx.note('%s %s' % ('new' if m.w is not None else '', m.kind))
        verify(m, 'at the start')
    simple = []
    for x in case['lists']:
        items = iter(x['items']) if x['iter'] else x['items']
        lst = ezodf.ezlist(items, header=x['header'], style_name=x['style'])
        same([i.plaintext() for i in lst.iteritems()], x['items'], 'items of a simple list')
        same(len(lst), len(x['items']) + bool(x['header']), 'children of a simple list')
        m = Obj('List', lst, {'style_name': x['style'] or None, 'continue_numbering': False}, '')
        m.items = [[i.xmlnode, t] for i, t in zip(lst.iteritems(), x['items'])]
        if x['header']:
            m.header = [lst.xmlnode[0], x['header']]
        verify(m, 'simple list')
        for i in lst.iteritems():
            same(i.kind, 'ListItem', 'class of items')
        objects.append(m)
    written = set()
    for op in case['ops']:
        ctx.step()
        k = op[0]

        def pick(kind, i):
            found = [m for m in objects if m.kind == kind]
            return found[i % len(found)] if found else None
        before = [canon(m.w.xmlnode) for m in objects]
        target = None
        if k == 'write':
            m = target = pick(op[1], op[2])
            if m is None:
                continue
            setattr(m.w, op[3], op[4])
            if op[3] == 'protected':
                m.loaded = False
            m.attrs[op[3]] = shown(CLASSES[m.kind][op[3]], op[4])
            written.add((objects.index(m), op[3]))
        elif k == 'del':
            flat = [(m, a) for m in objects for a, t in sorted(CLASSES[m.kind].items())
                    if t in DELETABLE and (m.kind, a) in XMLNAME and a != 'protected'
                    and m.w.xmlnode.get(Q(XMLNAME[m.kind, a])) is not None]
            if not flat:
                continue
            target, a = flat[op[1] % len(flat)]
            delattr(target.w, a)
            target.attrs[a] = default(CLASSES[target.kind][a])
        elif k == 'text':
            found = [m for m in objects if m.kind in ('Span', 'Paragraph', 'Heading', 'Hyperlink')]
            if not found:
                continue
            target = found[op[1] % len(found)]
            target.w.append_text(op[2])
            target.text += op[2]
        elif k in ('header', 'badheader', 'ownheader', 'item'):
            m = pick('List', op[1])
            if m is None:
                continue
            if k == 'header':
                h = ezodf.ListHeader(op[2])
                m.w.header = h
                m.header = [h.xmlnode, op[2]]
                target = m
            elif k == 'ownheader':
                if m.header is None:
                    continue
                m.w.header = m.w.header
                target = m
            elif k == 'badheader':
                bad = {'ListItem': ezodf.ListItem('x'), 'Paragraph': ezodf.Paragraph('x'), 'None': None}[op[2]]
                raises((TypeError, AttributeError), setattr, m.w, 'header', bad)
            elif op[3] == 'comment':
                m.w.xmlnode.append(etree.Comment('c'))
                target = m
            elif op[3] == 'alien':
                box = etree.SubElement(m.w.xmlnode, Q('text:list'))
                etree.SubElement(box, Q('text:list-header'))
                etree.SubElement(box, Q('text:list-item'))
                target = m
            elif op[3] in ('late', 'front'):
                # a header that is not the first child is replaced by one that is
                if op[3] == 'front':
                    m.w.xmlnode.insert(0, etree.Comment('c'))
                elif m.header is None:
                    etree.SubElement(m.w.xmlnode, Q('text:list-header')).text = 'late'
                else:
                    m.w.xmlnode.append(m.header[0])
                h = ezodf.ListHeader(op[2])
                m.w.header = h
                m.header = [h.xmlnode, op[2]]
                target = m
            elif op[3] in ('raw', 'nested'):
                e = etree.SubElement(m.w.xmlnode, Q('text:list-item'))
                p = etree.SubElement(e, Q('text:p'))
                p.text = text = op[2]
                if op[3] == 'nested':
                    inner = etree.SubElement(e, Q('text:list'))
                    etree.SubElement(etree.SubElement(inner, Q('text:list-header')), Q('text:p')).text = 'inner head'
                    etree.SubElement(etree.SubElement(inner, Q('text:list-item')), Q('text:p')).text = 'inner item'
                    text = None         # not judged
                m.items.append([e, text])
                target = m
            else:
                item = ezodf.ListItem(op[2])
                if op[3] == 'append' or not m.items:
                    m.w.append(item)
                    m.items.append([item.xmlnode, op[2]])
                else:
                    first = [i for i in m.w.iteritems()][0]
                    m.w.insert_before(first, item)
                    m.items.insert(0, [item.xmlnode, op[2]])
                target = m
        elif k == 'content':
            m = target = pick('NumberedParagraph', op[1])
            if m is None:
                continue
            c = m.w.content
            if m.content is None:
                same(c.kind, 'Paragraph', 'class of created content')
                same(c.plaintext(), '', 'text of created content')
                m.content = c.xmlnode
                check(c.xmlnode.getparent() is m.w.xmlnode, 'the content is not part of the numbered paragraph')
            check(m.w.content.xmlnode is m.content, 'content changes with every access')
        ctx.note('op ' + k)
        for i, m in enumerate(objects):
            verify(m, 'after %r' % (op,))
            if m is not target:
                odf.require_same(canon(m.w.xmlnode), before[i], 'after %r another object changed' % (op,))
    ctx.nontrivial(len(written) >= 4)
    # save and reload
    doc = ezodf.newdoc('odt')
    for m in objects:
        doc.body.append(ezodf.Section('holder'))
        doc.body[-1].append(m.w)
    path = os.path.join(ctx.tmpdir(), 'x.odt')
    if case['how'] == 'bytes':
        doc2 = ezodf.opendoc(doc.tobytes())
    elif case['how'] == 'path':
        doc.saveas(path)
        doc2 = ezodf.opendoc(path)
    else:
        root = etree.Element(Q('office:document'), nsmap=odf.NS)
        root.set(Q('office:mimetype'), odf.MIME['odt'])
        etree.SubElement(root, Q('office:body')).append(doc.body.xmlnode)
        with open(path, 'wb') as f:
            f.write(etree.tostring(root))
        doc2 = ezodf.opendoc(path)
        doc2.save()
        doc2 = ezodf.opendoc(path)
    holders = [e for e in doc2.body.xmlnode if e.tag == Q('text:section')]
    same(len(holders), len(objects), 'reloaded objects')
    from ezodf.xmlns import wrap
    for h, m in zip(holders, objects):
        m.w = wrap(h[0])
        same(type(m.w).__name__, m.kind, 'class after reload')
        if m.kind == 'List':
            if m.header is not None:
                m.header[0] = h[0][0]
            found = h[0].findall(Q('text:list-item'))
            same(len(found), len(m.items), 'items after reload')
            for row, e in zip(m.items, found):
                row[0] = e
        if m.content is not None:
            m.content = h[0].find(Q('text:p')) if h[0].find(Q('text:h')) is None else h[0].find(Q('text:h'))
        verify(m, 'after reload')
