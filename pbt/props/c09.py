"""C09: whitespace encoding is lossless and collapse-safe."""
import os
import re

import odf
from core import Violation, check, raises, same
from odf import Q, etree, unq

RULE = ('A case is a text element (paragraph, heading, span or hyperlink) and a list of texts appended to it or to its '
        'children, mixed with child and whitespace elements and rejected calls, then saved and reloaded; non-trivial: at '
        'least two pieces with a run of two or more whitespace characters.')
ASSUME = ['XML-illegal characters are excluded', 'carriage returns are ordinary characters',
          'removal of white space at the very start and end of a paragraph by consumers is not judged',
          'runs of spaces that arise from joining two pieces are not judged']
BUDGET = {'quick': 48000, 'thorough': 500000}
KINDS = ['Paragraph', 'Heading', 'Span', 'Hyperlink']


def strategy(profile):
    from hypothesis import strategies as st
    import gen
    ws = st.text(st.sampled_from(list('  \t\nab')), max_size=14)
    runs = st.lists(st.one_of(st.integers(1, 40).map(lambda n: ' ' * n), st.sampled_from(['\t', '\n', '\t\t', '\n\n', 'x', 'word', '\xa0',
                    '\u3000', '\r', '\r\n', '<text:s/>', '&#32;', '']), gen.size(1, 4, 300).map(lambda n: ' ' * n),
                    st.sampled_from([63, 64, 65, 127, 128, 129, 255, 256, 257, 258, 513, 1025, 4099]).map(lambda n: ' ' * n)), max_size=7).map(''.join)
    text = st.one_of(ws, ws, runs, gen.text(12), st.sampled_from(gen.STRS))
    kind = st.sampled_from(KINDS)
    i = st.integers(0, 6)
    op = gen.choice((6, gen.op('text', i, text)), (2, gen.op('child', i, st.sampled_from(['Span', 'Hyperlink', 'Span2']), text)),
                    (2, gen.op('ws', i, st.sampled_from(['Spaces', 'Tabulator', 'LineBreak', 'SoftPageBreak']), st.integers(1, 9))),
                    (1, gen.op('bad', i, st.sampled_from([5, None, 1.5, True]))), (1, gen.op('foreign', i, gen.word(4))), (2, gen.op('raw', i, st.one_of(gen.text(6), st.sampled_from(['\n', '\n ', ' ', '  x', '\t', 'a\n\n  ', ' \n'])))))
    return st.fixed_dictionaries({
        'kind': kind, 'first': st.one_of(st.just(''), text), 'ops': st.lists(op, min_size=1, max_size=12 if profile['big'] else 6),
        'how': st.sampled_from([None, None, 'bytes', 'path', 'flat', 'tree'])})


def make(kind, text):
    import ezodf
    if kind == 'Paragraph':
        return ezodf.Paragraph(text)
    if kind == 'Heading':
        return ezodf.Heading(text)
    if kind == 'Span':
        return ezodf.Span(text)
    if kind == 'Span2':
        s = ezodf.Span()
        s.append_text(text)
        return s
    return ezodf.Hyperlink('http://x', text=text)


def decode(node, collapse):
    """text of the element as a consumer of ODF sees it"""
    out = []

    def chars(s):
        s = s or ''
        out.append(re.sub('[ \t\n]+', ' ', s) if collapse else s)

    def walk(e):
        chars(e.text)
        for c in e:
            tag = unq(c.tag)
            if tag == 'text:s':
                out.append(' ' * int(c.get(Q('text:c'), '1')))
            elif tag == 'text:tab':
                out.append('\t')
            elif tag == 'text:line-break':
                out.append('\n')
            elif tag == 'text:soft-page-break':
                pass
            else:
                walk(c)
            chars(c.tail)
    walk(node)
    return ''.join(out)


def judge_piece(kind, text):
    """one piece on its own: nothing that would collapse"""
    node = make(kind, text).xmlnode
    for e in [node] + list(node):
        for s, where in ((e.text, 'text'), (e.tail, 'tail')):
            if s and re.search('\t|\n|  ', s):
                raise Violation('the %s of %s is %r for the appended text %r' % (where, unq(e.tag), s, text))
        if e is not node:
            check(unq(e.tag) in ('text:s', 'text:tab', 'text:line-break'), 'text is encoded with %s', unq(e.tag))
            check(e.text is None and len(e) == 0, 'encoded whitespace element with content')
    same(decode(node, True), text, 'text with collapsed white space')
    blob = etree.tostring(node)
    same(decode(etree.fromstring(blob), True), text, 'text with collapsed white space after serialisation')


def run_case(case, ctx):
    import ezodf
    root = make(case['kind'], case['first'])
    elements = [root]          # wrappers which can be appended to
    model = [[case['first']]]  # their pieces; children are lists of pieces
    judge_piece(case['kind'], case['first'])
    long_runs = bool(re.search('[ \t\n]{2}', case['first']))

    def flat(pieces):
        return ''.join(p if isinstance(p, str) else flat(p) for p in pieces)

    def verify(what):
        for e, m in zip(elements, model):
            same(e.plaintext(), flat(m), '%s: plain text of %s' % (what, e.kind))
            same(e.textlen, len(flat(m)), '%s: text length of %s' % (what, e.kind))
            same(decode(e.xmlnode, False), flat(m), '%s: decoded text of %s' % (what, e.kind))

    verify('at the start')
    for op in case['ops']:
        ctx.step()
        i = op[1] % len(elements)
        e, m = elements[i], model[i]
        k = op[0]
        if k == 'text':
            judge_piece(e.kind, op[2])
            before = len(e.xmlnode)
            e.append_text(op[2])
            m.append(op[2])
            long_runs += bool(re.search('[ \t\n]{2}', op[2]))
            for c in list(e.xmlnode)[before:]:
                check(unq(c.tag) in ('text:s', 'text:tab', 'text:line-break'), 'text was encoded with %s', unq(c.tag))
                check(not re.search('\t|\n|  ', c.tail or ''), 'encoded text contains white space: %s', c.tail)
        elif k == 'child':
            child = make(op[2], op[3])
            e.append(child)
            m.append([op[3]])
            elements.append(child)
            model.append(m[-1])
        elif k == 'ws':
            if op[2] == 'Spaces':
                e.append(ezodf.Spaces(op[3]))
                m.append(' ' * op[3])
            else:
                e.append(getattr(ezodf, op[2])())
                m.append({'Tabulator': '\t', 'LineBreak': '\n', 'SoftPageBreak': ''}[op[2]])
        elif k == 'raw':      # unencoded text, as in indented documents; its place is in front of what is appended later
            if len(e.xmlnode):
                e.xmlnode[-1].tail = (e.xmlnode[-1].tail or '') + op[2]
            else:
                e.xmlnode.text = (e.xmlnode.text or '') + op[2]
            m.append(op[2])
        elif k == 'foreign':
            node = etree.Element(Q('text:variable-get'))
            node.text = op[2]
            e.xmlnode.append(node)
            m.append(op[2])
        else:
            raises(Exception, e.append_text, op[2])
        ctx.note('op ' + k)
        verify('after %r' % (op,))
    # reload
    text = flat(model[0])
    if case['how'] == 'tree':
        from ezodf.xmlns import wrap
        same(wrap(etree.fromstring(etree.tostring(root.xmlnode))).plaintext(), text, 'plain text after serialisation')
    elif case['how']:
        doc = ezodf.newdoc('odt')
        parent = doc.body
        if case['kind'] in ('Span', 'Hyperlink'):
            parent = ezodf.Paragraph()
            doc.body.append(parent)
        parent.append(root)
        path = os.path.join(ctx.tmpdir(), 'x.odt')
        if case['how'] == 'bytes':
            doc = ezodf.opendoc(doc.tobytes())
        elif case['how'] == 'path':
            doc.saveas(path)
            doc = ezodf.opendoc(path)
        else:
            flatdoc = etree.Element(Q('office:document'), nsmap=odf.NS)
            flatdoc.set(Q('office:mimetype'), odf.MIME['odt'])
            flatdoc.append(odf.build(['office:body', {}, None, [], None]))
            flatdoc[0].append(doc.body.xmlnode)
            with open(path, 'wb') as f:
                f.write(etree.tostring(flatdoc))
            doc = ezodf.opendoc(path)
            doc.meta['title'] = 't'
            doc.save()
            doc = ezodf.opendoc(path)
        last = doc.body[-1]
        same(last.plaintext(), text, 'plain text after reload by ' + case['how'])
        same(last.textlen, len(text), 'text length after reload')
        ctx.note('reload ' + case['how'])
    ctx.nontrivial(long_runs >= 2)
