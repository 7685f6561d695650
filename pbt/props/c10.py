"""C10: plain text is the document-order text and its length agrees."""
import odf
from core import Violation, check, same
from odf import E, Q, build, canon, etree, unq

RULE = ('A case is a mixed-content tree of text elements (paragraph, heading, span, hyperlink, list item, list header, '
        'cell, whitespace elements, comments, fields) read at every element, alone, in a document and after edits and '
        'reload; non-trivial: at least four elements on at least three levels.')
ASSUME = ['elements the library does not know contribute their direct text if they have no children; what they contribute with children is left open, but must be the same wherever it is read',
          'whitespace elements have no content', 'lists inside list items are not generated']
BUDGET = {'quick': 31100, 'thorough': 400000}
INLINE = ('text:span', 'text:a', 'text:p', 'text:h')


def strategy(profile):
    from hypothesis import strategies as st
    import gen
    xmltext = st.one_of(st.none(), st.none(), gen.text(6).map(lambda t: t or None), st.sampled_from([' ', '\n', '  ', '\n  ', 'x']))
    attrs = st.one_of(st.just({}), st.sampled_from([{'text:style-name': 'T1'}, {'xlink:href': '#'}, {'text:id': 'i'}]))
    spaces = st.builds(lambda c, tail: E('text:s', {} if c is None else {'text:c': str(c)}, None, [], tail),
                       st.one_of(st.none(), st.integers(0, 12), gen.size(1, 9, 80)), xmltext)
    ws = st.builds(lambda t, tail: E(t, {}, None, [], tail),
                   st.sampled_from(['text:tab', 'text:line-break', 'text:soft-page-break']), xmltext)
    misc = st.builds(lambda t, text, tail: [t, {}, text, [], tail], st.sampled_from(['#comment', '#comment', '#pi']),
                     st.sampled_from(['c', ' long comment ', '']), xmltext)
    field = st.builds(lambda t, text, tail: E(t, {}, text, [], tail), st.sampled_from([
        'text:variable-get', 'text:user-field-get', 'text:page-number', 'x:any', 'text:date', 'text:bookmark']), xmltext, xmltext)
    # elements the library does not know, with content
    deep = st.builds(lambda t, text, ch, tail: E(t, {}, text, ch, tail), st.sampled_from([
        'text:note', 'text:ruby', 'text:meta', 'text:meta-field', 'x:any', 'office:annotation', 'draw:text-box', 'text:bookmark-ref']), xmltext,
        st.lists(st.one_of(field, ws, st.builds(lambda t, text, ch, tail: E(t, {}, text, ch, tail), st.sampled_from([
            'text:p', 'text:span', 'text:ruby-base', 'text:note-body', 'x:other']), xmltext, st.lists(st.one_of(field, spaces, ws), max_size=2), xmltext)),
            min_size=1, max_size=2), xmltext)
    leaf = gen.choice((6, spaces), (6, ws), (4, misc), (2, field), (1, deep))

    def wrap(children):
        return st.builds(lambda t, a, text, ch, tail: E(t, a, text, ch, tail), st.sampled_from(['text:span', 'text:span', 'text:a']),
                         attrs, xmltext, st.lists(children, max_size=4), xmltext)
    inline = st.recursive(st.one_of(leaf, wrap(leaf)), wrap, max_leaves=12 if profile['big'] else 7)
    para = st.builds(lambda t, a, text, ch: E(t, a, text, ch), st.sampled_from(['text:p', 'text:p', 'text:h']), attrs, xmltext,
                     st.lists(inline, max_size=4))
    ptail = st.one_of(st.none(), st.none(), st.sampled_from(['\n', ' ']))
    paras = st.lists(st.builds(lambda p, t: p[:4] + [t], para, ptail), max_size=4)
    sep = st.one_of(st.none(), st.sampled_from(['\n ', ' ']))
    comment = st.builds(lambda tail: ['#comment', {}, 'note', [], tail], ptail)
    mixed = st.lists(st.one_of(para, para, para, comment), max_size=4)
    item = st.builds(lambda t, a, w, ch: E(t, a, w, ch), st.sampled_from(['text:list-item', 'text:list-header']),
                     st.just({}), sep, mixed)
    other = st.sampled_from([
        E('office:annotation', {}, 'n', [E('text:p', {}, 'note')]), E('draw:frame', {}, None, [E('draw:text-box', {}, None, [E('text:p', {}, 'box')])]),
        E('table:table', {'table:name': 'in'}, None, [E('table:table-row', {'table:number-rows-repeated': '2'}, None, [
            E('table:table-cell', {'table:number-columns-repeated': '3'}, None, [E('text:p', {}, 'inner')])])])])
    cell = st.builds(lambda t, a, w, ch: E(t, a, w, ch), st.sampled_from(['table:table-cell', 'table:table-cell', 'table:covered-table-cell']),
                     st.sampled_from([{}, {'office:value-type': 'string'}, {'office:value-type': 'float', 'office:value': '1'}]),
                     sep, st.lists(st.one_of(para, para, para, comment, other), max_size=4))
    tree = gen.choice((5, para), (2, wrap(inline)), (3, item), (3, cell))
    edit = gen.choice((3, gen.op('append_text', st.integers(0, 9), gen.text(6))),
                      (2, gen.op('append', st.integers(0, 9), inline)), (1, gen.op('remove', st.integers(0, 9))))
    return st.fixed_dictionaries({'tree': tree, 'edits': st.lists(edit, max_size=4), 'doc': st.booleans()})


def expected(node):
    tag = unq(node.tag)
    if tag == 'text:s':
        return ' ' * int(node.get(Q('text:c'), '1'))
    if tag == 'text:tab':
        return '\t'
    if tag == 'text:line-break':
        return '\n'
    if tag == 'text:soft-page-break' or tag.startswith('#'):
        return ''
    if tag in ('text:list-item', 'text:list-header'):
        return '\n'.join(expected(c) for c in node if isinstance(c.tag, str))
    if tag in ('table:table-cell', 'table:covered-table-cell'):
        return '\n'.join(expected(c) for c in node if c.tag in (Q('text:p'), Q('text:h')))
    if tag in INLINE:
        out = [node.text or '']
        for c in node:
            out.append(expected(c))
            out.append(c.tail or '')
        return ''.join(out)
    if len(node):   # what it contributes is left open, but it is the same everywhere
        from ezodf.xmlns import wrap
        return wrap(node).plaintext()
    return node.text or ''


READ = INLINE + ('text:s', 'text:tab', 'text:line-break', 'text:soft-page-break', 'text:list-item', 'text:list-header',
                 'table:table-cell', 'table:covered-table-cell')


DEEP = ('text:note', 'text:ruby', 'text:meta', 'text:meta-field', 'x:any', 'office:annotation', 'draw:text-box', 'text:bookmark-ref')


def verify(root, what):
    from ezodf.xmlns import wrap
    before = canon(root)
    for node in root.iter():
        if unq(node.tag) not in READ:
            if unq(node.tag) in DEEP:
                same(wrap(node).textlen, len(wrap(node).plaintext()), '%s: text length of %s' % (what, unq(node.tag)))
            continue
        if any(unq(a.tag) == 'table:table' for a in node.iterancestors()):
            continue
        w = wrap(node)
        want = expected(node)
        same(w.plaintext(), want, '%s: plain text of %s' % (what, unq(node.tag)))
        same(w.textlen, len(want), '%s: text length of %s' % (what, unq(node.tag)))
        if unq(node.tag) in ('text:s', 'text:tab', 'text:line-break'):
            same(str(w), want, 'str() of %s' % unq(node.tag))
    odf.require_same(canon(root), before, '%s: reading changed the tree' % what)


def run_case(case, ctx):
    import ezodf
    from ezodf.xmlns import wrap
    root = build(case['tree'])
    verify(root, 'generated tree')
    ctx.note('root ' + case['tree'][0])
    n = sum(1 for e in root.iter() if isinstance(e.tag, str))
    depth = max(len(list(e.iterancestors())) for e in root.iter())
    ctx.nontrivial(n >= 4 and depth >= 2)
    for op in case['edits']:
        ctx.step()
        nodes = [e for e in root.iter() if unq(e.tag) in INLINE]
        if not nodes:
            break
        node = nodes[op[1] % len(nodes)]
        w = wrap(node)
        old = expected(node)
        if op[0] == 'append_text':
            w.append_text(op[2])
            same(w.plaintext(), old + op[2], 'plain text after append_text')
        elif op[0] == 'append':
            new = build(op[2], {})
            text = expected(new) + (new.tail or '')
            w.append(wrap(new))
            same(w.plaintext(), old + text, 'plain text after append')
        elif len(node):
            w.remove(w[0]) if not node[0].tail else None
        verify(root, 'after %s' % op[0])
        ctx.note('edit ' + op[0])
    if case['doc']:
        doc = ezodf.newdoc('odt')
        tag = unq(root.tag)
        if tag in ('text:p', 'text:h'):
            host = doc.body.xmlnode
        else:
            chain = {'text:span': ['text:p'], 'text:a': ['text:p'], 'text:list-item': ['text:list'], 'text:list-header': ['text:list']}.get(
                tag, ['table:table', 'table:table-row'])
            host = doc.body.xmlnode
            for name in chain:
                host = etree.SubElement(host, Q(name))
        want = expected(root)
        host.append(root)
        before = canon(etree.fromstring(etree.tostring(doc.body.xmlnode)))
        doc2 = ezodf.opendoc(doc.tobytes())
        node = doc2.body.xmlnode[-1]
        while unq(node.tag) != tag:
            node = node[-1]
        same(wrap(node).plaintext(), want, 'plain text after reload')
        verify(node, 'after reload')
        odf.require_same(canon(doc2.body.xmlnode), before, 'reading after reload changed the body')
        ctx.note('in a document')
