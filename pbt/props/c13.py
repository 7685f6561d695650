"""C13: content appended to a body stays between declarations and epilogue."""
import io
import itertools
import os

import docs
import odf
from core import Violation, check, same
from odf import E, Q, build, canon, etree, unq

RULE = ('A case is a document (new, opened from bytes, path, flat XML or used as template; any prelude, content and '
        'epilogue) and a history of appends mixed with inserts, deletions, moves and saves; after every step the whole '
        'sequence of body children is compared; non-trivial: at least three appends to a body with declarations or '
        'closing elements.')
ASSUME = ['the closing elements of the source are the last children of the body',
          'declarations are the first children of the body']
BUDGET = {'quick': 15000, 'thorough': 150000}
CLOSING = [Q(n) for n in docs.EPILOGUE] + [Q('presentation:settings')]
PRELUDE = [Q(n) for n in (
    'office:forms', 'text:tracked-changes', 'table:tracked-changes', 'text:variable-decls', 'text:sequence-decls',
    'text:user-field-decls', 'text:dde-connection-decls', 'text:alphabetical-index-auto-mark-file',
    'table:calculation-settings', 'table:content-validations', 'table:label-ranges', 'presentation:header-decl',
    'presentation:footer-decl', 'presentation:date-time-decl')]
CONTAINERS = [Q('text:variable-decls'), Q('text:user-field-decls')]
KINDS = ['Paragraph', 'Heading', 'List', 'Section', 'NumberedParagraph', 'generic', 'frame', 'Sheet', 'moved', 'other']
TYPES = ['odt', 'odt', 'odt', 'ott', 'odm', 'ods', 'ods', 'ots', 'odp', 'odp', 'odg', 'otp', 'odc', 'odi']


def strategy(profile):
    from hypothesis import strategies as st
    import gen
    s = docs.strategies()
    i = st.integers(0, 12)
    many = ['office:forms', 'text:tracked-changes', 'text:variable-decls', 'text:sequence-decls', 'text:user-field-decls',
            'text:dde-connection-decls', 'table:calculation-settings', 'table:content-validations', 'table:label-ranges']
    decl = lambda tag: st.builds(lambda k, t: E(tag, {}, None, k, t), st.just([]), st.sampled_from([None, None, '\n']))
    prelude = st.one_of(s.prelude, st.lists(st.sampled_from(range(len(many))), max_size=5, unique=True).map(sorted).flatmap(
        lambda ids: st.tuples(*[decl(many[i]) for i in ids]).map(list)))

    def doc(t):
        if t in docs.SHEETS:
            mid = st.lists(s.table, max_size=3)
        elif t in docs.PAGED:
            mid = st.lists(gen.choice((5, s.page), (1, st.just(E('x:between', {}, None, [])))), max_size=4)
        else:
            mid = st.lists(s.block, max_size=5)
        epi = s.epilogue if t not in ('odc', 'odi') else st.just([])     # their append is that of any container
        if t in ('odp', 'otp'):
            epi = st.builds(lambda a, b: a + b, st.one_of(st.just([]), st.just([E('presentation:settings', {}, None, [])])), epi)
        name = lambda e: ['table:tracked-changes'] + e[1:] if t in docs.SHEETS and e[0] == 'text:tracked-changes' else e
        return st.builds(lambda a, b, c, txt: {'type': t, 'pre': [name(e) for e in a], 'mid': b, 'epi': c, 'text': txt}, prelude, mid, epi,
                         st.sampled_from([None, None, '\n ']))

    op = gen.choice((10, gen.op('append', st.sampled_from(KINDS), i, st.booleans())), (2, gen.op('insert', i, gen.word(3))),
                    (2, gen.op('delete', i)), (1, gen.op('delclosing', i)), (1, gen.op('declare', gen.word(3))),
                    (2, gen.op('reload', st.sampled_from(['bytes', 'path']))), (1, gen.op('read')))
    return st.sampled_from(TYPES).flatmap(lambda t: st.fixed_dictionaries({
        'doc': doc(t), 'route': st.sampled_from(['bytes', 'path', 'stream', 'flat', 'template', 'new']),
        'ops': st.lists(op, min_size=3, max_size=25 if profile['big'] else 12)}))


def make(case, ctx):
    import ezodf
    d, route = case['doc'], case['route']
    content = odf.content_data(d['type'], d['pre'] + d['mid'] + d['epi'])
    content[3][0][3][0][2] = d['text']
    if route == 'new':
        return ezodf.newdoc(d['type'] if d['type'] in ('odt', 'ods', 'odp', 'odg') else 'odt'), None
    source = build(content).find(Q('office:body'))[0]
    if route == 'flat':
        root = etree.Element(Q('office:document'), nsmap=odf.NS)
        root.set(Q('office:mimetype'), odf.MIME[d['type']])
        etree.SubElement(root, Q('office:body')).append(source)
        path = os.path.join(ctx.tmpdir(), 'f.xml')
        with open(path, 'wb') as f:
            f.write(etree.tostring(root))
        return ezodf.opendoc(path), source
    blob = odf.package(d['type'], content)
    if route == 'path':
        path = os.path.join(ctx.tmpdir(), 'f.bin')
        with open(path, 'wb') as f:
            f.write(blob)
        return ezodf.opendoc(path), source
    if route == 'template' and d['type'] in odf.TEMPLATE_OF:
        return ezodf.newdoc(odf.TEMPLATE_OF[d['type']], template=blob), source
    return ezodf.opendoc(io.BytesIO(blob) if route == 'stream' else blob), source


def leading(node):
    return list(itertools.takewhile(lambda e: e.tag in PRELUDE, node))


def closing(children):
    n = 0
    for e in reversed(children):
        if e.tag not in CLOSING:
            break
        n += 1
    return n


def run_case(case, ctx):
    import ezodf
    import ezodf.drawingpage
    from ezodf.xmlns import wrap
    doc, source = make(case, ctx)
    ctx.note('%s by %s' % (case['doc']['type'], case['route']))
    node = doc.body.xmlnode
    children = list(node)
    if source is not None:
        # declaration containers are added in front, nothing else happens
        had = [e.tag for e in source]
        added = []
        for tag in CONTAINERS:
            found = [e for e in children if e.tag == tag]
            if tag not in had:
                same(len(found), 1, 'added %s' % unq(tag))
                added += found
        rest = [e for e in children if not any(e is a for a in added)]
        odf.require_same(('b', (), '', tuple(canon(e, True) for e in rest)), ('b', (), '', tuple(canon(e, True) for e in source)),
                         'opening changed the body')
        same(node.text or '', source.text or '', 'text of the body')
        for a in added:
            check(docs.is_empty(a), 'the added %s is not empty', unq(a.tag))
            for e in children[:children.index(a)]:
                check(e.tag in PRELUDE, '%s was added behind %s', unq(a.tag), unq(e.tag))
        # in the order of the standard, if the source is
        ranks = [PRELUDE.index(e.tag) for e in leading(source)]
        if ranks == sorted(ranks):
            now = [PRELUDE.index(e.tag) for e in leading(node)]
            check(now == sorted(now), 'the leading declarations are in wrong order: %s', [unq(PRELUDE[i]) for i in now])
    others = ezodf.newdoc('odt')
    state = {'doc': doc, 'children': children}
    appends, framed, serial = 0, False, 0

    def verify(what):
        now = list(state['doc'].body.xmlnode)
        exp = state['children']
        if len(now) != len(exp) or not all(a is b for a, b in zip(now, exp)):
            raise Violation('after %r the body is %s, expected %s' % (
                what, [unq(e.tag) + repr(e.text or '') for e in now], [unq(e.tag) + repr(e.text or '') for e in exp]))

    for op in case['ops']:
        ctx.step()
        doc, children = state['doc'], state['children']
        body = doc.body
        n_close = closing(children)
        pages = {'ods': getattr(body, 'sheets', None), 'ots': getattr(body, 'sheets', None)}.get(
            doc.doctype, getattr(body, 'pages', None))
        tag = Q('table:table') if doc.doctype in docs.SHEETS else Q('draw:page')
        k = op[0]
        if k == 'append':
            serial += 1
            text = 'new%d' % serial
            before = [canon(e, True) for e in children]
            moved = None
            if pages is not None:
                new = ezodf.Sheet(text, size=(1, 1)) if tag == Q('table:table') else ezodf.drawingpage.DrawingPage(text)
                if op[1] == 'moved':
                    own = [e for e in children if e.tag == tag]
                    if own and own[-1].tail is None:
                        moved = own[op[2] % len(own)]
                        if moved.tail is None:
                            new = pages[op[2] % len(own)]
                            before[children.index(moved)] = canon(moved, True)
                        else:
                            moved = None
                target = pages
            else:
                kind = op[1]
                if kind == 'generic':
                    new = wrap(etree.Element(Q('x:block')))
                elif kind == 'frame':
                    new = wrap(etree.Element(Q('draw:frame')))
                elif kind == 'Sheet':
                    new = ezodf.Sheet(text, size=(2, 1))
                elif kind in ('List', 'NumberedParagraph'):
                    new = ezodf.ezlist([text]) if kind == 'List' else ezodf.NumberedParagraph(ezodf.Paragraph(text))
                elif kind == 'Section':
                    new = ezodf.Section(text)
                elif kind == 'other':
                    others.body.append(ezodf.Paragraph(text))
                    new = [e for e in others.body if e.plaintext() == text][0]
                elif kind == 'moved':
                    own = [j for j, e in enumerate(children) if e.tag in (Q('text:p'), Q('text:h')) and e.tail is None]
                    if not own:
                        continue
                    new = body[own[op[2] % len(own)]]
                    moved = new.xmlnode
                else:
                    new = getattr(ezodf, kind)(text)
                target = body
            if op[3]:
                target += new
                check(target is (pages if pages is not None else body), '+= returns another object')
            else:
                check(target.append(new) is new, 'append does not return the appended object')
            if moved is not None:
                j = [e is moved for e in children].index(True)
                del children[j], before[j]
            if pages is None:
                at = len(children) - n_close
            else:
                # anywhere behind the last sheet and in front of the closing elements
                now = list(body.xmlnode)
                check(any(e is new.xmlnode for e in now), 'the appended page is not in the body')
                at = [e is new.xmlnode for e in now].index(True)
                last = max([j for j, e in enumerate(children) if e.tag == tag] or [-1])
                if at <= last or at > len(children) - n_close and last < len(children) - n_close:
                    raise Violation('the appended %s is at %d of %s' % (unq(tag), at, [unq(e.tag) for e in now]))
                if last < 0 and not any(e.tag not in PRELUDE + CLOSING for e in children):
                    same(at, len(children) - n_close, 'position of the first page')
            children.insert(at, new.xmlnode)
            appends += 1
            framed = framed or n_close > 0 or any(e.tag in PRELUDE for e in children)
            ctx.note('append %s' % ('page' if pages is not None else op[1]))
            verify(op)
            for j, e in enumerate(children):
                if e is not new.xmlnode:
                    odf.require_same(canon(e, True), before[j if j < at else j - 1], 'append changed another element')
        elif k == 'insert':
            first = 0
            while first < len(children) and children[first].tag in PRELUDE:
                first += 1
            if pages is not None:
                idx = [j for j, e in enumerate(children) if e.tag == tag]
                if not idx:
                    continue
                p = op[1] % len(idx)
                new = ezodf.Sheet('ins', size=(1, 1)) if tag == Q('table:table') else ezodf.drawingpage.DrawingPage('ins')
                pages.insert(p, new)
                children.insert(idx[p], new.xmlnode)
            else:
                p = first + op[1] % (len(children) - n_close - first + 1)
                new = ezodf.Paragraph(op[2])
                body.insert(p, new)
                children.insert(p, new.xmlnode)
        elif k in ('delete', 'delclosing'):
            idx = [j for j, e in enumerate(children) if e.tail is None and (
                e.tag in CLOSING if k == 'delclosing' else
                e.tag == tag if pages is not None else e.tag not in PRELUDE + CLOSING)]
            if not idx:
                continue
            if k == 'delete' and pages is not None:
                p = op[1] % len(idx)
                del pages[p]
                del children[idx[p]]
            else:
                p = idx[op[1] % len(idx)]
                del body[p]
                del children[p]
        elif k == 'declare':
            # declarations may grow at any time
            decls = body.variables.xmlnode
            etree.SubElement(decls, Q('text:variable-decl')).set(Q('text:name'), op[1])
        elif k == 'read':
            len(body), body.plaintext(), [e.tag for e in body.xmlnode]
            if pages is not None:
                list(pages.names()), len(pages)
        else:
            want = [canon(e, True) for e in children]
            if op[1] == 'path' and case['route'] != 'flat':
                path = os.path.join(ctx.tmpdir(), 'out')
                doc.saveas(path)
                doc = ezodf.opendoc(path)
            elif case['route'] == 'flat':
                doc.save()
                doc = ezodf.opendoc(os.path.join(ctx.tmpdir(), 'f.xml'))
            else:
                doc = ezodf.opendoc(doc.tobytes())
            state['doc'], state['children'] = doc, list(doc.body.xmlnode)
            odf.require_same(('b', (), '', tuple(canon(e, True) for e in state['children'])), ('b', (), '', tuple(want)),
                             'body after save and reload')
        ctx.note('op ' + k)
        verify(op)
    ctx.nontrivial(appends >= 3 and framed)
