"""C25: node ordering tools place and check elements by tag order."""
import bisect

import odf
from core import check, raises, same
from odf import E, Q, build, canon, etree

RULE = ('A case is a node with random children (tags of prelude, middle, epilogue, strangers, comments, text between them; sorted, nearly '
        'sorted or shuffled), tag orders in different container types, and a history of reorderings, queries and insertions at the '
        'reported positions, compared with a sorted-list model after every step. Non-trivial: at least four children of at least '
        'three different tags.')
ASSUME = ['prelude and epilogue tags of the reordering tool are unique and disjoint', 'comments and processing instructions are no tags of a block']
BUDGET = {'quick': 42000, 'thorough': 500000}

# OASIS OpenDocument 1.2, 3.4 office:text
STREAM = ['text:h', 'text:p', 'text:list', 'text:numbered-paragraph', 'table:table', 'draw:a', 'text:section', 'text:soft-page-break', 'text:table-of-content',
          'text:illustration-index', 'text:table-index', 'text:object-index', 'text:user-index', 'text:alphabetical-index', 'text:bibliography']
SHAPES = ['draw:rect', 'draw:line', 'draw:polyline', 'draw:polygon', 'draw:regular-polygon', 'draw:path', 'draw:circle', 'draw:ellipse', 'draw:g', 'draw:page-thumbnail',
          'draw:frame', 'draw:measure', 'draw:caption', 'draw:connector', 'draw:control', 'dr3d:scene', 'draw:custom-shape']
MARKS = ['text:change', 'text:change-start', 'text:change-end']
PRELUDE = ['office:forms', 'text:tracked-changes', 'text:variable-decls', 'text:sequence-decls', 'text:user-field-decls', 'text:dde-connection-decls', 'text:alphabetical-index-auto-mark-file',
           'table:calculation-settings', 'table:content-validations', 'table:label-ranges']
EPILOGUE = ['table:named-expressions', 'table:database-ranges', 'table:data-pilot-tables', 'table:consolidation', 'table:dde-links']
STRANGERS = ['text:span', 'table:table-row', 'office:text', 'x:p', 'p', 'draw:page', 'table:table-cell', 'style:style']
LETTERS = {'pre': list('abcd'), 'mid': list('ghi'), 'epi': list('wxyz'), 'other': list('GAXq')}
ODF = {'pre': PRELUDE, 'mid': STREAM + SHAPES + MARKS, 'epi': EPILOGUE, 'other': STRANGERS}


def strategy(profile):
    from hypothesis import strategies as st
    import gen
    size = 40 if profile['big'] else 10
    # a child is [group, number, text, tail]
    tail = st.sampled_from([None, None, None, '\n', 't', ' x '])
    group = st.sampled_from(['pre', 'pre', 'mid', 'epi', 'epi', 'other', '#comment', '#pi'])
    child = st.tuples(gen.choice((9, st.sampled_from(['pre', 'epi'])), (3, st.just('mid')), (1, st.sampled_from(['other', '#comment', '#pi']))), st.integers(0, 39), st.sampled_from([None, 'a', '']), tail).map(list)
    plainchild = st.tuples(group, st.integers(0, 39), st.none(), tail).map(list)
    kids = st.one_of(st.lists(child, max_size=size), st.lists(plainchild, max_size=size))
    i = st.integers(0, 9)
    op = gen.choice((2, gen.op('reorder')), (5, gen.op('before', st.sampled_from(['pre', 'epi']), i)), (5, gen.op('after', st.sampled_from(['pre', 'epi']), i)),
                    (3, gen.op('end', st.sampled_from(['pre', 'epi']))), (2, gen.op('wrong', st.sampled_from(['pre', 'epi']), st.sampled_from(['mid', 'other', 'opposite', 'None', 'part']))), (2, gen.op('insert', st.integers(0, 60), child)),
                    (2, gen.op('delete', st.integers(0, 60))), (1, gen.op('retag', st.integers(0, 60), child)), (1, gen.op('fresh')), (1, gen.op('sort', st.integers(0, 3))))
    return st.fixed_dictionaries({'tags': st.sampled_from(['letters', 'letters', 'letters', 'odf']), 'pre': st.lists(st.integers(0, 8), min_size=1, max_size=9, unique=True), 'epi': st.lists(st.integers(0, 4), min_size=1, max_size=5, unique=True),
                                  'mid': st.integers(0, 3), 'container': st.sampled_from(['list', 'tuple', 'str']), 'kids': kids, 'shape': st.sampled_from(['as is', 'as is', 'sorted', 'nearly', 'nearly']),
                                  'ops': st.lists(op, max_size=20 if profile['big'] else 8)})


def run_case(case, ctx):
    import ezodf  # noqa: F401
    from ezodf.nodeorganizer import EpilogueTagBlock, PreludeEpilogueOrganizer, PreludeTagBlock
    from ezodf.nodestructurechecker import NodeStructureChecker, PagedTextBodyChecker, StreamTextBodyChecker
    T = LETTERS if case['tags'] == 'letters' else ODF
    names = {'pre': [T['pre'][i] for i in dict.fromkeys(j % len(T['pre']) for j in case['pre'])], 'epi': [T['epi'][i] for i in dict.fromkeys(j % len(T['epi']) for j in case['epi'])],
             'mid': T['mid'][:len(T['mid']) - case['mid'] % len(T['mid'])]}
    if case['tags'] == 'letters':
        order = dict((k, v) for k, v in names.items())
        make = {'list': list, 'tuple': tuple, 'str': ''.join}[case['container']]
    else:
        order = dict((k, [Q(n) for n in v]) for k, v in names.items())
        make = {'list': list, 'tuple': tuple, 'str': list}[case['container']]
    pre, epi, mid = order['pre'], order['epi'], order['mid']

    def tag_of(g, n):
        pool = T[g]
        return pool[n % len(pool)]

    def element(kid):
        g, n, text, tail = kid
        if g == '#comment':
            return build(['#comment', {}, 'c%d' % n, [], tail])
        if g == '#pi':
            return build(['#pi', {'target': 'p'}, 'x%d' % n, [], tail])
        return build(E(tag_of(g, n), {'n': str(n)}, text, [E('x:in')] if n % 5 == 0 else [], tail))

    def rank(e):
        if e.tag in pre:
            return pre.index(e.tag)
        if e.tag in epi:
            return 100 + epi.index(e.tag)
        return 50

    node = build(E('office:text', {'office:x': '1'}, '\n'))
    elements = [element(k) for k in case['kids']]
    if case['shape'] != 'as is':
        elements.sort(key=rank)
        if case['shape'] == 'nearly' and len(elements) > 2:
            j = sum(k[1] for k in case['kids']) % (len(elements) - 1)
            elements[j], elements[j + 1] = elements[j + 1], elements[j]
    for e in elements:
        node.append(e)
    model = list(node)
    pb, eb = PreludeTagBlock(node, make(pre)), EpilogueTagBlock(node, make(epi))

    def prefix(tags, items):
        last = n = 0
        for e in items:
            if e.tag not in tags or tags.index(e.tag) < last:
                break
            last = tags.index(e.tag)
            n += 1
        return n

    def blocks():
        p = prefix(pre, model)
        e = prefix(epi[::-1], model[::-1])
        return p, e

    def verify(what):
        kids = list(node)
        check(len(kids) == len(model) and all(a is b for a, b in zip(kids, model)), '%s: order of the children: %s, expected %s', what, [odf.unq(e.tag) for e in kids], [odf.unq(e.tag) for e in model])
        p, e = blocks()
        before = canon(node)
        same(len(pb), p, '%s: size of the prelude' % what)
        same(len(eb), e, '%s: size of the epilogue' % what)
        n = len(model)
        ranks = [pre.index(x.tag) for x in model[:p]]
        for i, t in enumerate(pre):
            c = ranks.count(i)
            same(tuple(pb.tag_info(t)), (ranks.index(i) if c else -1, c), '%s: prelude, position and count of %s' % (what, t))
            same(pb.insert_position_before(t), bisect.bisect_left(ranks, i), '%s: prelude, position before %s' % (what, t))
            same(pb.insert_position_after(t), bisect.bisect_right(ranks, i), '%s: prelude, position after %s' % (what, t))
        same(pb.insert_position_after(), p, '%s: position after the prelude' % what)
        ranks = [epi.index(x.tag) for x in model[n - e:]]
        for i, t in enumerate(epi):
            c = ranks.count(i)
            same(tuple(eb.tag_info(t)), (n - e + ranks.index(i) if c else -1, c), '%s: epilogue, position and count of %s' % (what, t))
            same(eb.insert_position_before(t), n - e + bisect.bisect_left(ranks, i), '%s: epilogue, position before %s' % (what, t))
            same(eb.insert_position_after(t), n - e + bisect.bisect_right(ranks, i), '%s: epilogue, position after %s' % (what, t))
        same(eb.insert_position_before(), n - e, '%s: position before the epilogue' % what)
        between = model[p:max(p, n - e)]
        for allowed in (mid, mid + pre[:1], mid[:1]):
            want = all(x.tag in allowed for x in between)
            got = NodeStructureChecker(make(pre), make(allowed), make(epi)).is_valid(node)
            same(bool(got), want, '%s: structure check' % what)
            ctx.note('valid structures' if want else 'invalid structures')
        if T is ODF:
            for checker, allowed in ((StreamTextBodyChecker, STREAM + SHAPES + MARKS), (PagedTextBodyChecker, ['text:page-sequence', 'draw:a'] + SHAPES)):
                fp = prefix([Q(t) for t in PRELUDE], model)
                fe = prefix([Q(t) for t in EPILOGUE][::-1], model[::-1])
                want = all(x.tag in [Q(t) for t in allowed] for x in model[fp:max(fp, n - fe)])
                same(bool(checker.is_valid(node)), want, '%s: structure check of text documents' % what)
        odf.require_same(canon(node), before, '%s: queries changed the node' % what)


    verify('at the beginning')
    for op in case['ops']:
        ctx.step()
        k = op[0]
        if k in ('before', 'after', 'end'):
            tags, block = (pre, pb) if op[1] == 'pre' else (epi, eb)
            sizes = blocks()
            if k == 'end':
                t = tags[-1] if op[1] == 'pre' else tags[0]
                at = block.insert_position_after() if op[1] == 'pre' else block.insert_position_before()
            else:
                t = tags[op[2] % len(tags)]
                at = block.insert_position_before(t) if k == 'before' else block.insert_position_after(t)
            e = etree.Element(t)
            node.insert(at, e)
            model.insert(at, e)
            now = blocks()
            check(now[op[1] == 'epi'] >= sizes[op[1] == 'epi'] + 1, 'an element inserted at the reported position is not part of the block')
        elif k == 'insert':
            at = op[1] % (len(model) + 1)
            e = element(op[2])
            node.insert(at, e)
            model.insert(at, e)
        elif k == 'delete':
            if model:
                e = model.pop(op[1] % len(model))
                node.remove(e)
        elif k == 'retag':
            if model and not op[2][0].startswith('#'):
                e = model[op[1] % len(model)]
                if isinstance(e.tag, str):
                    e.tag = Q(tag_of(op[2][0], op[2][1]))
        elif k == 'sort':
            model.sort(key=lambda e: rank(e) if op[1] else 0)
            for e in model:
                node.append(e)
        elif k == 'fresh':
            pb, eb = PreludeTagBlock(node, make(pre)), EpilogueTagBlock(node, make(epi))
        elif k == 'wrong':
            tags, block = (pre, pb) if op[1] == 'pre' else (epi, eb)
            wrong = {'mid': mid[0], 'other': Q(T['other'][0]), 'opposite': (epi if op[1] == 'pre' else pre)[0], 'None': None, 'part': tags[0] + tags[0]}[op[2]]
            calls = [block.tag_info, block.insert_position_before, block.insert_position_after]
            if wrong is None:
                calls = [block.insert_position_before] if op[1] == 'pre' else [block.insert_position_after]
                calls.append(block.tag_info)
            for f in calls:
                raises(ValueError, f, wrong)
            cls = type(block)
            raises(ValueError, cls, node, make([]))
            raises(ValueError, cls, node, make(tags + tags[:1]))
            raises(ValueError, cls, None, make(tags))
        elif k == 'reorder':
            want = [e for t in pre for e in model if e.tag == t]
            want += [e for e in model if e.tag not in pre and e.tag not in epi]
            want += [e for t in epi for e in model if e.tag == t]
            old = dict((e, (canon(e), e.tail)) for e in model)
            head = (node.tag, node.text, dict(node.attrib))
            PreludeEpilogueOrganizer(make(pre), make(epi)).reorder(node)
            model = want
            verify('after reordering')
            same((node.tag, node.text, dict(node.attrib)), head, 'the node itself after reordering')
            for e in model:
                same(e.tail, old[e][1], 'text behind a child after reordering')
                odf.require_same(canon(e), old[e][0], 'child after reordering')
            continue
        verify('after %s' % op)
    ctx.nontrivial(len(model) >= 4 and len(set(e.tag for e in model)) >= 3)
