"""C18: repeated rows, columns and cells expand as the strategy says."""
import copy

import odf
import tables
from core import Violation, check, same
from odf import canon
from tables import ccanon, check_table, norm

RULE = ('A case is one to three tables with repetition counts in cells, covered cells, rows, column declarations, '
        'groups and headers, each with an expansion strategy and limits; non-trivial: some repetition greater than '
        'one is present and the expanded table has at least two cells.')
ASSUME = ['rows contain cells, comments and processing instructions only',
          'repetition counts are positive integers', 'expanded tables of at most 4000 cells']
BUDGET = {'quick': 6500, 'thorough': 120000}


def strategy(profile):
    from hypothesis import strategies as st
    import gen
    s = tables.strategies()
    limit = gen.choice((3, st.just([32, 32])), (3, st.tuples(st.integers(1, 6), st.integers(1, 6)).map(list)),
                       (2, st.tuples(gen.size(1, 6, 40), gen.size(1, 6, 40)).map(list)))
    conf = st.tuples(st.sampled_from(['all', 'all_but_last', 'all_less_maxcount', 'all_less_maxcount', None]),
                     limit).map(list)
    one = st.fixed_dictionaries({'table': s.table(big=profile['big'], max_rows=4, max_cells=4),
                                 'conf': conf, 'later': conf})
    return st.fixed_dictionaries({'tables': st.lists(one, min_size=1, max_size=3 if not profile['big'] else 1),
                                  'route': st.sampled_from(['bare', 'doc'])})


def expand_tree(items, strategy, maxcount, width):
    """rows tree -> canonical children in document order, structure of groups kept"""
    rows = list(tables.flat_rows(items))
    last = rows[-1] if rows else None

    def walk(items):
        out = []
        for it in items:
            if it[0] == 'break':
                out.append(canon(odf.build(odf.E('text:soft-page-break')), True))
            elif it[0] == 'row':
                cells = []
                for j, c in enumerate(it[3]):
                    n = tables.times(c[1], strategy, maxcount[1], j == len(it[3]) - 1)
                    cells.extend([canon(odf.build(tables.cell_data(c, False)), True)] * n)
                cells.extend([tables.EMPTY_CELL] * (width - len(cells)))
                n = tables.times(it[1], strategy, maxcount[0], it is last)
                attrs = tuple(sorted((odf.Q(k), v) for k, v in it[2].items()))
                out.extend([(tables.ROW, attrs, '', tuple(cells), '')] * n)
            else:
                out.append((odf.Q(tables.ROWTAGS[it[0]]), (), '', tuple(walk(it[1])), ''))
        return out
    return walk(items)


def normalised(xmltable):
    """canonical children of the table except column declarations, with default repetitions removed"""
    def walk(node, top):
        out = []
        for ch in node:
            if not isinstance(ch.tag, str):      # comments of the rows
                continue
            if ch.tag == tables.ROW:
                out.append((ch.tag, tables.norm_attrs(tuple(sorted(ch.attrib.items()))), ch.text or '',
                            tuple(norm(canon(c, True)) for c in ch), ch.tail or ''))
            elif ch.tag in [odf.Q(t) for t in tables.ROWTAGS.values()]:
                out.append((ch.tag, tables.norm_attrs(tuple(sorted(ch.attrib.items()))), ch.text or '', tuple(walk(ch, False)),
                            ch.tail or ''))
            elif ch.tag == tables.COLUMN or ch.tag in [odf.Q(t) for t in tables.COLTAGS.values()]:
                pass
            else:
                out.append(tables.strip_ids(canon(ch, True)))
        return out
    return walk(xmltable, True)


def comments(node):
    return [e.text for e in node.iter() if not isinstance(e.tag, str)]


def has_repeats(t):
    return any(r[1] and r[1] > 1 or any(c[1] and c[1] > 1 for c in r[3]) for r in tables.flat_rows(t['rows'])) or \
        any(c[1] and c[1] > 1 for c in tables.flat_cols(t['cols']))


def run_case(case, ctx):
    import ezodf
    from ezodf.conf import config
    from ezodf.xmlns import wrap
    DEFAULT = ('all_less_maxcount', [32, 32])
    todo = []
    for k, d in enumerate(case['tables']):
        strat, maxcount = d['conf']
        if strat is None:
            strat, maxcount = DEFAULT
        # size estimate before building the reference
        w = [sum(tables.times(c[1], strat, maxcount[1], j == len(r[3]) - 1) for j, c in enumerate(r[3]))
             for r in tables.flat_rows(d['table']['rows'])]
        h = sum(tables.times(r[1], strat, maxcount[0], False) for r in tables.flat_rows(d['table']['rows']))
        cw = sum(tables.times(c[1], strat, maxcount[1], False) for c in tables.flat_cols(d['table']['cols']))
        if h * max(w + [0]) > 4000 or cw > 4000:
            ctx.note('skipped: too big')
            continue
        todo.append((d, strat, maxcount))
    if not todo:
        return
    datas = [tables.table_data(d['table']) for d, _, _ in todo]
    doc = None
    if case['route'] == 'doc':
        doc = ezodf.opendoc(odf.package('ods', odf.content_data('ods', datas)))
    opened = []
    for k, (d, strat, maxcount) in enumerate(todo):
        ctx.step()
        if d['conf'][0] is None:
            config.reset_table_expand_strategy()
        elif strat == 'all_less_maxcount' or d['conf'][1] != [32, 32]:
            config.set_table_expand_strategy(strat, tuple(maxcount))
        else:
            config.set_table_expand_strategy(strat)
        t = d['table']
        rows, rattrs, cols = tables.expand(t, strat, maxcount)
        table = doc.sheets[k] if doc is not None else wrap(odf.build(datas[k]))
        # later configuration does not matter for a table which was accessed
        if d['later'][0] is not None:
            config.set_table_expand_strategy(d['later'][0], tuple(d['later'][1]))
        if doc is not None:
            table = doc.sheets[k]
        exact = bool(rows) and len(cols) == len(rows[0])
        if rows and rows[0]:
            check_table(table, rows, rattrs, cols, full=True, exact_cols=True)
        else:
            same((table.nrows(), table.ncols()), (len(rows), 0), 'dimensions of a table without cells')
        width = len(rows[0]) if rows else 0
        want = [canon(odf.build(e), True) for e in t['prelude']] + \
            expand_tree(t['rows'], strat, maxcount, width) + \
            [canon(odf.build(e), True) for e in t['epilogue']]
        got = normalised(table.xmlnode)
        if got != want:
            raise Violation('structure of the expanded table: %s' % odf.first_difference(
                ('t', (), '', tuple(got), ''), ('t', (), '', tuple(want), '')))
        same({a: v for a, v in table.xmlnode.attrib.items() if a != tables.XMLID},
             {odf.Q(a): v for a, v in t['attrs'].items()}, 'table attributes')
        src = odf.build(datas[k])
        same(sorted(tables.ids_of(table.xmlnode)), sorted(tables.ids_of(src)), 'identifiers of the expanded table')
        same(comments(table.xmlnode), comments(src), 'comments of the expanded table')
        for ch in table.xmlnode.iter(tables.CELL, tables.COVERED, tables.ROW, tables.COLUMN):
            if next(ch.iterancestors(tables.TABLE)) is not table.xmlnode:
                continue
            for key in tables.REPEATS:
                check(ch.get(key) in (None, '1'), 'repetition attribute %s remains', ch.get(key))
        opened.append((table, rows, rattrs, cols))
        ctx.note('strategy ' + strat)
        ctx.nontrivial(has_repeats(t) and len(rows) * width >= 2)
    if doc is not None:
        # the expanded tables are stored as expanded
        config.set_table_expand_strategy('all')
        again = ezodf.opendoc(doc.tobytes())
        for k, (table, rows, rattrs, cols) in enumerate(opened):
            if rows and rows[0]:
                check_table(again.sheets[k], rows, rattrs, cols, full=False)
    # editing one copy of a repeated cell does not change the others
    for table, rows, rattrs, cols in opened:
        if rows and rows[0]:
            j = len(rows[0]) // 2
            table[0, j].set_attr(odf.Q('x:mark'), 'm')
            marked = [p for p, c in table.itercells() if c.get_attr(odf.Q('x:mark')) == 'm']
            same(marked, [(0, j)], 'cells changed by editing one cell')
