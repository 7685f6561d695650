"""Table data: generator, XML builder, reference expander and observation through the API."""
import itertools

from lxml import etree

from core import Violation, short
from odf import E, NS, Q, build, canon, unq

CELL = Q('table:table-cell')
COVERED = Q('table:covered-table-cell')
ROW = Q('table:table-row')
COLUMN = Q('table:table-column')
TABLE = Q('table:table')
EMPTY_CELL = (CELL, (), '', (), '')
EMPTY_COLUMN = (COLUMN, (), '', (), '')
EMPTY_ROW_ATTRS = ()


# ------------------------------------------------------------ reference expander
# table data (JSON):
#   {'attrs': {}, 'prelude': [element data], 'epilogue': [...],
#    'cols': [item], 'rows': [item]}
#   column item: ['col', repeat, attrs] | ['group'|'header'|'cols', [items]]
#   row item: ['row', repeat, attrs, [cell]] | ['group'|'header'|'rows', [items]] | ['break']
#   cell: [covered, repeat, attrs, [element data]]
# optional: 'ids': n (every nth node gets a unique xml:id), 'comments': n (comment behind every nth cell)

COLTAGS = {'group': 'table:table-column-group', 'header': 'table:table-header-columns',
           'cols': 'table:table-columns'}
ROWTAGS = {'group': 'table:table-row-group', 'header': 'table:table-header-rows',
           'rows': 'table:table-rows'}


def cell_data(cell, with_repeat=True):
    covered, repeat, attrs, content = cell
    a = dict(attrs)
    if with_repeat and repeat is not None:
        a['table:number-columns-repeated'] = str(repeat)
    return E('table:covered-table-cell' if covered else 'table:table-cell', a, None, content)


XMLID = '{http://www.w3.org/XML/1998/namespace}id'
_ids = itertools.count(1)


def strip_ids(c):
    """canonical form without xml:id: identifiers are unique, so copies cannot have those of their source"""
    attrs = c[1]
    if not isinstance(c[0], str) or c[0].startswith('#') or attrs is None:
        return c
    if any(k == XMLID for k, _ in attrs):
        attrs = tuple(a for a in attrs if a[0] != XMLID)
    return (c[0], attrs, c[2], tuple(strip_ids(x) if x[1] or x[3] else x for x in c[3])) + tuple(c[4:])


def ids_of(xmltable):
    return [e.get(XMLID) for e in xmltable.iter('*') if e.get(XMLID) is not None]


def decorate(node, ids, comments):
    counts = {'ids': 0, 'cells': 0}

    def walk(d, comments):
        tag, attrs, text, children, tail = (list(d) + [None] * 5)[:5]
        if tag[0] == '#':
            return d
        counts['ids'] += 1
        attrs = dict(attrs or {})
        if ids and counts['ids'] % ids == 0:
            attrs['xml:id'] = 'id%d' % next(_ids)
        out = []
        if comments and tag == 'table:table-row' and counts['cells'] % comments == 0:
            out.append(['#comment', {}, 'first', [], None])
        if tag in ('table:table-cell', 'table:covered-table-cell'):
            comments = 0
        for ch in children or ():
            out.append(walk(ch, comments))
            if ch[0] in ('table:table-cell', 'table:covered-table-cell'):
                counts['cells'] += 1
                if comments and counts['cells'] % comments == 0:
                    out.append(['#pi', {'target': 't'}, 'x', [], None] if counts['cells'] % 5 == 4 else
                               ['#comment', {}, 'c%d' % counts['cells'], [], None])
        return [tag, attrs, text, out, tail]
    return walk(node, comments)


def table_data(t):
    data = _table_data(t)
    if t.get('ids') or t.get('comments'):
        data = decorate(data, t.get('ids'), t.get('comments'))
    return data


def _table_data(t):
    def cols(items):
        out = []
        for it in items:
            if it[0] == 'col':
                a = dict(it[2])
                if it[1] is not None:
                    a['table:number-columns-repeated'] = str(it[1])
                out.append(E('table:table-column', a))
            else:
                out.append(E(COLTAGS[it[0]], {}, None, cols(it[1])))
        return out

    def rows(items):
        out = []
        for it in items:
            if it[0] == 'row':
                a = dict(it[2])
                if it[1] is not None:
                    a['table:number-rows-repeated'] = str(it[1])
                out.append(E('table:table-row', a, None, [cell_data(c) for c in it[3]]))
            elif it[0] == 'break':
                out.append(E('text:soft-page-break'))
            else:
                out.append(E(ROWTAGS[it[0]], {}, None, rows(it[1])))
        return out

    return E('table:table', t.get('attrs', {}), None,
             list(t.get('prelude', ())) + cols(t['cols']) + rows(t['rows']) + list(t.get('epilogue', ())))


def flat_rows(items):
    for it in items:
        if it[0] == 'row':
            yield it
        elif it[0] != 'break':
            for r in flat_rows(it[1]):
                yield r


def flat_cols(items):
    for it in items:
        if it[0] == 'col':
            yield it
        else:
            for c in flat_cols(it[1]):
                yield c


def times(repeat, strategy, limit, last):
    n = 1 if repeat is None else repeat
    if strategy == 'all':
        return n
    if strategy == 'all_but_last':
        return 1 if last else n
    return n if n < limit else 1       # all_less_maxcount


def expand(t, strategy='all_less_maxcount', maxcount=(32, 32)):
    """-> (rows, rowattrs, cols): canonical cells, row attributes, canonical columns"""
    rows, rowattrs = [], []
    items = list(flat_rows(t['rows']))
    for i, (_, repeat, attrs, cells) in enumerate(items):
        line = []
        for j, c in enumerate(cells):
            n = times(c[1], strategy, maxcount[1], j == len(cells) - 1)
            line.extend([canon(build(cell_data(c, False)))] * n)
        n = times(repeat, strategy, maxcount[0], i == len(items) - 1)
        for _ in range(n):
            rows.append(list(line))
            rowattrs.append(tuple(sorted((Q(k), v) for k, v in attrs.items())))
    width = max([len(r) for r in rows] or [0])
    for r in rows:
        r.extend([EMPTY_CELL] * (width - len(r)))
    cols = []
    citems = list(flat_cols(t['cols']))
    for i, (_, repeat, attrs) in enumerate(citems):
        n = times(repeat, strategy, maxcount[1], i == len(citems) - 1)
        c = canon(build(E('table:table-column', attrs)))
        cols.extend([c] * n)
    if len(cols) < width:
        cols.extend([EMPTY_COLUMN] * (width - len(cols)))
    return rows, rowattrs, cols


# ------------------------------------------------------------ observation

REPEATS = (Q('table:number-columns-repeated'), Q('table:number-rows-repeated'))


def norm_attrs(attrs):
    """an explicit repetition of 1 is the default value and says nothing"""
    return tuple((k, v) for k, v in attrs if not (k in REPEATS and v == '1' or k == XMLID))


def norm(c):
    c = strip_ids(c)
    return (c[0], norm_attrs(c[1])) + tuple(c[2:])


def ccanon(wrapper):
    """canonical form of a wrapped node without its tail"""
    return norm(canon(wrapper.xmlnode))


def rows_of(xmltable):
    """row elements of a table element, without nested tables (independent walk)"""
    out = []

    def walk(node):
        for ch in node:
            if ch.tag == ROW:
                out.append(ch)
            elif ch.tag in (Q('table:table-row-group'), Q('table:table-header-rows'), Q('table:table-rows')):
                walk(ch)
    walk(xmltable)
    return out


def cols_of(xmltable):
    out = []

    def walk(node):
        for ch in node:
            if ch.tag == COLUMN:
                out.append(ch)
            elif ch.tag in (Q('table:table-column-group'), Q('table:table-header-columns'),
                            Q('table:table-columns')):
                walk(ch)
    walk(xmltable)
    return out


def observe_xml(xmltable):
    rows = rows_of(xmltable)
    return ([[norm(canon(c)) for c in r] for r in rows],
            [norm_attrs(tuple(sorted(r.attrib.items()))) for r in rows],
            [norm(canon(c)) for c in cols_of(xmltable)])


def diff_matrix(got, want):
    if len(got) != len(want):
        return '%d rows instead of %d' % (len(got), len(want))
    for i, (a, b) in enumerate(zip(got, want)):
        if len(a) != len(b):
            return 'row %d has %d cells instead of %d' % (i, len(a), len(b))
        for j, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return 'cell (%d, %d) is %s instead of %s' % (i, j, brief(x), brief(y))
    return None


def brief(c):
    return short('<%s %s>%s %s' % (unq(c[0]), [(unq(k), v) for k, v in c[1]], c[2], [brief(x) for x in c[3]]), 250)


def check_order(xmltable):
    """Column declarations stand before the rows, as ODF demands of every table."""
    rows, cols = rows_of(xmltable), cols_of(xmltable)
    place = {e: i for i, e in enumerate(xmltable.iter())}
    if rows and cols and max(place[c] for c in cols) > min(place[r] for r in rows):
        raise Violation('a column declaration stands behind a row')
    for node in xmltable:
        if node.tag in EPILOGUE and rows and place[node] < max(place[r] for r in rows):
            raise Violation('%s stands before a row' % unq(node.tag))


EPILOGUE = tuple(Q(t) for t in ('table:named-expressions', 'office:dde-source', 'table:dde-links'))


def check_table(table, rows, rowattrs=None, cols=None, full=True, exact_cols=True):
    """The table seen through the API and through its XML is the given matrix."""
    check_order(table.xmlnode)
    nrows, ncols = len(rows), len(rows[0]) if rows else 0
    if (table.nrows(), table.ncols()) != (nrows, ncols):
        raise Violation('dimensions are %r instead of %r' % ((table.nrows(), table.ncols()), (nrows, ncols)))
    xrows, xattrs, xcols = observe_xml(table.xmlnode)
    d = diff_matrix(xrows, rows)
    if d:
        raise Violation('stored table: ' + d)
    if rowattrs is not None and xattrs != rowattrs:
        raise Violation('stored row attributes are %s instead of %s' % (short(xattrs), short(rowattrs)))
    if cols is not None:
        if exact_cols:
            if xcols != cols:
                raise Violation('stored columns are %s instead of %s' % (
                    short([brief(c) for c in xcols]), short([brief(c) for c in cols])))
        elif xcols[:ncols] != cols[:ncols]:
            raise Violation('stored columns do not start with %s' % short([brief(c) for c in cols[:ncols]]))
    if not full:
        return
    got = [[ccanon(c) for c in r] for r in table.rows()]
    d = diff_matrix(got, rows)
    if d:
        raise Violation('rows(): ' + d)
    got = [[ccanon(c) for c in r] for r in table.columns()]
    want = [[rows[i][j] for i in range(nrows)] for j in range(ncols)]
    d = diff_matrix(got, want)
    if d:
        raise Violation('columns() (as matrix of columns): ' + d)
    it = list(table.itercells())
    if [p for p, c in it] != [(i, j) for i in range(nrows) for j in range(ncols)]:
        raise Violation('itercells() positions: %s' % short([p for p, c in it]))
    for (i, j), c in it:
        if ccanon(c) != rows[i][j]:
            raise Violation('itercells(): cell (%d, %d) is %s' % (i, j, brief(ccanon(c))))
        g = table[i, j]
        if ccanon(g) != rows[i][j]:
            raise Violation('table[%d, %d] is %s instead of %s' % (i, j, brief(ccanon(g)), brief(rows[i][j])))
        if g.kind != 'Cell':
            raise Violation('table[%d, %d].kind is %r' % (i, j, g.kind))
    if cols is not None:
        for j in range(ncols):
            if ccanon(table.column_info(j)) != cols[j]:
                raise Violation('column_info(%d) is %s instead of %s' % (
                    j, brief(ccanon(table.column_info(j))), brief(cols[j])))
            n = ccanon(table.column_info(j - ncols))
            if n != cols[j]:
                raise Violation('column_info(%d) of %d columns is %s instead of %s' % (
                    j - ncols, ncols, brief(n), brief(cols[j])))
    for i in range(nrows):
        r = table.row_info(i)
        if rowattrs is not None and norm_attrs(tuple(sorted(r.xmlnode.attrib.items()))) != rowattrs[i]:
            raise Violation('row_info(%d) has attributes %r' % (i, dict(r.xmlnode.attrib)))
        if [norm(canon(c)) for c in r.xmlnode] != rows[i]:
            raise Violation('row_info(%d) is not the row at this index' % i)
    if nrows and ncols:
        for i in (0, nrows - 1):
            if [ccanon(c) for c in table.row(i - nrows)] != rows[i]:
                raise Violation('row(%d) is wrong' % (i - nrows))
        for j in (0, ncols - 1):
            if [ccanon(c) for c in table.column(j - ncols)] != [rows[i][j] for i in range(nrows)]:
                raise Violation('column(%d) is wrong' % (j - ncols))


# ------------------------------------------------------------ strategies

def strategies():
    from hypothesis import strategies as st
    import gen

    class S(object):
        pass
    s = S()

    style = st.sampled_from(['ce1', 'ce2', 'co1', 'ro1', 'Default'])
    s.attrs = st.dictionaries(st.sampled_from(['table:style-name', 'x:a', 'table:visibility', 'table:default-cell-style-name', 'plain']),
                              st.sampled_from(['s1', 's2', 'collapse', '']), max_size=2)
    p = st.builds(lambda t: ['text:p', {}, t or None, [], None], gen.word(6))
    span = st.builds(lambda t, a: ['text:p', {'text:style-name': 'P1'}, t or None,
                                   [['text:span', {}, a or None, [], 'tail']], None], gen.word(3), gen.word(3))
    nested = st.just(['table:table', {'table:name': 'inner', 'table:is-sub-table': 'true'}, None, [
        ['table:table-column', {'table:number-columns-repeated': '2'}, None, [], None],
        ['table:table-row', {'table:number-rows-repeated': '2'}, None, [
            ['table:table-cell', {'table:number-columns-repeated': '2'}, None,
             [['text:p', {}, 'in', [], None]], None]], None]], None])
    note = st.just(['office:annotation', {}, None, [['text:p', {}, 'note', [], None]], None])
    s.content = st.lists(gen.choice((6, p), (2, span), (1, nested), (1, note)), max_size=2)
    values = st.sampled_from([
        {}, {}, {'office:value-type': 'float', 'office:value': '3.5'},
        {'office:value-type': 'string'}, {'table:formula': 'of:=[.A1]+1', 'office:value-type': 'float',
                                          'office:value': '2'},
        {'office:value-type': 'boolean', 'office:boolean-value': 'true'},
        {'table:style-name': 'ce1'}, {'x:foreign': 'q', 'table:protect': 'true'},
        {'office:value-type': 'date', 'office:date-value': '2011-02-03'},
        {'office:value-type': 'currency', 'office:value': '7', 'office:currency': 'EUR'},
        {'office:value-type': 'time', 'office:time-value': 'PT1H'}, {'office:value-type': 'percentage', 'office:value': '0.5'},
        {'office:value-type': 'string', 'office:string-value': 'shown'}])
    more = st.dictionaries(st.sampled_from(['table:content-validation-name', 'table:formula', 'table:protect', 'table:protected',
                                            'xlink:href', 'table:style-name', 'x:b', 'plain']),
                           st.sampled_from(['true', 'v1', '', 'of:=1']), max_size=2)
    value_attrs = gen.choice((3, values), (1, st.builds(lambda a, b: dict(b, **a), values, more)))

    def repeat(big):
        lits = [v for v in gen.SMALL_INTS if 2 <= v <= 40]
        return gen.choice((6, st.none()), (3, st.integers(1, 4)), (1, st.sampled_from(lits or [31])),
                          (1, st.sampled_from([1, 30, 31, 32, 33])),
                          (1 if big else 0, st.sampled_from([64, 100, 1000])))

    s.repeat = repeat

    def cell(rep, covered=True):
        cov = gen.choice((8, st.just(False)), (1, st.just(True))) if covered else st.just(False)
        return st.tuples(cov, rep, value_attrs, s.content).map(list)

    s.cell = cell

    def rows(rep_row, rep_cell, max_rows=4, max_cells=4, groups=True, min_cells=0, covered=True):
        row = st.tuples(st.just('row'), rep_row, s.attrs,
                        st.lists(cell(rep_cell, covered), min_size=min_cells, max_size=max_cells)).map(list)
        if not groups:
            return st.lists(row, min_size=1, max_size=max_rows)
        brk = st.just(['break'])
        flat = gen.choice((6, row), (1, brk))
        rows_ = st.tuples(st.just('rows'), st.lists(flat, min_size=1, max_size=3)).map(list)
        header = st.tuples(st.just('header'), st.lists(row, min_size=1, max_size=2)).map(list)
        group = st.tuples(st.just('group'), st.lists(gen.choice((3, row), (1, rows_), (1, header)),
                                                     min_size=1, max_size=2)).map(list)
        group2 = st.tuples(st.just('group'), st.lists(gen.choice((2, row), (2, group)),
                                                      min_size=1, max_size=2)).map(list)
        item = gen.choice((6, row), (1, brk), (1, rows_), (1, header), (1, group), (1, group2))
        return st.lists(item, min_size=1, max_size=max_rows).filter(
            lambda items: any(True for _ in flat_rows(items)))

    s.rows = rows

    def cols(rep, max_cols=4, groups=True):
        col = st.tuples(st.just('col'), rep, s.attrs).map(list)
        if not groups:
            return st.lists(col, max_size=max_cols)
        header = st.tuples(st.just('header'), st.lists(col, min_size=1, max_size=2)).map(list)
        colsg = st.tuples(st.just('cols'), st.lists(col, min_size=1, max_size=2)).map(list)
        group = st.tuples(st.just('group'), st.lists(gen.choice((3, col), (1, header), (1, colsg)),
                                                     min_size=1, max_size=2)).map(list)
        return st.lists(gen.choice((6, col), (1, header), (1, group), (1, colsg)), max_size=max_cols)

    s.cols = cols
    s.prelude = st.lists(st.sampled_from([
        ['office:forms', {'x:f': '1'}, None, [], None],
        ['table:table-source', {'xlink:href': 'x.ods'}, None, [], None],
        ['table:scenario', {}, None, [], None],
        ['table:shapes', {}, None, [], None],
        ['office:forms', {}, None, [], None],
        ['table:shapes', {}, None, [['draw:rect', {'draw:name': 'r'}, None, [
            ['text:p', {}, 'shape', [], None]], None]], None]]), max_size=2,
        unique_by=lambda e: e[0]).map(lambda l: sorted(l, key=lambda e: [
            'table:table-source', 'table:scenario', 'office:forms', 'table:shapes'].index(e[0])))
    s.epilogue = st.sampled_from([[], [], [], [['table:named-expressions', {}, None, [], None]]])
    s.table_attrs = st.sampled_from([{'table:name': 'T'}, {'table:name': 'T', 'table:style-name': 'ta1'},
                                     {'table:name': "q'x"}, {'table:name': ' sp ', 'table:print': 'false'}])

    def table(big=False, repeats=True, **kw):
        rep = repeat(big) if repeats else st.none()
        crep = repeat(big) if repeats else st.none()
        rkw = dict(kw)
        groups = rkw.get('groups', True)
        plain = st.builds(lambda a, pre, epi, c, r: {'attrs': a, 'prelude': pre, 'epilogue': epi,
                                                     'cols': c, 'rows': r},
                          s.table_attrs, s.prelude, s.epilogue, cols(crep, groups=groups),
                          rows(rep, crep, **rkw))
        extra = st.one_of(st.none(), st.none(), st.none(), st.tuples(st.integers(0, 3), st.integers(0, 3)).map(list))
        return st.builds(lambda t, x: t if x is None else dict(t, ids=x[0], comments=x[1]), plain, extra)
    s.table = table
    return s
