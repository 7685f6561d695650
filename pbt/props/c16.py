"""C16: tables are rectangular matrices under row and column editing."""
import odf
import tables
from core import Violation, check, raises, same, short
from tables import EMPTY_CELL, EMPTY_COLUMN, ccanon, check_table

RULE = ('A case is a table (new, or loaded with groups/headers/repeats/nested tables) and a list of '
        'row/column/cell operations; non-trivial: at least 3 operations succeeded, of which at least one '
        'changed the number of rows or columns of a table with more than one cell.')
ASSUME = ['loaded rows contain cells only (no XML comments between cells)',
          'expanded tables of at most 2500 cells',
          'column indices and counts are integers']
BUDGET = {'quick': 10700, 'thorough': 120000}

ERR = (IndexError, ValueError, TypeError)


class MCell(object):
    def __init__(self, c):
        self.c = c


def strategy(profile):
    from hypothesis import strategies as st
    import gen
    s = tables.strategies()
    big = profile['big']
    idx = gen.choice((4, st.integers(-4, 4)), (5, st.tuples(st.just('m'), st.integers(0, 40)).map(list)),
                     (2, st.tuples(st.just('e'), st.integers(-3, 1)).map(list)),
                     (2, st.tuples(st.just('n'), st.integers(-1, 2)).map(list)))
    inidx = gen.choice((1, st.integers(-3, 3)), (6, st.tuples(st.just('m'), st.integers(0, 40)).map(list)),
                       (1, st.tuples(st.just('n'), st.integers(0, 2)).map(list)))
    count = gen.choice((8, st.integers(1, 3)), (1, st.integers(-1, 0)), (1, gen.small(0, 12)),
                       (1, st.tuples(st.just('e'), st.integers(-2, 1)).map(list)))
    if big:
        count = gen.choice((8, count), (1, gen.size(1, 6, 70)))
    value = st.one_of(st.integers(-9, 99), gen.word(5), st.booleans(), st.just(2.5))
    ops = []
    for what in ('rows', 'columns'):
        ops += [(2, gen.op('append_' + what, count)), (4, gen.op('insert_' + what, idx, count)),
                (4, gen.op('delete_' + what, idx, count))]
    ops += [(4, gen.op('set', inidx, inidx, value)), (2, gen.op('cell', inidx, inidx, value)),
            (1, gen.op('copycell', inidx, inidx, inidx, inidx)), (2, gen.op('hold', inidx, inidx)),
            (1, gen.op('rowstyle', inidx, gen.word(3))), (1, gen.op('colstyle', inidx, gen.word(3))),
            (1, gen.op('look')), (1, gen.op('reload')), (3, gen.op('wrapagain', st.integers(0, 5)))]
    new = st.fixed_dictionaries({'new': st.tuples(gen.size(1, 5, 40 if big else 12),
                                                  gen.size(1, 5, 40 if big else 12)).map(list)})
    loaded = st.fixed_dictionaries({'table': s.table(big=big)})
    plain = st.fixed_dictionaries({'table': s.table(big=False, repeats=False, covered=False)})
    return st.fixed_dictionaries({
        'src': st.one_of(new, loaded, plain),
        'route': st.sampled_from(['bare', 'doc']),
        'ops': st.lists(gen.choice(*ops), min_size=1, max_size=25 if big else 12)})


def resolve(i, n):
    if isinstance(i, list):
        if i[0] == 'm':
            return i[1] % n if n else i[1]
        if i[0] == 'e':
            return n + i[1]
        return -n + i[1]
    return i


def open_table(case, ctx):
    import ezodf
    from ezodf.table import Table
    from ezodf.xmlns import wrap
    src = case['src']
    if 'new' in src:
        size = tuple(src['new'])
        if size[0] * size[1] > 2500:
            return None
        if case['route'] == 'doc':
            doc = ezodf.newdoc('ods')
            table = ezodf.Sheet('T', size=size)
            doc.sheets.append(table)
        else:
            doc, table = None, Table('T', size=size)
        rows = [[MCell(EMPTY_CELL) for _ in range(size[1])] for _ in range(size[0])]
        return doc, table, rows, [()] * size[0], [EMPTY_COLUMN] * size[1], True
    t = src['table']
    rows, rattrs, cols = tables.expand(t)
    if not rows or not rows[0] or len(rows) * max(len(rows[0]), len(cols)) > 2500:
        return None
    data = tables.table_data(t)
    if case['route'] == 'doc':
        blob = odf.package('ods', odf.content_data('ods', [data]))
        doc = ezodf.opendoc(blob)
        table = doc.sheets[0]
    else:
        doc, table = None, wrap(odf.build(data))
    return doc, table, [[MCell(c) for c in r] for r in rows], rattrs, cols, len(cols) == len(rows[0])


def verify(table, rows, rattrs, cols, exact, full):
    check_table(table, [[c.c for c in r] for r in rows], rattrs, cols, full=full, exact_cols=exact)


def run_case(case, ctx):
    import ezodf
    opened = open_table(case, ctx)
    if opened is None:
        ctx.note('skipped: too big or empty')
        return
    doc, table, rows, rattrs, cols, exact = opened
    rattrs = list(rattrs)
    cols = list(cols)
    verify(table, rows, rattrs, cols, exact, True)
    held, wrappers = [], []
    done = resized = 0
    multi = len(rows) * len(rows[0]) > 1
    for op in case['ops']:
        ctx.step()
        nr, nc = len(rows), len(rows[0])
        name = op[0]
        what = None
        if name.endswith('_rows') or name.endswith('_columns'):
            what = name.split('_')[1]
            n = nr if what == 'rows' else nc
            if name.startswith('append'):
                i, cnt = None, resolve(op[1], n)
                ok = cnt >= 1
                a = (cnt,)
            else:
                i, cnt = resolve(op[1], n), resolve(op[2], n)
                a = (i, cnt)
                p = i + n if i < 0 else i
                if name.startswith('insert'):
                    ok = cnt >= 1 and -n <= i < n
                else:
                    ok = 1 <= cnt < n and -n <= i < n and p + cnt <= n
            if name.startswith(('append', 'insert')) and cnt > 0 and (nr if what == 'columns' else nc) * (n + cnt) > 4000:
                continue
            f = getattr(table, name)
            if not ok:
                raises(ERR, f, *a)
                ctx.note('rejected ' + name)
                verify(table, rows, rattrs, cols, exact, False)
                continue
            f(*a)
            ctx.note(name)
            resized += 1
            if what == 'rows':
                if name == 'append_rows':
                    p = n
                if name == 'delete_rows':
                    del rows[p:p + cnt], rattrs[p:p + cnt]
                else:
                    rows[p:p] = [[MCell(EMPTY_CELL) for _ in range(nc)] for _ in range(cnt)]
                    rattrs[p:p] = [()] * cnt
            else:
                if name == 'append_columns':
                    p = n
                for r in rows:
                    if name == 'delete_columns':
                        del r[p:p + cnt]
                    else:
                        r[p:p] = [MCell(EMPTY_CELL) for _ in range(cnt)]
                if name == 'delete_columns':
                    del cols[p:p + cnt]
                elif name == 'insert_columns' or exact:
                    cols[p:p] = [EMPTY_COLUMN] * cnt
                else:
                    # more column entries than columns: new columns take over the surplus entries
                    cols.extend([EMPTY_COLUMN] * cnt)
        elif name in ('set', 'cell', 'hold', 'copycell'):
            i, j = resolve(op[1], nr), resolve(op[2], nc)
            inside = -nr <= i < nr and -nc <= j < nc
            if name == 'set':
                if not inside:
                    raises(ERR, lambda: table[i, j])
                else:
                    cell = table[i, j]
                    cell.set_value(op[3])
                    check(table[i, j].value == op[3] or op[3] == '', 'value of cell (%s, %s) is %s after setting %s',
                          i, j, table[i, j].value, op[3])
                    rows[i][j].c = ccanon(cell)
            elif name == 'cell':
                cell = ezodf.Cell(op[3])
                c = ccanon(cell)
                if not inside:
                    raises(ERR, table.__setitem__, (i, j), cell)
                else:
                    table[i, j] = cell
                    rows[i][j] = MCell(c)
            elif name == 'copycell':
                k, l = resolve(op[3], nr), resolve(op[4], nc)
                if not inside or not (-nr <= k < nr and -nc <= l < nc):
                    continue
                if rows[i][j] is rows[k][l]:
                    continue
                table[k, l] = table[i, j]
                rows[k][l] = MCell(rows[i][j].c)
            elif inside:
                held.append((table[i, j], rows[i][j]))
            ctx.note(name)
        elif name == 'rowstyle':
            i = resolve(op[1], nr)
            if not -nr <= i < nr:
                raises(ERR, table.row_info, i)
                continue
            table.row_info(i).style_name = op[2]
            d = dict(rattrs[i])
            d[odf.Q('table:style-name')] = op[2]
            rattrs[i] = tuple(sorted(d.items()))
        elif name == 'colstyle':
            j = resolve(op[1], nc)
            if not 0 <= j < nc:
                continue
            table.column_info(j).style_name = op[2]
            d = dict(cols[j][1])
            d[odf.Q('table:style-name')] = op[2]
            cols[j] = (cols[j][0], tuple(sorted(d.items()))) + tuple(cols[j][2:])
        elif name == 'look':
            verify(table, rows, rattrs, cols, exact, True)
            continue
        elif name == 'wrapagain':
            if doc is None:
                continue
            # other routes to the same table
            wrappers.append(table)
            if op[1] == 0:
                table = doc.sheets[0]
            elif op[1] == 1:
                table = [e for e in doc.body if e.kind == 'Table'][0]
            elif op[1] == 2:
                table = doc.body.find(table.TAG)
            elif op[1] == 3:
                table = list(doc.body.findall(table.TAG))[0]
            else:
                table = wrappers[(op[1] - 4) * len(wrappers) // 2]
        elif name == 'reload':
            if doc is None:
                continue
            doc = ezodf.opendoc(doc.tobytes())
            table = doc.sheets[0]
            held, wrappers = [], []
        done += 1
        verify(table, rows, rattrs, cols, exact, False)
    verify(table, rows, rattrs, cols, exact, True)
    # references obtained earlier still denote their cells
    live = set(id(c) for r in rows for c in r)
    for n, (wrapper, m) in enumerate(held):
        if id(m) in live:
            check(ccanon(wrapper) == m.c, 'a cell reference obtained earlier shows %s', ccanon(wrapper))
            wrapper.set_value(1000 + n)
            m.c = ccanon(wrapper)
    if held:
        verify(table, rows, rattrs, cols, exact, False)
    if doc is not None:
        doc2 = ezodf.opendoc(doc.tobytes())
        verify(doc2.sheets[0], rows, rattrs, cols, exact, False)
    ctx.nontrivial(done >= 3 and resized >= 1 and multi)
