"""C17: cell addresses and index tuples denote the same cell."""
import re

import tables
from core import Violation, check, raises, same
from odf import canon

RULE = ('A case is a table size and a list of references: valid addresses (any letter case), index tuples in and '
        'out of range, malformed strings; non-trivial: at least one address with two or more letters or a '
        'negative/out-of-range index or a malformed string was decided.')
ASSUME = ['row numbers with leading zeros ("A01") are not judged', 'tables of at most 60000 cells']
BUDGET = {'quick': 8600, 'thorough': 150000}

VALID = re.compile(r'[A-Za-z]+[1-9][0-9]*\Z')
ZEROS = re.compile(r'[A-Za-z]+0+[1-9][0-9]*\Z')


def letters(col):
    s = ''
    col += 1
    while col:
        col, r = divmod(col - 1, 26)
        s = chr(65 + r) + s
    return s


def strategy(profile):
    from hypothesis import strategies as st
    import gen
    edges = [0, 1, 24, 25, 26, 27, 51, 52, 675, 676, 700, 701, 702, 703, 704, 1023, 1024, 16383, 18277, 18278, 18279]
    sizes = gen.choice(
        (6, st.tuples(st.integers(1, 5), st.integers(1, 30))),
        (2, st.tuples(st.integers(1, 2), st.sampled_from([26, 27, 53, 677, 703, 704, 705, 1025]))),
        (1 if profile['big'] else 0, st.tuples(st.just(1), st.sampled_from([18278, 18279, 18300]))),
        (2, st.tuples(st.sampled_from([9, 10, 11, 99, 101, 1001]), st.integers(1, 3))))
    pos = st.one_of(st.integers(0, 30), st.sampled_from(edges), st.integers(0, 20000),
                    st.tuples(st.just('e'), st.integers(-3, 2)).map(list))
    case = st.lists(st.booleans(), max_size=4)
    bad = st.one_of(
        st.text(st.sampled_from(list('AaZz019$.:-+ \n_é٣') + ['\u0661', '\uff11', '\u0391', '\xc4']), max_size=6),
        st.sampled_from(['', 'A', '1', 'A0', '1A', 'A-1', 'A 1', ' A1', 'A1 ', 'A1\n', 'A1B', '$A$1', 'A1:B2', 'A1.5',
                         'A+1', 'Sheet.A1', 'A１', 'A1A1', '00', 'AA', 'A1\x00'.replace('\x00', '\t')]),
        gen.text(6))
    ref = st.one_of(
        gen.op('addr', pos, pos, case),
        gen.op('addr', pos, pos, case),
        gen.op('tuple', st.integers(-8, 40), st.integers(-8, 40)),
        gen.op('edge', st.sampled_from(['+', '-']), st.sampled_from(['+', '-']), st.integers(-2, 2), st.integers(-2, 2)),
        gen.op('bad', bad),
        gen.op('far', st.sampled_from(letters_list()), st.sampled_from(['1', '9', '99999999', '1' * 25])),
        gen.op('convert', st.one_of(st.integers(0, 10 ** 6), st.sampled_from(edges), st.integers(0, 10 ** 12)),
               st.one_of(st.integers(0, 10 ** 6), st.integers(0, 10 ** 15)), case),
    )
    return st.fixed_dictionaries({'size': sizes.map(list), 'refs': st.lists(ref, min_size=1, max_size=8)})


def letters_list():
    return ['A', 'B', 'Z', 'AA', 'ZZ', 'AAA', 'XFD', 'ZZZ', 'AAAA', 'ZZZZZZZ', 'A' * 30]


def cased(s, mask):
    return ''.join(c.lower() if mask and mask[i % len(mask)] else c for i, c in enumerate(s))


_cache = {}


def get_table(size):
    """big tables are expensive: keep the last one, cases leave them unchanged"""
    from ezodf.table import Table
    key = tuple(size)
    if key not in _cache:
        _cache.clear()
        t = Table('T', size=key)
        _cache[key] = (t, canon(t.xmlnode))
    return _cache[key]


def run_case(case, ctx):
    import ezodf
    try:
        from ezodf.tableutils import address_to_index
    except ImportError:
        address_to_index = None
    nr, nc = case['size']
    big = nr * nc > 400
    if big:
        table, before = get_table(case['size'])
    else:
        from ezodf.table import Table
        table = Table('T', size=(nr, nc))
        before = canon(table.xmlnode)
    xrows = [list(r) for r in tables.rows_of(table.xmlnode)]
    xcols = tables.cols_of(table.xmlnode)
    nt = False
    changed = False

    def getters(ref, row_index, col_index):
        return [(lambda: table[ref], 'table[%r]' % (ref,)),
                (lambda: table.row(row_index), 'row(%r)' % (row_index,)),
                (lambda: table.column(col_index), 'column(%r)' % (col_index,)),
                (lambda: table.row_info(row_index), 'row_info(%r)' % (row_index,)),
                (lambda: table.column_info(col_index), 'column_info(%r)' % (col_index,))]

    def expect_cell(ref, row_index, col_index, r, c):
        same(table[ref].xmlnode is xrows[r][c], True, 'table[%r] is the cell (%d, %d)' % (ref, r, c))
        same([w.xmlnode for w in table.row(row_index)] == xrows[r], True, 'row(%r) is row %d' % (row_index, r))
        same([w.xmlnode for w in table.column(col_index)] == [x[c] for x in xrows], True,
             'column(%r) is column %d' % (col_index, c))
        same(table.row_info(row_index).xmlnode is xrows[r][0].getparent(), True, 'row_info(%r)' % (row_index,))
        same(table.column_info(col_index).xmlnode is xcols[c], True, 'column_info(%r)' % (col_index,))

    for op in case['refs']:
        ctx.step()
        if op[0] == 'addr':
            r = nr + op[1][1] if isinstance(op[1], list) else op[1]
            c = nc + op[2][1] if isinstance(op[2], list) else op[2]
            if r < 0 or c < 0:
                continue
            ref = cased(letters(c), op[3]) + str(r + 1)
            if r < nr and c < nc:
                expect_cell(ref, ref, ref, r, c)
                if not big:
                    # writing by address writes the cell of the tuple
                    table[ref] = ezodf.Cell(7)
                    check(table[r, c].value == 7.0, 'cell set by %s is not at (%s, %s)', ref, r, c)
                    xrows = [list(x) for x in tables.rows_of(table.xmlnode)]
                    table[r, c].set_value('by tuple')
                    check(table[ref].value == 'by tuple', 'cell set by tuple is not at %s', ref)
                    h, w = min(2, nr - r), min(2, nc - c)
                    if h * w > 1:
                        table.set_cell_span(ref, (h, w))
                        check(table[r, c].span == (h, w), 'span set by %s: %s', ref, table[r, c].span)
                        cov = [p for p, x in table.itercells() if x.covered]
                        same(cov, [(r + i, c + j) for i in range(h) for j in range(w) if (i, j) != (0, 0)],
                             'covered cells of the span at %s' % ref)
                        table.remove_cell_span(ref)
                        check(table[r, c].span == (1, 1), 'span removed by %s is still there', ref)
                    changed = True
                nt = nt or c > 25
                ctx.note('address of %d letters' % len(letters(c)))
            else:
                raises(IndexError, lambda: table[ref])
                raises(IndexError, table.__setitem__, ref, ezodf.Cell(1))
                if r >= nr:
                    raises(IndexError, table.row, ref)
                    raises(IndexError, table.row_info, ref)
                if c >= nc:
                    raises(IndexError, table.column, ref)
                    raises(IndexError, table.column_info, ref)
                nt = True
                ctx.note('address out of range')
        elif op[0] in ('tuple', 'edge'):
            if op[0] == 'tuple':
                r, c = op[1], op[2]
            else:
                r = (nr if op[1] == '+' else -nr) + op[3]
                c = (nc if op[2] == '+' else -nc) + op[4]
            if -nr <= r < nr and -nc <= c < nc:
                expect_cell((r, c), r, c, r % nr, c % nc)
                if not big:
                    table[r, c] = ezodf.Cell('neg')
                    xrows = [list(x) for x in tables.rows_of(table.xmlnode)]
                    check(table[r % nr, c % nc].value == 'neg', 'cell set at (%s, %s) is elsewhere', r, c)
                    changed = True
            else:
                raises(IndexError, lambda: table[r, c])
                raises(IndexError, table.__setitem__, (r, c), ezodf.Cell(1))
                if not -nr <= r < nr:
                    raises(IndexError, table.row, r)
                    raises(IndexError, table.row_info, r)
                if not -nc <= c < nc:
                    raises(IndexError, table.column, c)
                    raises(IndexError, table.column_info, c)
            nt = nt or r < 0 or c < 0
            ctx.note('tuple')
        elif op[0] == 'bad':
            if VALID.match(op[1]) or ZEROS.match(op[1]):
                continue
            s = op[1]
            for f, what in getters(s, s, s):
                try:
                    got = f()
                except ValueError:
                    continue
                except Exception as e:
                    raise Violation('%s raised %r instead of ValueError' % (what, e))
                raise Violation('%s returned %r instead of raising ValueError' % (what, got))
            raises(ValueError, table.__setitem__, s, ezodf.Cell(1))
            raises(ValueError, table.set_cell_span, s, (1, 1))
            raises(ValueError, table.remove_cell_span, s)
            if address_to_index is not None:
                raises(ValueError, address_to_index, s)
            nt = True
            ctx.note('malformed')
        elif op[0] == 'far':
            ref = op[1] + op[2]
            r, c = int(op[2]) - 1, sum((ord(x) - 64) * 26 ** k for k, x in enumerate(reversed(op[1]))) - 1
            if r < nr and c < nc:
                expect_cell(ref, ref, ref, r, c)
            else:
                raises(IndexError, lambda: table[ref])
            nt = True
        elif op[0] == 'convert' and address_to_index is not None:
            ref = cased(letters(op[1]), op[3]) + str(op[2] + 1)
            same(tuple(address_to_index(ref)), (op[2], op[1]), 'address_to_index(%r)' % ref)
            nt = nt or op[1] > 25
            ctx.note('conversion')
        if not changed:
            check(len(tables.rows_of(table.xmlnode)) == nr, 'looking cells up changed the table')
    if not changed and not big:
        check(canon(table.xmlnode) == before, 'looking cells up changed the table')
    ctx.nontrivial(nt)
