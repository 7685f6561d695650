"""C19: cell spans cover exactly their range and never overlap."""
import odf
import tables
from core import Violation, check, raises, same
from odf import Q, canon
from props.c17 import cased, letters

RULE = ('A case is a table (new or loaded, possibly with spans) and a list of set/remove span, cell edit and reload '
        'operations; non-trivial: at least one span larger than one cell was set and at least one request was '
        'rejected or a span was removed.')
ASSUME = ['no row/column insertion or deletion inside spanned areas but cutting off the last ones (see the known finding), and no cell assignment there',
          'no matrix-formula attributes', 'start positions of remove requests are not negative']
BUDGET = {'quick': 18800, 'thorough': 200000}

RS, CS = Q('table:number-rows-spanned'), Q('table:number-columns-spanned')


def strategy(profile):
    from hypothesis import strategies as st
    import gen
    s = tables.strategies()
    hi = 9 if profile['big'] else 6
    rel = st.one_of(st.integers(-1, hi), st.integers(0, 3), st.tuples(st.just('e'), st.integers(-2, 1)).map(list))
    size = gen.choice((6, st.integers(1, 3)), (2, st.integers(-1, hi)), (1, st.tuples(st.just('e'), st.integers(-2, 1)).map(list)))
    by = st.sampled_from(['t', 'a', 'l'])
    n = st.integers(0, 40)
    op = gen.choice((6, gen.op('setin', n, n, n, n, by)), (3, gen.op('set', rel, rel, size, size, by)), (3, gen.op('remove', rel, rel, by)),
                    (2, gen.op('removespan', st.integers(0, 5))),
                    (2, gen.op('resize', st.integers(0, 5), st.integers(1, 4), st.integers(1, 4))),
                    (2, gen.op('value', rel, rel, st.one_of(st.integers(0, 9), gen.word(3)))),
                    (1, gen.op('reload')), (1, gen.op('cut', st.booleans(), st.integers(1, 2))))
    nonrep = s.cell(st.none(), covered=False)
    grid = st.sampled_from([1, 2, 3, 3, 4, 4, 5, hi]).flatmap(lambda w: st.lists(
        st.lists(gen.choice((3, nonrep), (4, st.just([False, None, {}, []]))), min_size=w, max_size=w),
        min_size=2, max_size=hi))
    spans = st.lists(st.tuples(st.integers(0, hi), st.integers(0, hi), st.integers(1, 3), st.integers(1, 3),
                               st.booleans()).map(list), max_size=4)
    return st.fixed_dictionaries({'grid': grid, 'spans': spans, 'new': st.booleans(),
                                  'ops': st.lists(op, min_size=3, max_size=24 if profile['big'] else 14)})


def area(r, c, h, w):
    return set((i, j) for i in range(r, r + h) for j in range(c, c + w))


def split(c):
    """content of a cell without everything that belongs to spans"""
    return (tuple((k, v) for k, v in c[1] if k not in (RS, CS) and k not in tables.REPEATS),) + tuple(c[2:])


def run_case(case, ctx):
    import ezodf
    grid = case['grid']
    nr, nc = len(grid), len(grid[0])
    spans = {}
    if case['new']:
        grid = [[[False, None, {}, []]] * nc for _ in range(nr)]
        doc = ezodf.newdoc('ods')
        doc.sheets.append(ezodf.Sheet('T', size=(nr, nc)))
    else:
        taken = set()
        cells = [[list(c) for c in row] for row in grid]
        for r, c, h, w, both in case['spans']:
            a = area(r, c, h, w)
            if len(a) == 1 or r >= nr or c >= nc or a & taken:
                continue
            taken |= a      # may leave the table, like in files whose repeated last rows are not expanded
            spans[r, c] = (h, w)
            attrs = dict(cells[r][c][2])
            if both or h > 1:
                attrs['table:number-rows-spanned'] = str(h)
            if both or w > 1:
                attrs['table:number-columns-spanned'] = str(w)
            for i, j in a:
                if i < nr and j < nc:
                    cells[i][j][0] = True
            cells[r][c][0] = False
            cells[r][c][2] = attrs
        data = tables.table_data({'attrs': {'table:name': 'T'}, 'cols': [],
                                  'rows': [['row', None, {}, row] for row in cells]})
        doc = ezodf.opendoc(odf.package('ods', odf.content_data('ods', [data])))
    table = doc.sheets[0]
    content = [[split(canon(odf.build(tables.cell_data(c)))) for c in row] for row in grid]

    def verify(t, what):
        same((t.nrows(), t.ncols()), (nr, nc), 'dimensions ' + what)
        covered = set()
        for (r, c), (h, w) in spans.items():
            covered |= area(r, c, h, w) - {(r, c)}
        for (i, j), cell in t.itercells():
            if cell.span != spans.get((i, j), (1, 1)):
                raise Violation('%s: span of (%d, %d) is %r instead of %r' % (
                    what, i, j, cell.span, spans.get((i, j), (1, 1))))
            if cell.covered != ((i, j) in covered):
                raise Violation('%s: cell (%d, %d) covered is %r' % (what, i, j, cell.covered))
            if cell.xmlnode.tag != (tables.COVERED if (i, j) in covered else tables.CELL):
                raise Violation('%s: cell (%d, %d) is stored as %s' % (what, i, j, odf.unq(cell.xmlnode.tag)))
            if cell.kind != 'Cell':
                raise Violation('%s: kind of (%d, %d) is %r' % (what, i, j, cell.kind))
            got = split(canon(cell.xmlnode))
            if got != content[i][j]:
                raise Violation('%s: content of cell (%d, %d) is %r instead of %r' % (what, i, j, got, content[i][j]))

    verify(table, 'as opened')
    nset = nrej = nrem = 0

    def ref(r, c, by):
        if by == 'a' and r >= 0 and c >= 0:
            return letters(c) + str(r + 1)
        if by == 'l' and r >= 0 and c >= 0:
            return letters(c).lower() + str(r + 1)
        return (r, c)

    for op in case['ops']:
        ctx.step()
        if op[0] == 'setin':
            r, c = op[1] % nr, op[2] % nc
            op = ['set', r, c, 1 + op[3] % min(3, nr - r), 1 + op[4] % min(3, nc - c), op[5]]
        kind = op[0]
        if kind == 'set' or kind == 'resize':
            if kind == 'resize':
                if not spans:
                    continue
                r, c = sorted(spans)[op[1] % len(spans)]
                h, w, by = op[2], op[3], 't'
            else:
                r = nr + op[1][1] if isinstance(op[1], list) else op[1]
                c = nc + op[2][1] if isinstance(op[2], list) else op[2]
                h = nr + op[3][1] if isinstance(op[3], list) else op[3]
                w = nc + op[4][1] if isinstance(op[4], list) else op[4]
                by = op[5]
            taken = set()
            for (a, b), (x, y) in spans.items():
                taken |= area(a, b, x, y)
            ok = r >= 0 and c >= 0 and h >= 1 and w >= 1 and r + h <= nr and c + w <= nc and \
                not area(r, c, h, w) & taken
            if ok:
                table.set_cell_span(ref(r, c, by), (h, w))
                if (h, w) != (1, 1):
                    spans[r, c] = (h, w)
                    nset += 1
                ctx.note('set')
            else:
                raises((ValueError, IndexError), table.set_cell_span, ref(r, c, by), (h, w))
                nrej += 1
                ctx.note('set rejected')
        elif kind in ('remove', 'removespan'):
            if kind == 'remove':
                r = nr + op[1][1] if isinstance(op[1], list) else op[1]
                c = nc + op[2][1] if isinstance(op[2], list) else op[2]
                by = op[3]
            else:
                if not spans:
                    continue
                r, c = sorted(spans)[op[1] % len(spans)]
                by = 't'
            if r < 0 or c < 0:
                continue
            if r >= nr or c >= nc:
                raises((IndexError, ValueError), table.remove_cell_span, ref(r, c, by))
            else:
                table.remove_cell_span(ref(r, c, by))
                if spans.pop((r, c), None):
                    nrem += 1
                ctx.note('remove')
        elif kind == 'value':
            r = nr + op[1][1] if isinstance(op[1], list) else op[1]
            c = nc + op[2][1] if isinstance(op[2], list) else op[2]
            if not (0 <= r < nr and 0 <= c < nc):
                continue
            table[r, c].set_value(op[3])
            check(table[r, c].value == op[3], 'value of (%s, %s) is %s', r, c, table[r, c].value)
            content[r][c] = split(canon(table[r, c].xmlnode))
        elif kind == 'cut':
            # spans may leave the table now
            if op[1] and op[2] < nr:
                table.delete_rows(nr - op[2], op[2])
                nr -= op[2]
            elif not op[1] and op[2] < nc:
                table.delete_columns(nc - op[2], op[2])
                nc -= op[2]
            spans = {p: s for p, s in spans.items() if p[0] < nr and p[1] < nc}
            content = [row[:nc] for row in content[:nr]]
            ctx.note('cut through spans', sum(r + h > nr or c + w > nc for (r, c), (h, w) in spans.items()))
        elif kind == 'deleterow':       # known finding
            table.delete_rows(op[1], 1)
            seen = set()
            for (i, j), cell in table.itercells():
                a = area(i, j, *cell.span) if cell.span != (1, 1) else set()
                check(not a & seen, 'after %r the spans overlap', op)
                seen |= a
            return
        elif kind == 'reload':
            doc = ezodf.opendoc(doc.tobytes())
            table = doc.sheets[0]
        verify(table, 'after %r' % (op,))
    verify(ezodf.opendoc(doc.tobytes()).sheets[0], 'after save and reload')
    ctx.nontrivial(nset and (nrej or nrem))
