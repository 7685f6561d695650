"""C21: copying, resetting and clearing tables is exact and independent."""
import random

import odf
import tables
from core import Violation, check, raises, same, short
from odf import Q, canon_run as canon
from tables import EMPTY_CELL, EMPTY_COLUMN, check_table

RULE = ('A case is a table (new or loaded: groups, headers, shapes, nested tables, unnamed) and a list of copy, '
        'reset, clear and edit operations on original and copies; non-trivial: a copy or reset was made and '
        'followed by at least two edits.')
ASSUME = ['attributes other than the name are not judged for reset() and clear()', 'tables of at most 1500 cells']
BUDGET = {'quick': 12000, 'thorough': 100000}
NAME = Q('table:name')


def strategy(profile):
    from hypothesis import strategies as st
    import gen
    s = tables.strategies()
    who = st.integers(0, 3)
    n = st.integers(0, 30)
    size = st.tuples(gen.size(1, 5, 20), gen.size(1, 5, 20)).map(list)
    bad = st.sampled_from([[0, 1], [1, 0], [-1, 3], [3, -1], [0, 0], [1.5, 2], [2, 1.5], ['2', 2], [2, None], [2],
                           [1, 2, 3], None, 5, 'ab', [2, [1]], [10 ** 6, 0]])
    edit = gen.choice((3, gen.op('set', n, n, st.one_of(st.integers(0, 99), gen.word(4)))),
                      (1, gen.op('append_rows', st.integers(1, 3))), (1, gen.op('append_columns', st.integers(1, 3))),
                      (2, gen.op('insert_rows', n, st.integers(1, 2))), (2, gen.op('insert_columns', n, st.integers(1, 2))),
                      (2, gen.op('delete_rows', n, st.integers(1, 2))), (2, gen.op('delete_columns', n, st.integers(1, 2))),
                      (2, gen.op('rowinfo', n, gen.word(3))), (2, gen.op('colinfo', n, gen.word(3))),
                      (1, gen.op('name', gen.word(4))), (1, gen.op('style', gen.word(4))),
                      (1, gen.op('protected', st.booleans())), (1, gen.op('print_', st.booleans())),
                      (1, gen.op('span', n, n)), (1, gen.op('unspan', n)), (1, gen.op('text', n, n, gen.word(4))),
                      (1, gen.op('cellattr', n, n, gen.word(3))), (1, gen.op('setcell', n, n, gen.word(3))))
    op = gen.choice((5, st.tuples(st.just('edit'), who, edit).map(list)),
                    (2, gen.op('copy', who, st.one_of(st.none(), gen.name(), gen.word(4), st.sampled_from(['', ' ', '\n', ' a\n'])))),
                    (1, gen.op('reset', who, size)), (1, gen.op('reset', who, bad)), (1, gen.op('clear', who)),
                    (1, gen.op('defaultreset', who)), (1, gen.op('store', who)), (1, gen.op('reload')))
    new = st.fixed_dictionaries({'new': size, 'attrs': st.just({'table:name': 'T'})})
    unnamed = st.sampled_from([{}, {'table:name': ''}, {'table:style-name': 'ta'}, {'table:protected': 'true', 'table:protection-key': 'k1'},
                               {'table:name': 'P', 'table:protected': 'true', 'table:protection-key': 'k2', 'table:print': 'false',
                                'table:display': 'false', 'x:keep': '1'}])
    loaded = st.one_of(s.table(repeats=False), s.table(repeats=False), s.table(big=False),
                       st.builds(lambda t, a: dict(t, attrs=a), s.table(repeats=False), unnamed))
    return st.fixed_dictionaries({'src': st.one_of(new, loaded, loaded),
                                  'ops': st.lists(op, min_size=2, max_size=20 if profile['big'] else 12)})


def normalize(name):
    for ch in '\t\r\'"':
        name = name.replace(ch, ' ')
    return name.strip()


def observe(table):
    """everything observable through the API, plus the stored XML without the name"""
    c = tables.strip_ids(canon(table.xmlnode))
    attrs = tuple(a for a in c[1] if a[0] != NAME)
    cells = tuple((p, c2.value_type, c2.value, c2.span, c2.covered, c2.plaintext()) for p, c2 in table.itercells())
    return (table.nrows(), table.ncols(), attrs, c[2], c[3], cells)


def apply_edit(table, e):
    """deterministic edit; returns an outcome which must be equal for equal tables"""
    import ezodf
    nr, nc = table.nrows(), table.ncols()
    if not nr or not nc:
        return 'empty'
    try:
        k = e[0]
        if k == 'set':
            table[e[1] % nr, e[2] % nc].set_value(e[3])
        elif k in ('append_rows', 'append_columns'):
            getattr(table, k)(e[1])
        elif k in ('insert_rows', 'insert_columns', 'delete_rows', 'delete_columns'):
            getattr(table, k)(e[1] % (nr if k.endswith('rows') else nc), e[2])
        elif k == 'rowinfo':
            table.row_info(e[1] % nr).style_name = e[2]
        elif k == 'colinfo':
            table.column_info(e[1] % nc).style_name = e[2]
        elif k == 'name':
            table.name = e[1]
        elif k == 'style':
            table.style_name = e[1]
        elif k in ('protected', 'print_'):
            random.seed(1)      # the protection key is random
            setattr(table, k, e[1])
        elif k == 'span':
            table.set_cell_span((e[1] % nr, e[2] % nc), (1 + (e[1] + 1) % 2, 2))
        elif k == 'unspan':
            table.remove_cell_span((e[1] % nr, 0))
        elif k == 'text':
            cell = table[e[1] % nr, e[2] % nc]
            cell.append(ezodf.Paragraph(e[3]))
        elif k == 'cellattr':
            table[e[1] % nr, e[2] % nc].style_name = e[3]
        elif k == 'setcell':
            table[e[1] % nr, e[2] % nc] = ezodf.Cell(e[3])
        return 'done'
    except (ValueError, IndexError) as exc:
        return type(exc).__name__


def run_case(case, ctx):
    import ezodf
    src = case['src']
    if 'new' in src:
        doc = ezodf.newdoc('ods')
        doc.sheets.append(ezodf.Sheet('T', size=tuple(src['new'])))
    else:
        rows, _, cols = tables.expand(src)
        if not rows or not rows[0] or len(rows) * max(len(rows[0]), len(cols)) > 1500:
            ctx.note('skipped: too big or empty')
            return
        doc = ezodf.opendoc(odf.package('ods', odf.content_data('ods', [tables.table_data(src)])))
    live = [doc.sheets[0]]          # tables; all but the first are copies
    stored = {0: 0}                 # index in live -> position in doc.sheets
    snaps = [observe(live[0])]
    names = [live[0].name]
    ids = [tables.ids_of(live[0].xmlnode)]
    copies = edits = 0

    def verify(changed, what):
        for i, t in enumerate(live):
            if i == changed:
                continue
            now = observe(t)
            if now != snaps[i]:
                raise Violation('%s changed table #%d' % (what, i))
            same(tables.ids_of(t.xmlnode), ids[i], 'identifiers of another table after %s' % (what,))
            same(t.name, names[i], 'name of another table after %s' % (what,))

    for op in case['ops']:
        ctx.step()
        if op[0] == 'reload':
            doc = ezodf.opendoc(doc.tobytes())
            keep = sorted(stored.items(), key=lambda p: p[1])
            old = [(snaps[i], names[i]) for i, _ in keep]
            live = [doc.sheets[p] for _, p in keep]
            stored = {k: k for k in range(len(keep))}
            snaps = [s for s, _ in old]
            names = [n for _, n in old]
            ids = [ids[i] for i, _ in keep]
            verify(None, 'save and reload')
            continue
        w = op[1] % len(live)
        table = live[w]
        if op[0] == 'copy':
            want = op[2] if op[2] is not None else 'CopyOf' + (names[w] or '')
            want = normalize(want)
            if not want:
                raises(ValueError, table.copy, op[2])
                verify(None, 'rejected copy')
                continue
            new = table.copy(op[2]) if op[2] is not None else table.copy()
            copies += 1
            same(new.name, want, 'name of the copy')
            verify(None, 'copy()')
            if observe(new) != snaps[w]:
                d = odf.first_difference(canon(new.xmlnode), canon(table.xmlnode))
                raise Violation('the copy differs from its original: %s' % d)
            same(new.xmlnode.getparent(), None, 'parent of the copy')
            same(new.kind, table.kind, 'kind of the copy')
            own = [c for r in tables.rows_of(new.xmlnode) for c in r]
            check([c.xmlnode for _, c in new.itercells()] == own, 'cells of the copy are not in the copy')
            live.append(new)
            snaps.append(observe(new))
            names.append(new.name)
            ids.append(tables.ids_of(new.xmlnode))
            check(not set(ids[-1]) & set(ids[w]), 'the copy repeats the identifiers %s', ids[w])
        elif op[0] in ('reset', 'clear', 'defaultreset'):
            if op[0] == 'clear':
                size = (table.nrows(), table.ncols())
                table.clear()
            elif op[0] == 'defaultreset':
                size = (10, 10)
                table.reset()
            else:
                size = op[2]
                size = tuple(size) if isinstance(size, list) else size
                valid = isinstance(size, tuple) and len(size) == 2 and all(type(v) is int and v > 0 for v in size)
                if not valid:
                    raises((ValueError, TypeError), table.reset, size)
                    verify(None, 'rejected reset(%r)' % (size,))
                    ctx.note('rejected reset')
                    continue
                table.reset(size)
            same(table.name, names[w], 'name after %s' % op[0])
            check_table(table, [[EMPTY_CELL] * size[1] for _ in range(size[0])], [()] * size[0],
                        [EMPTY_COLUMN] * size[1])
            copies += 1
            snaps[w] = observe(table)
            ids[w] = tables.ids_of(table.xmlnode)
            verify(w, op[0])
            if w in stored:
                check(doc.sheets[stored[w]].xmlnode is table.xmlnode, 'the table left its document')
                check(doc.sheets[stored[w]].nrows() == size[0], 'stale table in doc.sheets')
        elif op[0] == 'store':
            if w not in stored:
                doc.sheets.append(table)
                stored[w] = len(stored)
                same(len(doc.sheets), len(stored), 'number of sheets')
                verify(None, 'append to the document')
        else:
            e = op[2]
            twin = None
            if w in stored and copies:
                twin = ezodf.opendoc(doc.tobytes()).sheets[stored[w]]
            if e[0] in ('append_columns', 'append_rows', 'insert_rows', 'insert_columns') and \
                    table.nrows() * table.ncols() > 1500:
                continue
            res = apply_edit(table, e)
            edits += res == 'done'
            snaps[w] = observe(table)
            names[w] = table.name
            ids[w] = tables.ids_of(table.xmlnode)
            verify(w, 'edit %r of table #%d' % (e, w))
            if twin is not None:
                same(res, apply_edit(twin, e), 'outcome of %r for an equal table' % (e,))
                if observe(twin) != snaps[w]:
                    raise Violation('edit %r has another effect on an equal table that was reopened: %s' % (
                        e, odf.first_difference(canon(table.xmlnode), canon(twin.xmlnode))))
    ctx.note('copies or resets', copies)
    ctx.note('edits', edits)
    ctx.nontrivial(copies and edits >= 2)
