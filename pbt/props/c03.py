"""C03: edits survive save and reload."""
import copy
import io
import os

import docs
import odf
import tables
from core import Violation, check, same, short
from odf import Package, Q, canon, unq

RULE = ('A case is a new or generated document and a history of edits (text blocks, lists, sections, variables, tables, '
        'cells, rows and columns, spans, sheets, pages, styles, meta data) with saves by all routes in between; '
        'non-trivial: at least three edits took effect and at least one save was compared after an edit.')
ASSUME = ['texts contain XML-legal characters only', 'tables of at most 600 cells',
          'sheets are accessed through the sheets collection']
BUDGET = {'quick': 8000, 'thorough': 90000}
SKIP = (Q('text:variable-decls'), Q('text:user-field-decls'))
LONG = {'page': 'odp', 'draw': 'odg'}


def strategy(profile):
    from hypothesis import strategies as st
    import gen
    s = docs.strategies()
    n = st.integers(0, 30)
    text = gen.text(8)
    wd = gen.word(5)
    value = st.one_of(st.integers(-50, 50), gen.number, text, st.booleans())
    common = [(1, gen.op('meta', st.sampled_from(['title', 'subject', 'description', 'creator', 'language']), wd)),
              (1, gen.op('keyword', wd)), (1, gen.op('usertag', wd, st.one_of(wd, st.integers(0, 9)),
                                                     st.sampled_from([None, 'string', 'float']))),
              (1, gen.op('count', st.sampled_from(['page', 'word', 'cell']), st.integers(0, 99))),
              (1, gen.op('style', st.sampled_from(['sa', 'sb', 'sc'])))]
    block = gen.choice(
        (4, st.tuples(st.just('p'), text, st.one_of(st.none(), wd)).map(list)),
        (2, st.tuples(st.just('h'), text, st.integers(1, 5)).map(list)),
        (2, st.tuples(st.just('list'), st.lists(text, max_size=3), st.one_of(st.just(''), wd)).map(list)),
        (1, st.tuples(st.just('section'), wd, text).map(list)),
        (1, st.tuples(st.just('link'), wd, text).map(list)),
        (1, st.tuples(st.just('np'), text).map(list)),
        (1, st.tuples(st.just('table'), st.integers(1, 3), st.integers(1, 3)).map(list)))
    cellop = gen.choice(
        (5, gen.op('set', n, n, value)), (1, gen.op('currency', n, n, st.integers(0, 99), st.sampled_from(['EUR', 'x']))),
        (1, gen.op('typed', n, n, st.sampled_from([['date', '2011-02-03'], ['time', 'PT01H02M03S'], ['percentage', 0.5],
                                                   ['boolean', 0], ['string', 7]]))),
        (1, gen.op('formula', n, n, wd)), (1, gen.op('cellstyle', n, n, wd)), (1, gen.op('append_text', n, n, text)),
        (1, gen.op('display', n, n, text)), (1, gen.op('protect', n, n, st.booleans())),
        (1, gen.op('rows', st.sampled_from(['append_rows', 'insert_rows', 'delete_rows']), n, st.integers(1, 3))),
        (1, gen.op('cols', st.sampled_from(['append_columns', 'insert_columns', 'delete_columns']), n, st.integers(1, 3))),
        (1, gen.op('span', n, n, st.integers(1, 3), st.integers(1, 3))), (1, gen.op('unspan', n, n)),
        (1, gen.op('rowstyle', n, wd)), (1, gen.op('colstyle', n, wd)))
    textop = gen.choice(*(common + [
        (6, gen.op('append', block)), (3, gen.op('insert', n, block)), (2, gen.op('delete', n)),
        (3, gen.op('append_text', n, text)), (2, gen.op('span', n, text, wd)), (1, gen.op('pstyle', n, wd)),
        (2, gen.op('item', n, text)), (1, st.tuples(st.just('tablecell'), n, cellop).map(list)),
        (1, gen.op('into_section', n, block)), (1, gen.op('var', st.sampled_from(['v1', 'v2']), st.sampled_from(['f1', 'f2']), value))]))
    sheetop = gen.choice(*(common + [
        (14, st.tuples(st.just('sheet'), n, cellop).map(list)), (2, gen.op('add', wd, st.integers(1, 4), st.integers(1, 4))),
        (1, gen.op('addat', n, wd, st.integers(1, 4), st.integers(1, 4))), (1, gen.op('rename', n, wd)),
        (1, gen.op('copy', n, wd)), (1, gen.op('del', n)), (1, gen.op('reset', n, st.integers(1, 4), st.integers(1, 4)))]))
    pageop = gen.choice(*(common + [
        (3, gen.op('add', wd)), (1, gen.op('addat', n, wd)), (1, gen.op('rename', n, wd)), (1, gen.op('del', n)),
        (3, gen.op('content', n, text))]))
    route = st.sampled_from(['save', 'saveas', 'bytes', 'stream'])

    def history(op):
        save = st.tuples(st.just('save'), route, st.booleans()).map(list)
        return st.lists(gen.choice((5, op), (1, save)), min_size=2, max_size=24 if profile['big'] else 12)

    def typed(t, op):
        src = gen.choice((1, st.just(None)), (1, s.doc([t], False, 4).map(lambda d: dict(d, feature={}, extra=[]))))
        return st.fixed_dictionaries({'type': st.just(t), 'src': src, 'ops': history(op)})
    return gen.choice((4, typed('odt', textop)), (4, typed('ods', sheetop)), (1, typed('odp', pageop)),
                      (1, typed('odg', pageop)))


# ------------------------------------------------------------ observation through the API

def see_cell(c):
    return [c.value_type, c.value, c.currency, c.formula, c.style_name, list(c.span), c.covered, c.plaintext(),
            c.protected]


def see_table(t):
    return {'name': t.name, 'cells': [[see_cell(c) for c in r] for r in t.rows()],
            'rows': [t.row_info(i).style_name for i in range(t.nrows())],
            'cols': [t.column_info(i).style_name for i in range(t.ncols())], 'style': t.style_name}


def see_block(b):
    k = b.kind
    if k == 'Table':
        return ['Table', see_table(b)]
    if k in ('Paragraph', 'Heading', 'Hyperlink', 'Span'):
        extra = [b.outline_level] if k == 'Heading' else [b.href, b.target_frame] if k == 'Hyperlink' else []
        return [k, b.plaintext(), b.style_name] + extra
    if k == 'List':
        h = b.header
        return ['List', [i.plaintext() for i in b.iteritems()], None if h is None else h.plaintext()]
    if k == 'Section':
        return ['Section', b.name, [see_block(x) for x in b]]
    if k == 'NumberedParagraph':
        return ['NumberedParagraph', b.content.plaintext()]
    return ['other', repr(canon(b.xmlnode))]


def see_meta(m):
    out = {}
    for key in ('title', 'description', 'subject', 'initial-creator', 'creator', 'creation-date', 'language'):
        try:
            out[key] = m[key]
        except KeyError:
            pass
    return [out, list(m.keywords), [[n, v, m.usertags.typeof(n)] for n, v in m.usertags],
            sorted([k, v] for k, v in m.count)]


def norm_empty(x):
    """'' and nothing are the same in XML"""
    if isinstance(x, list):
        return [norm_empty(v) for v in x]
    if isinstance(x, dict):
        return {k: norm_empty(v) for k, v in x.items()}
    return None if isinstance(x, str) and x == '' else x


def see(doc, deep=True):
    out = {'type': doc.doctype, 'mime': doc.mimetype, 'meta': see_meta(doc.meta)}
    t = doc.doctype
    if t == 'odt':
        out['body'] = [see_block(b) for b in doc.body if b.xmlnode.tag not in SKIP]
        out['vars'] = sorted([v, doc.body.variables[v].type, doc.body.variables[v].value]
                             for v in doc.body.variables.variables)
        out['fields'] = sorted([v, doc.body.userfields[v].type, doc.body.userfields[v].value]
                               for v in doc.body.userfields.variables)
    elif t == 'ods':
        out['sheets'] = [see_table(s) for s in doc.sheets]
        out['names'] = list(doc.sheets.names())
    else:
        out['pages'] = [[p.name, [see_block(b) for b in p]] for p in doc.pages]
        out['names'] = list(doc.pages.names())
    out['styles'] = [s['name'] for n in ('sa', 'sb', 'sc') for s in [style_of(doc, n)] if s is not None]
    return out


def style_of(doc, name):
    try:
        return doc.styles.styles[name]
    except KeyError:
        return None


def differ(got, want, path=''):
    """first difference of two observations, empty text equals no text"""
    if isinstance(want, dict) and isinstance(got, dict):
        for k in sorted(set(got) | set(want)):
            d = differ(got.get(k), want.get(k), '%s.%s' % (path, k))
            if d:
                return d
        return None
    if isinstance(want, list) and isinstance(got, list):
        for i, (a, b) in enumerate(zip(got, want)):
            d = differ(a, b, '%s[%d]' % (path, i))
            if d:
                return d
        if len(got) != len(want):
            return '%s: %d instead of %d entries' % (path, len(got), len(want))
        return None
    if got == want and type(got) is type(want):
        return None
    if got in (None, '') and want in (None, ''):
        return None
    return '%s: %s instead of %s' % (path, short(got), short(want))


# ------------------------------------------------------------ model of the edits

EMPTY = [None, None, None, None, None, [1, 1], False, '', False]


def new_cell():
    return copy.deepcopy(EMPTY)


def table_op(table, m, op):
    """apply op to the table and to its model; True if it had an effect"""
    import ezodf
    nr, nc = table.nrows(), table.ncols()
    k = op[0]
    if not nr or not nc:
        return False
    if k in ('rows', 'cols'):
        f, i, cnt = op[1:]
        n = nr if k == 'rows' else nc
        i %= n
        if f.startswith('delete'):
            cnt = min(cnt, n - i)
            if cnt >= n or any(c[5] != [1, 1] or c[6] for r in m['cells'] for c in r):
                return False      # spans are judged by C19
            getattr(table, f)(i, cnt)
        elif f.startswith('insert'):
            getattr(table, f)(i, cnt)
        else:
            i = n
            getattr(table, f)(cnt)
        if k == 'rows':
            if f.startswith('delete'):
                del m['cells'][i:i + cnt], m['rows'][i:i + cnt]
            else:
                m['cells'][i:i] = [[new_cell() for _ in range(nc)] for _ in range(cnt)]
                m['rows'][i:i] = [None] * cnt
        else:
            for r in m['cells']:
                if f.startswith('delete'):
                    del r[i:i + cnt]
                else:
                    r[i:i] = [new_cell() for _ in range(cnt)]
            # loaded tables can have more column entries than columns: see C16
            m['cols'] = [table.column_info(j).style_name for j in range(table.ncols())]
        return True
    if k == 'rowstyle':
        table.row_info(op[1] % nr).style_name = op[2]
        m['rows'][op[1] % nr] = op[2]
        return True
    if k == 'colstyle':
        table.column_info(op[1] % nc).style_name = op[2]
        m['cols'][op[1] % nc] = op[2]
        return True
    i, j = op[1] % nr, op[2] % nc
    cell, c = table[i, j], m['cells'][i][j]
    if k in ('set', 'currency', 'typed'):
        v = op[3]
        if k == 'currency':
            cell.set_value(v, 'currency', op[4])
            c[0:3] = ['currency', float(v), op[4]]
            c[7] = ''
        elif k == 'typed':
            t, v = op[3]
            cell.set_value(v, t)
            c[0:3] = [t, {'percentage': float, 'boolean': bool, 'string': str}.get(t, str)(v), None]
            c[7] = '7' if t == 'string' else ''
        else:
            cell.set_value(v)
            if type(v) is bool:
                c[0:3] = ['boolean', v, None]
            elif isinstance(v, str):
                c[0:3] = ['string', v, None]
            else:
                c[0:3] = ['float', float(v), None]
            c[7] = v if isinstance(v, str) else ''
    elif k == 'formula':
        cell.formula = 'of:=' + op[3]
        c[3] = 'of:=' + op[3]
    elif k == 'cellstyle':
        cell.style_name = op[3]
        c[4] = op[3]
    elif k == 'protect':
        cell.protected = op[3]
        c[8] = op[3]
    elif k == 'append_text':
        if c[0] != 'string':
            return False
        # loaded cells can contain other elements: only plain ones are modelled
        kids = [x.tag for x in cell.xmlnode]
        if any(t not in (Q('text:p'), Q('text:h')) for t in kids):
            return False
        cell.append_text(op[3], style_name='T1')
        c[7] = c[7] + op[3] if kids else op[3]
        c[1] = c[7]
    elif k == 'display':
        if c[0] in (None, 'string') or c[7] or len(cell.xmlnode):
            return False
        cell.display_form = op[3]
        c[7] = op[3]
    elif k == 'span':
        rows, cols = min(op[3], nr - i), min(op[4], nc - j)
        area = [(a, b) for a in range(i, i + rows) for b in range(j, j + cols)]
        if any(m['cells'][a][b][5] != [1, 1] or m['cells'][a][b][6] for a, b in area) or len(area) < 2:
            return False
        table.set_cell_span((i, j), (rows, cols))
        c[5] = [rows, cols]
        for a, b in area[1:]:
            m['cells'][a][b][6] = True
    elif k == 'unspan':
        if c[5] == [1, 1]:
            return False
        # the span of a loaded table can leave it
        area = [(a, b) for a in range(i, min(nr, i + c[5][0])) for b in range(j, min(nc, j + c[5][1]))]
        table.remove_cell_span((i, j))
        c[5] = [1, 1]
        for a, b in area:
            m['cells'][a][b][6] = False
    return True


def block(b):
    """-> (object, model)"""
    import ezodf
    k = b[0]
    if k == 'p':
        o = ezodf.Paragraph(b[1]) if b[2] is None else ezodf.Paragraph(b[1], style_name=b[2])
        return o, ['Paragraph', b[1], b[2]]
    if k == 'h':
        return ezodf.Heading(b[1], outline_level=b[2]), ['Heading', b[1], None, b[2]]
    if k == 'list':
        return ezodf.ezlist(b[1], header=b[2]), ['List', list(b[1]), b[2] or None]
    if k == 'section':
        o = ezodf.Section(b[1])
        o.append(ezodf.Paragraph(b[2]))
        return o, ['Section', b[1], [['Paragraph', b[2], None]]]
    if k == 'link':
        return ezodf.Hyperlink(b[1], text=b[2]), ['Hyperlink', b[2], None, b[1], '_blank']
    if k == 'np':
        return (ezodf.NumberedParagraph(ezodf.Paragraph(b[1])) if hasattr(ezodf, 'NumberedParagraph') else None,
                ['NumberedParagraph', b[1]])
    t = ezodf.Table('T', size=(b[1], b[2]))
    return t, ['Table', {'name': 'T', 'cells': [[new_cell() for _ in range(b[2])] for _ in range(b[1])],
                         'rows': [None] * b[1], 'cols': [None] * b[2], 'style': None}]


def text_op(doc, m, op):
    import ezodf
    k = op[0]
    body = doc.body
    blocks = [e for e in body.xmlnode if e.tag not in SKIP]
    model = m['body']
    check(len(blocks) == len(model), 'harness: %s blocks, model %s', len(blocks), len(model))

    def live(i):
        return body[body.xmlnode.index(blocks[i])]

    def pick(kinds, i):
        found = [x for x in range(len(model)) if model[x][0] in kinds]
        return found[i % len(found)] if found else None

    end = len(blocks)
    while end and unq(blocks[end - 1].tag) in docs.EPILOGUE:
        end -= 1
    start = 0
    while start < end and unq(blocks[start].tag) in docs.DECLS:
        start += 1
    if k == 'append':
        o, mm = block(op[1])
        body.append(o)
        model.insert(end, mm)
    elif k == 'insert':
        o, mm = block(op[2])
        if end <= start:
            return False
        i = start + op[1] % (end - start)
        body.insert_before(live(i), o)
        model.insert(i, mm)
    elif k == 'delete':
        if end <= start:
            return False
        i = start + op[1] % (end - start)
        body.remove(live(i))
        del model[i]
    elif k in ('append_text', 'span', 'pstyle'):
        i = pick(('Paragraph', 'Heading', 'Hyperlink'), op[1])
        if i is None:
            return False
        o = live(i)
        if k == 'append_text':
            o.append_text(op[2])
            model[i][1] += op[2]
        elif k == 'span':
            o.append(ezodf.Span(op[2], style_name=op[3]))
            model[i][1] += op[2]
        else:
            o.style_name = op[2]
            model[i][2] = op[2]
    elif k == 'item':
        i = pick(('List',), op[1])
        if i is None:
            return False
        live(i).append(ezodf.ListItem(op[2]) if hasattr(ezodf, 'ListItem') else None)
        model[i][1].append(op[2])
    elif k == 'tablecell':
        i = pick(('Table',), op[1])
        if i is None:
            return False
        return table_op(live(i), model[i][1], op[2])
    elif k == 'into_section':
        i = pick(('Section',), op[1])
        if i is None:
            return False
        o, mm = block(op[2])
        live(i).append(o)
        model[i][2].append(mm)
    elif k == 'var':
        done = False
        for key, box, names in (('vars', body.variables, (op[1],)), ('fields', body.userfields, (op[2],))):
            for name in names:
                for row in m[key]:
                    if row[0] == name:
                        box[name] = op[3]
                        done = True
                        row[1] = 'boolean' if type(op[3]) is bool else 'string' if isinstance(op[3], str) else 'float'
                        v = op[3] if isinstance(op[3], (bool, str)) else float(op[3])
                        if key == 'fields' or list(box[name].instances):
                            row[2] = v
        if done:
            m['body'] = None      # occurrences inside the text changed: observe again (C14 judges them)
        return done
    return True


def sheet_op(doc, m, op):
    import ezodf
    k = op[0]
    model = m['sheets']
    n = len(model)
    if k == 'sheet':
        if not n:
            return False
        i = op[1] % n
        if len(model[i]['cells']) * max([len(r) for r in model[i]['cells']] or [0]) > 600 and op[2][0] in ('rows', 'cols'):
            return False
        return table_op(doc.sheets[i], model[i], op[2])
    if k in ('add', 'addat'):
        name, r, c = op[-3:]
        name = name.replace("'", ' ').replace('"', ' ').strip() or 'x'
        mm = {'name': name, 'cells': [[new_cell() for _ in range(c)] for _ in range(r)], 'rows': [None] * r,
              'cols': [None] * c, 'style': None}
        sheet = ezodf.Sheet(name, size=(r, c))
        if k == 'add':
            doc.sheets.append(sheet)
            model.append(mm)
        else:
            i = op[1] % (n + 1)
            doc.sheets.insert(i, sheet)
            model.insert(i, mm)
    elif not n:
        return False
    elif k == 'rename':
        name = op[2].replace("'", ' ').replace('"', ' ').strip() or 'y'
        doc.sheets[op[1] % n].name = name
        model[op[1] % n]['name'] = name
    elif k == 'copy':
        name = op[2].replace("'", ' ').replace('"', ' ').strip() or 'z'
        doc.sheets.append(doc.sheets[op[1] % n].copy(name))
        model.append(dict(copy.deepcopy(model[op[1] % n]), name=name))
    elif k == 'del':
        del doc.sheets[op[1] % n]
        del model[op[1] % n]
    elif k == 'reset':
        i, r, c = op[1] % n, op[2], op[3]
        doc.sheets[i].reset((r, c))
        model[i].update({'cells': [[new_cell() for _ in range(c)] for _ in range(r)], 'rows': [None] * r,
                         'cols': [None] * c, 'style': doc.sheets[i].style_name})
    m['names'] = [s['name'] for s in model]
    return True


def page_op(doc, m, op):
    import ezodf
    from ezodf.drawingpage import DrawingPage
    k = op[0]
    model = m['pages']
    n = len(model)
    if k == 'add':
        doc.pages.append(DrawingPage(op[1]))
        model.append([op[1], []])
    elif k == 'addat':
        doc.pages.insert(op[1] % (n + 1), DrawingPage(op[2]))
        model.insert(op[1] % (n + 1), [op[2], []])
    elif not n:
        return False
    elif k == 'rename':
        doc.pages[op[1] % n].name = op[2]
        model[op[1] % n][0] = op[2]
    elif k == 'del':
        del doc.pages[op[1] % n]
        del model[op[1] % n]
    elif k == 'content':
        doc.pages[op[1] % n].append(ezodf.Paragraph(op[2]))
        model[op[1] % n][1].append(['Paragraph', op[2], None])
    m['names'] = [p[0] for p in model]
    return True


def common_op(doc, m, op):
    k = op[0]
    meta = m['meta']
    if k == 'meta':
        doc.meta[op[1]] = op[2]
        meta[0][op[1]] = op[2]
    elif k == 'keyword':
        doc.meta.keywords.add(op[1])
        if op[1] not in meta[1]:
            meta[1].append(op[1])
    elif k == 'usertag':
        if op[3] is None:
            doc.meta.usertags[op[1]] = op[2]
        else:
            doc.meta.usertags.set(op[1], op[2], op[3])
        for row in meta[2]:
            if row[0] == op[1]:
                row[1:] = [str(op[2]), op[3] or 'string']
                break
        else:
            meta[2].append([op[1], str(op[2]), op[3] or 'string'])
    elif k == 'count':
        doc.meta.count[op[1]] = op[2]
        meta[3] = sorted([r for r in meta[3] if r[0] != op[1]] + [[op[1], op[2]]])
    elif k == 'style':
        if op[1] in m['styles']:
            return False
        doc.inject_style('<style:style style:name="%s" style:family="text"/>' % op[1])
        m['styles'] = sorted(m['styles'] + [op[1]])
    return True


def verify(doc, m, what):
    d = differ(see(doc), m)
    if d:
        raise Violation('%s: %s' % (what, d))


def neutral(blob):
    p = Package(blob)
    meta = p.xml('meta.xml').find(Q('office:meta'))
    for name in ('meta:generator', 'dc:date', 'meta:editing-cycles'):
        for e in meta.findall(Q(name)):
            meta.remove(e)
    return (canon(p.xml('content.xml')), canon(p.xml('styles.xml')), canon(meta), sorted(p.names))


def run_case(case, ctx):
    import ezodf
    import ezodf.drawingpage  # registers the page class
    folder = ctx.tmpdir()
    t = case['type']
    path = os.path.join(folder, 'doc.' + t)
    if case['src'] is None:
        doc = ezodf.newdoc(t, path)
    else:
        with open(path, 'wb') as f:
            f.write(docs.package(case['src']))
        doc = ezodf.opendoc(path)
    handler = {'odt': text_op, 'ods': sheet_op}.get(t, page_op)
    m = see(doc)
    edits = compared = since = 0
    for n, op in enumerate(case['ops']):
        ctx.step()
        if op[0] == 'save':
            how = op[1]
            before = doc.tobytes()
            if how == 'bytes':
                blob = doc.tobytes()
            elif how == 'stream':
                stream, name = io.BytesIO(), doc.docname
                doc.saveas(stream)
                doc.docname = name
                blob = stream.getvalue()
            else:
                if how == 'save':
                    doc.save()
                else:
                    path = os.path.join(folder, 'other%d.%s' % (n, t))
                    doc.saveas(path)
                with open(path, 'rb') as f:
                    blob = f.read()
            a, b = neutral(before), neutral(blob)
            for x, y, part in zip(a, b, ('content.xml', 'styles.xml', 'meta.xml')):
                if x != y:
                    raise Violation('%s and bytes export differ in %s: %s' % (how, part, odf.first_difference(x, y)))
            same(b[3], a[3], 'members')
            doc2 = ezodf.opendoc(path if how in ('save', 'saveas') and op[2] else blob)
            verify(doc2, m, 'reopened after %s' % how)
            verify(doc, m, 'still open after %s' % how)
            compared += since > 0
            since = 0
            ctx.note('save ' + how)
            if op[2] and how in ('save', 'saveas'):
                doc = doc2
                ctx.note('continued with the reopened document')
            continue
        if op[0] in ('meta', 'keyword', 'usertag', 'count', 'style'):
            done = common_op(doc, m, op)
        else:
            done = handler(doc, m, op)
        if done:
            edits += 1
            since += 1
            ctx.note('edit ' + (op[2][0] if op[0] in ('sheet', 'tablecell') else op[0]))
            if m.get('body', 0) is None:
                m['body'] = see(doc)['body']
            verify(doc, m, 'after %r' % (op,))
    blob = doc.tobytes()
    verify(ezodf.opendoc(blob), m, 'reopened at the end')
    doc.saveas(os.path.join(folder, 'end.' + t))
    verify(ezodf.opendoc(os.path.join(folder, 'end.' + t)), m, 'saved at the end')
    compared += since > 0
    ctx.nontrivial(edits >= 3 and compared)
