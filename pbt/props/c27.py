"""C27: rejected operations leave the document unchanged."""
import random
import re

import docs
import odf
from core import Violation, check, same, short
from odf import canon_run as canon

RULE = ('A case is a generated text, spreadsheet, drawing or presentation document and a history of calls of all public '
        'editing methods and properties with arguments drawn from valid and invalid values of every kind. Every call that '
        'raises must leave the document (and the documents its arguments come from) as it was; a twin document gets only '
        'the calls that did not raise and must stay equal. Non-trivial: at least one call was rejected and at least one '
        'later call changed the document.')
ASSUME = ['rows keep their cells: generic container methods are not used to take cells out of tables',
          'counts are small enough for the memory', 'tables are expanded before the history starts']
BUDGET = {'quick': 3700, 'thorough': 150000}

TEXTPROPS = ['style_name', 'cond_style_name', 'ID', 'level', 'start_value', 'formatted_number', 'outline_level', 'restart_numbering',
             'suppress_numbering', 'name', 'href', 'target_frame', 'continue_numbering', 'header', 'protected', 'count', 'value', 'type']
TABLES = ('table:table-cell', 'table:covered-table-cell', 'table:table-row', 'table:table-column', 'table:table',
          'table:table-rows', 'table:table-row-group', 'table:table-header-rows', 'table:table-columns',
          'table:table-column-group', 'table:table-header-columns')
TABLETAGS = set(odf.Q(t) for t in TABLES)


def strategy(profile):
    from hypothesis import strategies as st
    import gen
    s = docs.strategies()
    n = st.integers(0, 30)
    bad_text = st.sampled_from(['a\x00', 'x\x0b', '\x01', 'a  \x02', ' \x1fb', '\n\x00', 'ok\ud800', '\ufffe', 'two  words \x03 more', 'a\tb\x04'])
    text = gen.choice((5, gen.text(6)), (3, gen.word(4)), (3, bad_text))
    ints = gen.choice((6, st.integers(0, 5)), (3, st.integers(-6, 30)), (1, st.sampled_from([-1000, -100, 100])))
    odd = st.one_of(st.just(['none']), st.sampled_from([0.5, -1.5, 1e300, 2.0]).map(lambda f: ['v', f]), st.booleans().map(lambda b: ['v', b]),
                    st.just(['object']), st.just(['bytes']), st.just(['list', []]), st.just(['dict']), st.just(['v', '']),
                    st.just(['v', float('nan')]), st.just(['slice']), st.just(['type']), st.just(['set']))
    num = gen.choice((8, ints.map(lambda v: ['v', v])), (1, odd), (1, text.map(lambda t: ['v', t])))
    idx = gen.choice((9, num), (1, st.sampled_from([10 ** 20, -10 ** 20, 2 ** 31, 2 ** 63]).map(lambda v: ['v', v])))
    txt = gen.choice((8, text.map(lambda t: ['v', t])), (1, odd), (1, ints.map(lambda v: ['v', v])))
    low = st.tuples(st.integers(0, 2), st.integers(0, 2)).map(lambda p: ['tuple', [['v', p[0]], ['v', p[1]]]])
    ref = gen.choice((6, low), (6, st.tuples(st.just('list'), st.tuples(idx, idx).map(list)).map(lambda p: ['tuple', p[1]])),
                     (2, st.sampled_from(['A1', 'B2', 'c1', 'A', '1', 'A0', 'ZZ99', '', 'A1:B2', 'A 1', '$A$1']).map(lambda v: ['v', v])),
                     (1, st.lists(idx, max_size=3).map(lambda v: ['tuple', v])), (1, idx), (1, st.lists(idx, max_size=2).map(lambda v: ['list', v])))
    pair = gen.choice((5, st.tuples(st.integers(1, 2), st.integers(1, 2)).map(lambda p: ['tuple', [['v', p[0]], ['v', p[1]]]])), (7, st.tuples(num, num).map(lambda p: ['tuple', list(p)])), (1, num), (1, st.lists(num, max_size=3).map(lambda v: ['tuple', v])), (1, odd))
    name = gen.choice((6, gen.name(5).map(lambda v: ['v', v])), (3, txt))
    new = st.tuples(st.sampled_from(['Paragraph', 'Heading', 'Span', 'Hyperlink', 'List', 'ListItem', 'ListHeader', 'Section', 'NumberedParagraph',
                                     'Sheet', 'DrawingPage', 'Cell', 'generic', 'Spaces', 'rawnode', 'SoftPageBreak']), txt, txt).map(lambda p: ['new'] + list(p))
    obj = gen.choice((5, new), (3, n.map(lambda k: ['existing', k])), (1, st.tuples(st.sampled_from(['text', 'sheet']), n).map(lambda p: ['foreign'] + list(p))),
                     (1, odd), (1, txt))
    cellobj = gen.choice((5, st.tuples(txt, txt).map(lambda p: ['new', 'Cell'] + list(p))), (1, st.tuples(n, n).map(lambda p: ['existingcell'] + list(p))), (1, obj))
    sheetobj = gen.choice((6, st.tuples(st.sampled_from(['Sheet', 'DrawingPage']), name, txt).map(lambda p: ['new'] + list(p))), (3, obj))
    value = gen.choice((4, txt), (3, gen.number.map(lambda v: ['v', v])), (2, obj), (1, odd))
    vtype = st.one_of(st.just(['none']), st.sampled_from(['string', 'float', 'boolean', 'date', 'time', 'currency', 'percentage', 'Float', 'void', '']).map(
        lambda v: ['v', v]), txt)
    elem = n.map(lambda k: ['elem', k])
    table = n.map(lambda k: ['table', k])
    cell = st.tuples(n, n, n).map(lambda p: ['cell'] + list(p))
    body = st.just(['body'])
    coll = st.just(['coll'])
    container = gen.choice((4, elem), (3, body), (1, cell), (1, st.tuples(n).map(lambda p: ['page', p[0]])))
    attr = st.sampled_from(['{x}a', 'plain', '', 'text:p', '{}', '{http://x}b c', '1a']).map(lambda v: ['v', v])
    xmlstr = st.sampled_from(['<style:style style:name="q"/>', '<style:style', '', 'text', '<a/><b/>', '<x:y/>', '<style:style style:name="a"/><style:style/>',
                              '<!-- c -->', '\x00', '<number:date-style style:name="d"/>']).map(lambda v: ['v', v])
    metakey = st.sampled_from(['title', 'description', 'subject', 'creator', 'date', 'language', 'initial-creator', 'editing-cycles', 'nokey', '', 'Title'])
    usermap = st.lists(st.tuples(name, gen.choice((3, txt), (1, num))).map(list), max_size=3).map(lambda v: ['map', v])
    statmap = st.lists(st.tuples(st.sampled_from(['page', 'word', 'cell', 'row', 'bad', 'frame']).map(lambda v: ['v', v]), gen.choice((3, num), (1, txt))).map(list),
                       max_size=3).map(lambda v: ['map', v])

    def call(target, method, *args):
        return st.tuples(target, st.just(method), st.tuples(*args).map(list)).map(list)

    def setter(target, names, val):
        return st.tuples(target, st.sampled_from(names).map(lambda a: '=' + a), st.tuples(val).map(list)).map(list)

    generic = [call(container, 'append', obj), call(container, 'insert', idx, obj), call(container, 'set_child', idx, obj),
               call(container, 'insert_before', obj, obj), call(container, 'remove', obj), call(container, 'replace', obj, obj),
               call(container, 'del_child', idx), call(container, '__delitem__', idx), call(container, '__setitem__', idx, obj),
               call(container, 'set_attr', attr, txt), call(container, 'set_bool_attr', attr, value), setter(container, ['text', 'tail'], txt),
               call(container, 'index', obj), call(container, 'get_child', idx), call(container, 'find', attr), setter(elem, ['text', 'tail'], txt)]
    owned = lambda val: st.sampled_from(TEXTPROPS).flatmap(lambda p: st.tuples(n.map(lambda k: ['has', p, k]), st.just('=' + p), st.tuples(val).map(list)).map(list))
    prop = owned(gen.choice((3, txt), (2, num), (1, obj)))
    textual = [call(n.map(lambda k: ['has', 'append_text', k]), 'append_text', txt), prop, prop, prop, call(elem, 'clear'),
               owned(bad_text.map(lambda t: ['v', t])), setter(n.map(lambda k: ['has', 'header', k]), ['header'], gen.choice((2, st.just(['new', 'ListHeader', ['v', 'h'], ['none']])), (2, obj)))]
    # spans that often overlap each other
    small = st.tuples(st.integers(0, 3), st.integers(0, 2)).map(lambda p: ['tuple', [['v', p[0]], ['v', p[1]]]])
    extent = st.tuples(st.integers(1, 3), st.integers(1, 3)).map(lambda p: ['tuple', [['v', p[0]], ['v', p[1]]]])
    tab = [call(table, 'get_cell', ref), call(table, '__getitem__', ref), call(table, 'set_cell', ref, cellobj), call(table, '__setitem__', ref, cellobj),
           setter(table, ['name', 'style_name', 'protected', 'print_'], name), call(table, 'reset', pair), call(table, 'copy', name), call(table, 'clear'),
           call(table, 'append_rows', num), call(table, 'insert_rows', idx, num), call(table, 'delete_rows', idx, num),
           call(table, 'append_columns', num), call(table, 'insert_columns', idx, num), call(table, 'delete_columns', idx, num),
           call(table, 'append_rows', num), call(table, 'insert_rows', idx, num), call(table, 'delete_rows', idx, num),
           call(table, 'append_columns', num), call(table, 'insert_columns', idx, num), call(table, 'delete_columns', idx, num),
           call(table, 'set_cell_span', ref, pair), call(table, 'set_cell_span', ref, pair), call(table, 'remove_cell_span', ref), call(table, 'remove_cell_span', st.just(['tuple', [['v', 2], ['v', 1]]])),
           call(table, 'set_cell_span', small, extent), call(table, 'set_cell_span', small, extent),
           call(table, 'row', idx), call(table, 'column', idx), call(table, 'row_info', idx), call(table, 'column_info', idx)]
    valued = n.map(lambda k: ['valued', k])
    cells = [call(valued, 'set_value', value), call(valued, 'set_value', value, vtype), call(valued, 'set_value', value, vtype, txt),
             call(valued, 'set_value', st.just(['none']), vtype), call(cell, 'set_value', value, vtype, gen.choice((3, st.just(['none'])), (2, txt))), call(cell, 'set_value', value), call(cell, 'set_value', value, vtype),
             setter(cell, ['display_form', 'style_name', 'formula', 'content_validation_name', 'protected'], txt),
             call(cell, 'append_text', txt), call(cell, 'append_text', txt, gen.choice((1, st.just(['none'])), (2, txt))),
             setter(st.tuples(st.sampled_from(['row_info', 'column_info']), n, n).map(list),
                    ['style_name', 'visibility', 'default_cell_style_name'], gen.choice((3, txt), (1, st.sampled_from(['collapse', 'visible', 'filter']).map(lambda v: ['v', v]))))]
    key = gen.choice((3, idx), (3, name), (1, odd))
    collection = [call(coll, 'append', sheetobj), call(coll, 'insert', idx, sheetobj), call(coll, '__setitem__', key, sheetobj), call(coll, '__delitem__', key),
                  call(coll, 'index', sheetobj), call(coll, '__getitem__', key), setter(n.map(lambda k: ['page', k]), ['name'], name),
                  call(coll, 'append', sheetobj), call(coll, 'insert', idx, sheetobj)]
    meta = [call(st.just(['meta']), '__setitem__', metakey.map(lambda v: ['v', v]), txt), call(st.just(['keywords']), 'add', txt), call(st.just(['keywords']), 'remove', txt),
            call(st.just(['usertags']), 'set', name, value, gen.choice((2, vtype), (1, st.just(['none'])))), call(st.just(['usertags']), '__setitem__', name, value),
            call(st.just(['usertags']), '__delitem__', name), call(st.just(['usertags']), 'update', usermap), call(st.just(['count']), 'update', statmap),
            call(st.just(['count']), '__setitem__', st.sampled_from(['page', 'word', 'nokey']).map(lambda v: ['v', v]), gen.choice((2, num), (1, txt))),
            call(st.just(['usertags']), 'update', odd), call(st.just(['usertags']), 'typeof', name),
            call(st.just(['meta']), '__setitem__', metakey.map(lambda v: ['v', v]), txt)]
    var = st.tuples(st.sampled_from(['variable', 'userfield']), n).map(list)
    variables = [setter(gen.choice((1, var), (1, n.map(lambda k: ['has', 'value', k]))), ['value', 'type'], bad_text.map(lambda t: ['v', t])), setter(var, ['value', 'value', 'type'], value), call(st.sampled_from([['variables'], ['userfields']]), '__setitem__', gen.choice((2, name), (3, n.map(lambda k: ['varname', k]))), value),
                 call(st.sampled_from([['variables'], ['userfields']]), '__getitem__', name)]
    where = st.tuples(st.just('styles'), st.sampled_from(['fonts', 'styles', 'automatic_styles', 'master_styles'])).map(list)
    style = gen.choice((3, n.map(lambda k: ['newstyle', k])), (2, n.map(lambda k: ['existingstyle', k])), (2, obj), (1, odd))
    styles = [call(where, '__setitem__', gen.choice((3, n.map(lambda k: ['stylename', k])), (1, name)), style), call(where, '__getitem__', name),
              call(n.map(lambda k: ['style', k]), '__setitem__', gen.choice((3, st.sampled_from(['name', 'family', 'class', 'nokey']).map(lambda v: ['v', v])), (1, name)), txt),
              call(st.just(['doc']), 'inject_style', xmlstr), call(st.just(['doc']), 'inject_style', odd)]
    one = lambda ops: st.sampled_from(range(len(ops))).flatmap(lambda i: ops[i])
    sheetops = gen.choice((3, one(generic)), (1, one(textual)), (7, one(tab)), (5, one(cells)), (4, one(collection)), (2, one(meta)), (1, one(variables)), (1, one(styles)))
    textops = gen.choice((6, one(generic)), (5, one(textual)), (2, one(tab)), (1, one(cells)), (2, one(meta)), (3, one(variables)), (2, one(styles)))
    pageops = gen.choice((5, one(generic)), (2, one(textual)), (5, one(collection)), (2, one(meta)), (1, one(variables)), (2, one(styles)))
    size = 25 if profile['big'] else 12

    def case(t):
        ops = {'ods': sheetops, 'ots': sheetops, 'odt': textops, 'ott': textops}.get(t, pageops)
        return st.fixed_dictionaries({'doc': s.doc([t], False, 3), 'kit': st.booleans(), 'occ': st.lists(st.tuples(st.sampled_from(['text:variable-', 'text:user-field-']),
                                      st.sampled_from(['set', 'get', 'input'] if False else ['set', 'get']), n, gen.word(3)).map(list), max_size=3),
                                      'ops': st.lists(ops, min_size=3, max_size=size)})
    return st.sampled_from(['odt', 'odt', 'ods', 'ods', 'ods', 'odp', 'odg', 'ott', 'ots']).flatmap(case)


# ------------------------------------------------------------ one document with its stock

class Opaque(object):
    """an object whose text does not depend on its address"""
    def __repr__(self):
        return '<opaque>'


def as_text(t, method):
    """the arguments of this call are stored as text"""
    return (method[0] == '=' and method != '=header') or t[0] in ('usertags', 'keywords', 'meta', 'count', 'variables', 'userfields') or \
        method in ('append_text', 'set_attr')


class World(object):
    def __init__(self, blob, kit=False):
        import ezodf
        self.doc = ezodf.opendoc(blob)
        self.stock = {'text': ezodf.newdoc('odt'), 'sheet': ezodf.newdoc('ods')}
        b = self.stock['text'].body
        for i in range(3):
            b.append(ezodf.Paragraph('stock %d' % i))
        for i in range(2):
            self.stock['sheet'].sheets.append(ezodf.Sheet('stock%d' % i, size=(2, 2)))
        if kit:
            self.add_kit()
        self.nodes()

    def add_kit(self):
        import ezodf
        import ezodf.drawingpage
        doc = self.doc
        target = doc.body
        if hasattr(doc, 'sheets'):
            sheet = ezodf.Sheet('kit', size=(5, 4))
            for i in range(5):
                sheet[i, i % 4].set_value(['text', 1.5, True, 7, 'x y'][i])
            sheet[1, 2].set_value('12', 'currency', 'EUR')
            sheet.set_cell_span((2, 1), (2, 2))
            doc.sheets.append(sheet)
            target = sheet[0, 0]
        elif hasattr(doc, 'pages'):
            target = ezodf.drawingpage.DrawingPage('kit')
            doc.pages.append(target)
        lst = ezodf.List('L1')
        lst.header = ezodf.ListHeader('head')
        lst.append(ezodf.ListItem('one'))
        lst.append(ezodf.ListItem('two'))
        section = ezodf.Section('sec')
        section.append(ezodf.Paragraph('in  section'))
        para = ezodf.Paragraph('with  spaces\tand\ttabs')
        para.append(ezodf.Span('span'))
        para.append(ezodf.Hyperlink('http://x', 'link'))
        head = ezodf.Heading('head', 2)
        head.formatted_number = '1.1'
        for e in (lst, section, para, head, ezodf.NumberedParagraph(ezodf.Paragraph('numbered'))):
            target.append(e)
        if not hasattr(doc, 'sheets') and not hasattr(doc, 'pages'):
            target.append(ezodf.Sheet('table', size=(3, 3)))

    def nodes(self):
        """all wrapped descendants of the body that are not parts of tables (wrapping expands tables)"""
        out, tables, variables = [], [], {'variable': [], 'userfield': []}

        def walk(w):
            for c in w:
                kids = True
                k = c.kind
                if k in ('Table', 'Sheet'):
                    tables.append(c)
                elif k in ('SimpleVariable', 'UserField'):
                    variables['variable' if k == 'SimpleVariable' else 'userfield'].append(c)
                if c.xmlnode.tag not in TABLETAGS:
                    out.append(c)
                if kids and isinstance(c.xmlnode.tag, str):
                    walk(c)
        walk(self.doc.body)
        self.tables, self.vars = tables, variables
        return out

    def state(self):
        return [('content', canon(self.doc.body.get_xmlroot())), ('styles', canon(root(self.doc.styles.styles.xmlnode))), ('meta', canon(self.doc.meta.xmlnode)),
                ('the text stock document', canon(self.stock['text'].body.get_xmlroot())),
                ('the spreadsheet stock document', canon(self.stock['sheet'].body.get_xmlroot()))]

    def observe(self):
        """what the API says about tables and collections"""
        out = []
        for t in self.tables:
            out.append((t.name, t.nrows(), t.ncols(), [[(c.value_type, c.plaintext(), c.span, c.covered, c.kind) for c in r] for r in t.rows()],
                        [[c.xmlnode.get('x') for c in r] for r in t.columns()],
                        [canon(t.row_info(i).xmlnode)[1] for i in range(t.nrows())],
                        [canon(t.column_info(j).xmlnode)[1] for j in range(t.ncols())]))
        for a in ('sheets', 'pages'):
            c = getattr(self.doc, a, None)
            if c is not None:
                out.append((len(c), list(c.names()), [p.name for p in c]))
        out.append(sorted(self.doc.body.variables.variables, key=repr))
        out.append(sorted(self.doc.body.userfields.variables, key=repr))
        return out

    # ---- arguments
    def target(self, t, nodes):
        k, doc = t[0], self.doc
        if k == 'body':
            return doc.body
        if k == 'doc':
            return doc
        if k == 'has':       # an element of a class with this property
            nodes = [x for x in nodes if hasattr(type(x), t[1])]
            return nodes[t[2] % len(nodes)] if nodes else None
        if k == 'elem':
            return nodes[t[1] % len(nodes)] if nodes else None
        if k in ('table', 'cell', 'row_info', 'column_info'):
            ts = [x for x in self.tables if x.nrows() and x.ncols()]
            if not ts:
                return None
            x = ts[t[1] % len(ts)]
            if k == 'table':
                return x
            if k == 'cell':
                return x[t[2] % x.nrows(), t[3] % x.ncols()]
            return getattr(x, k)(t[2] % (x.nrows() if k == 'row_info' else x.ncols()))
        if k == 'valued':      # a cell that has a value
            cs = [c for x in self.tables for r in x.rows() for c in r if c.value_type]
            return cs[t[1] % len(cs)] if cs else None
        if k == 'coll':
            return getattr(doc, 'sheets', None) if hasattr(doc, 'sheets') else getattr(doc, 'pages', None)
        if k == 'page':
            c = self.target(['coll'], nodes)
            return c[t[1] % len(c)] if c is not None and len(c) else None
        if k == 'meta':
            return doc.meta
        if k in ('keywords', 'usertags', 'count'):
            return getattr(doc.meta, k)
        if k in ('variable', 'userfield'):
            v = self.vars[k]
            return v[t[1] % len(v)] if v else None
        if k in ('variables', 'userfields'):
            return getattr(doc.body, k)
        if k == 'styles':
            return getattr(doc.styles, t[1])
        if k == 'style':
            st = self.styles()
            return st[t[1] % len(st)] if st else None
        raise AssertionError(t)

    def styles(self):
        from ezodf.xmlns import wrap
        return [w for w in (wrap(e) for e in self.doc.styles.styles.xmlnode if isinstance(e.tag, str)) if hasattr(w, 'ATTRIBUTEMAP')]

    def args(self, t, method, args, nodes):
        out = [self.arg(x, nodes) for x in args]
        if as_text(t, method):
            out = [Opaque() if hasattr(x, 'xmlnode') or hasattr(x, 'tag') else x for x in out]
        elif method == 'set_value':
            out = [Opaque() if hasattr(x, 'tag') else x for x in out]
        return out

    def arg(self, a, nodes):
        import ezodf
        import ezodf.drawingpage
        from ezodf.xmlns import wrap
        k = a[0]
        if k == 'v':
            return a[1]
        if k == 'none':
            return None
        if k in ('tuple', 'list'):
            v = [self.arg(x, nodes) for x in a[1]]
            return tuple(v) if k == 'tuple' else v
        if k == 'map':
            return dict((self.arg(x, nodes), self.arg(y, nodes)) for x, y in a[1])
        if k in ('object', 'bytes', 'dict', 'slice', 'type', 'set'):
            return {'object': Opaque, 'bytes': lambda: b'a', 'dict': dict, 'slice': lambda: slice(0, 1), 'type': lambda: int, 'set': set}[k]()
        if k == 'existing':
            return nodes[a[1] % len(nodes)] if nodes else None
        if k == 'existingcell':
            ts = [t for t in self.tables if t.nrows() and t.ncols()]
            if not ts:
                return None
            t = ts[a[1] % len(ts)]
            return t[a[2] % t.nrows(), a[2] // 2 % t.ncols()]
        if k == 'foreign':
            w = list(self.stock[a[1]].body)
            w = [x for x in w if x.kind in ('Paragraph', 'Table')]
            return w[a[2] % len(w)] if w else None
        if k == 'varname':
            v = self.vars['variable'] + self.vars['userfield']
            return v[a[1] % len(v)].name if v else 'none'
        if k == 'newstyle':
            return wrap(odf.build(odf.E('style:style', {'style:name': 'new%d' % (a[1] % 3), 'style:family': 'text'})))
        if k == 'existingstyle':
            s = self.styles()
            return s[a[1] % len(s)] if s else None
        if k == 'stylename':
            s = self.styles()
            return (s[a[1] % len(s)]['name'] if s and a[1] % 2 else 'new%d' % (a[1] % 3))
        if k == 'new':
            x, y = self.arg(a[2], nodes), self.arg(a[3], nodes)
            kind = a[1]
            if kind == 'generic':
                return wrap(odf.build(odf.E('x:any', {}, 't')))
            if kind == 'rawnode':
                return odf.build(odf.E('text:p', {}, 't'))
            if kind in ('SoftPageBreak', 'List', 'NumberedParagraph'):
                return getattr(ezodf, kind)()
            if kind == 'Spaces':
                return ezodf.Spaces(3)
            if kind == 'Sheet':
                return ezodf.Sheet(x, size=(2, 1))
            if kind == 'DrawingPage':
                return ezodf.drawingpage.DrawingPage(x)
            return getattr(ezodf, kind)(x)
        raise AssertionError(a)


def root(node):
    while node.getparent() is not None:
        node = node.getparent()
    return node


def call(target, method, args, seed):
    """-> ('raised', name) or ('ok', comparable result)"""
    random.seed(seed)
    try:
        if method[0] == '=':
            setattr(target, method[1:], args[0])
            r = None
        else:
            r = getattr(target, method)(*args)
        if hasattr(r, '__next__'):
            r = list(r)
        return 'ok', comparable(r)
    except MemoryError:
        raise
    except RecursionError:
        raise
    except Exception as e:
        return 'raised', '%s: %s' % (type(e).__name__, e)


def comparable(r):
    if isinstance(r, (list, tuple)):
        return [comparable(x) for x in r]
    if hasattr(r, 'xmlnode'):
        return canon(r.xmlnode)
    if isinstance(r, (int, float, str, bool, type(None))):
        return repr(r)
    return type(r).__name__


def changed(a, b):
    for (name, x), (_, y) in zip(a, b):
        if x != y:
            return '%s: %s' % (name, odf.first_difference(x, y))
    return None


def allowed(target, method, args):
    """the domain: tables keep their rows and cells"""
    def parts(x):
        n = getattr(x, 'xmlnode', None)
        return n is not None and n.tag in TABLETAGS and n.tag != odf.Q('table:table')
    if method in ('set_cell', '__setitem__', 'set_value') and hasattr(target, 'xmlnode') and target.xmlnode.tag in TABLETAGS:
        if method != 'set_value':
            return not (method == '__setitem__' and isinstance(args[0], int))
        return True
    if any(parts(x) for x in args):
        return False
    return True


def case_blob(case):
    d = dict(case['doc'])
    names = {'text:variable-': [], 'text:user-field-': []}
    for e in d['body']:
        if e[0] == 'text:variable-decls':
            names['text:variable-'] = [k[1]['text:name'] for k in e[3]]
        if e[0] == 'text:user-field-decls':
            names['text:user-field-'] = [k[1]['text:name'] for k in e[3]]
    occ = []
    for tag, kind, i, text in case['occ']:
        ns = names[tag]
        if ns:
            occ.append(odf.E(tag + kind, {'text:name': ns[i % len(ns)], 'office:value-type': 'string'}, text))
    if occ and d['type'] in docs.TEXTUAL:
        at = len(d['body'])
        while at and d['body'][at - 1][0] in docs.EPILOGUE:
            at -= 1
        d['body'] = d['body'][:at] + [odf.E('text:p', {}, 'occ', occ)] + d['body'][at:]
    return docs.package(d)


def run_case(case, ctx):
    import ezodf
    blob = case_blob(case)
    a, b = World(blob, case['kit']), World(blob, case['kit'])
    state = a.state()
    d = changed(b.state(), state)
    if d:
        raise Violation('two documents opened from the same bytes differ: %s' % d)
    rejected = later = 0
    for n, (t, method, args) in enumerate(case['ops']):
        ctx.step()
        na = a.nodes()
        ta = a.target(t, na)
        if ta is None:
            continue
        try:
            xa = a.args(t, method, args, na)
        except Exception:      # an invalid constructor argument: no object, no operation
            d = changed(a.state(), state)
            if d:
                raise Violation('creating an object changed the document: %s' % d)
            continue
        if not allowed(ta, method, xa):
            continue
        if method == 'clear' and t[0] == 'elem' and ta.kind in ('SimpleVariables', 'UserFields'):
            pass
        na2 = b.nodes()
        before = state
        res = call(ta, method, xa, n)
        what = '%s.%s%s' % (getattr(ta, 'kind', type(ta).__name__), method, short(args, 200))
        if res[0] == 'raised':
            ctx.note('rejected %s' % (method if method[0] != '=' else method))
            d = changed(a.state(), before)
            if d:
                raise Violation('%s raised %s and changed %s' % (what, res[1], d))
            if t[0] in ('table', 'coll') and n % 5 == 0:
                oa, ob = a.observe(), b.observe()
                if oa != ob:
                    raise Violation('%s raised %s and changed what the API shows: %s' % (what, res[1], odf_diff(oa, ob)))
            rejected += 1
            continue
        tb = b.target(t, na2)
        xb = b.args(t, method, args, na2)
        other = call(tb, method, xb, n)
        if other[0] == 'raised':
            raise Violation('%s raises %s only if rejected operations were not attempted before' % (what, other[1]))
        if other[1] != res[1]:
            raise Violation('%s returns %s after rejected operations and %s without them' % (what, short(res[1]), short(other[1])))
        state = a.state()
        d = changed(state, b.state())
        if d:
            raise Violation('%s has another effect after rejected operations: %s' % (what, d))
        ctx.note('accepted %s' % method)
        if state != before and rejected:
            later += 1
    a.nodes(), b.nodes()
    oa, ob = a.observe(), b.observe()
    if oa != ob:
        raise Violation('the documents differ through the API: %s' % odf_diff(oa, ob))
    # still usable: saves have the same content
    results = []
    for w in (a, b):
        p = odf.Package(w.doc.tobytes())
        out = {}
        for name, data in p.members.items():
            if name in ('content.xml', 'styles.xml', 'meta.xml', 'META-INF/manifest.xml'):
                out[name] = canon(odf.etree.fromstring(re.sub(rb'\d{4}-\d\d-\d\dT[\d:.]+', b'DATE', data)))
            else:
                out[name] = data
        results.append(out)
    same(sorted(results[0]), sorted(results[1]), 'members of the saved documents')
    for name in results[0]:
        check(results[0][name] == results[1][name], 'saved documents differ in %s', name)
    ctx.nontrivial(rejected >= 1 and later >= 1)


def odf_diff(x, y):
    for p, q in zip(x, y):
        if p != q:
            return '%s instead of %s' % (short(p, 400), short(q, 400))
    return 'lengths differ'
