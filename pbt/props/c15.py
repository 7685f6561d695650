"""C15: cells return the value and type that were set."""
import os
from decimal import Decimal
import datetime
from fractions import Fraction

import odf
from core import Violation, check, raises, same
from odf import E, Q, build, canon, etree, unq

RULE = ('A case is a group of cells (constructed, or loaded with any value type, attributes and content, in a table or not) '
        'and a history of values set by type, appended text, display forms, attribute writes, rejected values and saves; after '
        'every step value, type, currency, text, attributes and the stored XML of all cells are compared with the model; '
        'non-trivial: at least three accepted values of two different types on one cell.')
ASSUME = ['numbers are finite and explicit numeric types get numbers or numeric texts',
          'notes, frames and extension attributes of a cell are not judged when a value is set']
BUDGET = {'quick': 36000, 'thorough': 300000}
# content that is no paragraph: it has no part in the text of the cell
OTHER = {'list': E('text:list', {}, None, [E('text:list-item', {}, None, [E('text:p', {}, 'item')])]),
         'note': E('office:annotation', {}, None, [E('text:p', {}, 'note')]), 'frame': E('draw:frame', {'draw:name': 'f'}),
         'table': E('table:table', {'table:name': 'sub'}, None, [E('table:table-row', {'table:number-rows-repeated': '3'}, None, [E('table:table-cell')])]),
         'comment': ['#comment', {}, 'c', [], None], 'foreign': E('x:p', {}, 'foreign')}
TYPES = ['float', 'percentage', 'currency', 'date', 'time', 'boolean', 'string']
NUMERIC = ('float', 'percentage', 'currency')
STORED = {'string': 'office:string-value', 'float': 'office:value', 'percentage': 'office:value', 'currency': 'office:value',
          'date': 'office:date-value', 'time': 'office:time-value', 'boolean': 'office:boolean-value'}
TRACES = [Q(a) for a in set(STORED.values())] + [Q('office:currency'), Q('office:value-type')]
PROPS = {'style_name': 'table:style-name', 'formula': 'table:formula', 'protected': 'table:protect',
         'content_validation_name': 'table:content-validation-name'}
DATES = ['2011-02-05', '1999-12-31T23:59:59', '2011-01-29T12:00:00.25', '0001-01-01']
TIMES = ['PT01H00M00,0000S', 'PT0H05M00S', 'PT26H', 'P1DT2H']


def strategy(profile):
    from hypothesis import strategies as st
    import gen
    text = st.one_of(gen.text(8), gen.word(6), st.sampled_from(['', '1', 'true', 'None', ' ', 'a\nb', '=A1', '2011-02-05', 'EUR']))
    attrs = st.fixed_dictionaries({}, optional={
        'table:style-name': gen.word(3), 'table:formula': gen.word(4), 'table:protect': st.sampled_from(['true', 'false']),
        'table:content-validation-name': gen.word(3), 'table:number-columns-spanned': st.just('1'), 'x:a': gen.word(3),
        'table:number-matrix-columns-spanned': st.just('1'), 'table:number-rows-spanned': st.just('1')})
    para = st.tuples(st.sampled_from(['p', 'p', 'p', 'h']), gen.word(5)).map(list)
    other = st.tuples(st.sampled_from(sorted(OTHER)), st.just('')).map(list)
    numtext = st.sampled_from(['1', '-2.5', '0', '1e3', '100', '0.001'])
    loaded = st.one_of(
        st.builds(lambda t, v: [t, v], st.sampled_from(NUMERIC), numtext), st.builds(lambda v: ['date', v], st.sampled_from(DATES)),
        st.builds(lambda v: ['time', v], st.sampled_from(TIMES)), st.builds(lambda v: ['boolean', v], st.sampled_from(['true', 'false'])),
        st.builds(lambda v: ['string', v], st.sampled_from([None, 'stored'])), st.just([None, None]))
    value = st.one_of(
        st.tuples(st.just('py'), st.one_of(text, gen.number, st.booleans(), st.lists(st.integers(0, 3), max_size=2)), st.just(None)),
        st.tuples(st.just('decimal'), numtext, st.just(None)), st.tuples(st.just('pydate'), st.integers(0, 9), st.just(None)),
        st.tuples(st.just('other'), st.integers(-9, 9), st.sampled_from([None, None, 'string']), st.sampled_from(['fraction', 'fraction', 'complex', 'frozenset', 'none', 'bytes'])),
        st.tuples(st.just('py'), st.one_of(gen.number, numtext), st.sampled_from(NUMERIC)),
        st.tuples(st.just('py'), st.sampled_from(DATES), st.just('date')), st.tuples(st.just('py'), st.sampled_from(TIMES), st.just('time')),
        st.tuples(st.just('py'), st.one_of(st.booleans(), st.sampled_from([0, 1, 'false', 'x', 2.5])), st.just('boolean')),
        st.tuples(st.just('py'), st.one_of(text, gen.number, st.booleans()), st.just('string')),
        st.tuples(st.just('par'), gen.word(5), st.sampled_from([None, 'string', 'float'])),
        st.tuples(st.just('head'), gen.word(5), st.just(None)), st.tuples(st.just('own'), st.integers(0, 5), st.just(None))).map(list)
    currency = st.sampled_from([None, None, None, 'EUR', 'USD', '\u20ac', 'a b', ' ', '0', ''])
    bad = st.one_of(
        st.builds(lambda t: ['py', None, t, None], st.sampled_from([None] + TYPES + ['invalid', 'Float', 'void', ''])),
        st.builds(lambda v, t: ['py', v, t, None], st.sampled_from(['a', 1, True, '']), st.sampled_from(
            ['invalid', 'Float', '', 'int', 'str', 'void', 'datetime', 'floatx', 'value', 7])),
        st.builds(lambda t, c: ['py', '', t, c], st.sampled_from(['float', 'percentage', 'currency', 'date', 'time']), st.sampled_from([None, 'EUR'])),
        st.builds(lambda k, t: [k, 'x', t, None], st.sampled_from(['span', 'list', 'cell', 'generic']), st.sampled_from([None, 'string', 'float'])),
        st.builds(lambda v, t: ['py', v, t, None], st.sampled_from(['a\x00b', '\x01', 'x\ufffe', '2011\x1f']), st.sampled_from(
            [None, 'string', 'date', 'time', 'float'])),
        st.just(['py', 5, None, 'E\x00']))
    i = st.integers(0, 5)
    op = gen.choice((14, gen.op('set', i, value, currency)), (3, gen.op('bad', i, bad)), (3, gen.op('append', i, text, st.sampled_from([None, 'T1']))),
                    (3, gen.op('display', i, gen.word(6))), (2, gen.op('para', i, para)),
                    (3, gen.op('attr', i, st.sampled_from(['style_name', 'formula', 'content_validation_name']), gen.word(5))),
                    (1, gen.op('attr', i, st.just('protected'), st.booleans())), (1, gen.op('delattr', i, st.integers(0, 3))),
                    (1, gen.op('reload', st.sampled_from(['bytes', 'path']))), (1, gen.op('span', i)))
    cell = st.one_of(
        st.fixed_dictionaries({'value': value, 'currency': currency, 'style': st.sampled_from([None, 'S'])}),
        st.fixed_dictionaries({'type': st.sampled_from(TYPES), 'style': st.sampled_from([None, 'S'])}),
        st.fixed_dictionaries({'loaded': loaded, 'currency': st.sampled_from([None, 'EUR']), 'attrs': attrs,
                               'content': st.lists(gen.choice((4, para), (1, other)), max_size=3), 'covered': gen.choice((5, st.just(False)), (1, st.just(True)))}))
    return st.fixed_dictionaries({'cells': st.lists(cell, min_size=1, max_size=4), 'table': st.booleans(),
                                  'badnew': st.lists(bad, max_size=1),
                                  'ops': st.lists(op, min_size=3, max_size=20 if profile['big'] else 10)})


class Model(object):
    def __init__(self):
        self.type = self.value = self.currency = None
        self.paras = []       # texts of paragraphs and headings
        self.kinds = []
        self.others = []      # canonical forms of all other content
        self.attrs = {}       # clark name -> value, without the traces of the value
        self.tag = Q('table:table-cell')
        self.span = (1, 1)

    def text(self):
        return '\n'.join(self.paras)

    def set(self, value, t, currency):
        """value: python value or ('para', kind, text)"""
        if isinstance(value, tuple):
            self.type, self.value, self.currency = 'string', None, None
            self.paras, self.kinds = [value[2]], [value[1]]
            return
        if currency is not None:
            t = 'currency'
        if t is None:
            t = 'boolean' if type(value) is bool else 'float' if isinstance(value, (int, float)) else 'string'
        self.type, self.currency = t, currency or None
        self.paras, self.kinds = [], []
        if t == 'string':
            self.value = None
            self.paras, self.kinds = [str(value)], ['p']
        elif t == 'boolean':
            self.value = bool(value)
        elif t in NUMERIC:
            self.value = float(value)
        else:
            self.value = str(value)


def python_value(spec, cell, model):
    """(value for ezodf, value for the model)"""
    import ezodf
    from ezodf.xmlns import wrap
    kind, v = spec[0], spec[1]
    if kind == 'py':
        return v, v
    if kind == 'decimal':
        return Decimal(v), str(Decimal(v))
    if kind == 'other':       # numbers of other types are texts
        x = {'fraction': Fraction(v, 4), 'complex': complex(v, 1), 'frozenset': frozenset([v]), 'none': (None,), 'bytes': bytearray(b'x')}[spec[3]]
        return x, str(x)
    if kind == 'pydate':
        d = datetime.date(2011, 2, 1 + v)
        return d, str(d)
    if kind == 'par':
        return ezodf.Paragraph(v), ('para', 'p', v)
    if kind == 'head':
        return ezodf.Heading(v), ('para', 'h', v)
    if kind == 'own':
        own = [] if cell is None else [e for e in cell.xmlnode if e.tag in (Q('text:p'), Q('text:h'))]
        if not own:
            return ezodf.Paragraph('own'), ('para', 'p', 'own')
        i = v % len(own)
        return wrap(own[i]), ('para', model.kinds[i], model.paras[i])
    return {'span': ezodf.Span('x'), 'list': ezodf.ezlist(['x']), 'cell': ezodf.Cell('x'),
            'generic': wrap(etree.Element(Q('x:any')))}[kind], None


def verify(cell, m, what):
    same(cell.value_type, m.type, what + ': value type')
    want = m.text() if m.type == 'string' else m.value
    got = cell.value
    if got != want or type(got) is not type(want):
        raise Violation('%s: value is %r, expected %r (type %s)' % (what, got, want, m.type))
    same(cell.currency, m.currency, what + ': currency')
    same(cell.plaintext(), m.text(), what + ': text')
    same(cell.display_form, m.text(), what + ': display form')
    same(cell.textlen, len(m.text()), what + ': text length')
    same(cell.span, m.span, what + ': span')
    same(cell.covered, m.tag == Q('table:covered-table-cell'), what + ': covered')
    same(cell.kind, 'Cell', what + ': kind')
    for name, attr in PROPS.items():
        v = m.attrs.get(Q(attr))
        same(getattr(cell, name), (v == 'true') if name == 'protected' else v, '%s: %s' % (what, name))
    # what is stored
    node = cell.xmlnode
    same(node.tag, m.tag, what + ': element')
    stored = dict(node.attrib)
    same({k: v for k, v in stored.items() if k not in TRACES}, m.attrs, what + ': attributes')
    traces = {k: v for k, v in stored.items() if k in TRACES}
    allowed = {Q('office:value-type')} if m.type else set()
    if m.type:
        allowed.add(Q(STORED[m.type]))
    if m.currency is not None:
        allowed.add(Q('office:currency'))
    check(set(traces) <= allowed, '%s: traces of another value %s', what, traces)
    if m.type == 'boolean' and m.value is not None:
        same(traces.get(Q('office:boolean-value')), 'true' if m.value else 'false', what + ': stored value')
    same([e.tag for e in node if is_para(e)], [Q('text:' + k) for k in m.kinds], what + ': paragraphs')
    same([canon(e) for e in node if not is_para(e)], m.others, what + ': other content')


def is_para(e):
    return e.tag in (Q('text:p'), Q('text:h'))


def run_case(case, ctx):
    import ezodf
    models, cells = [], []
    for c in case['cells']:
        m = Model()
        if 'loaded' in c:
            t, v = c['loaded']
            node = etree.Element(Q('table:covered-table-cell' if c['covered'] else 'table:table-cell'))
            m.tag = node.tag
            attrs = dict(c['attrs'])
            for a, x in attrs.items():
                node.set(Q(a), x)
                m.attrs[Q(a)] = x
            m.type = t
            if t:
                node.set(Q('office:value-type'), t)
                if v is not None:
                    node.set(Q(STORED[t]), v)
                if t == 'currency' and c['currency']:
                    node.set(Q('office:currency'), c['currency'])
                    m.currency = c['currency']
                m.value = None if t == 'string' else float(v) if t in NUMERIC else v == 'true' if t == 'boolean' else v
            for k, x in c['content']:
                if k in OTHER:
                    node.append(build(OTHER[k]))
                    m.others.append(canon(node[-1]))
                    continue
                etree.SubElement(node, Q('text:' + k)).text = x
                m.paras.append(x.strip(' ') if False else x)
                m.kinds.append(k)
            from ezodf.xmlns import wrap
            cell = wrap(node)
        elif 'type' in c:
            cell = ezodf.Cell(value_type=c['type'], style_name=c['style'])
            m.type = c['type']
            if c['style']:
                m.attrs[Q('table:style-name')] = c['style']
        else:
            v, mv = python_value(c['value'], None, None)
            if mv == '' and (c['currency'] is not None or c['value'][2] in NUMERIC):
                continue
            cell = make(c, v)
            if cell is None:
                continue
            m.set(mv, c['value'][2], c['currency'])
            if c['style']:
                m.attrs[Q('table:style-name')] = c['style']
        models.append(m)
        cells.append(cell)
    for b in case['badnew']:
        v, _ = python_value(b, None, None)
        if v is not None and not (isinstance(v, str) and b[2] == 'boolean'):
            raises((TypeError, ValueError), ezodf.Cell, v, b[2], b[3])
        elif v is None and b[2] is not None and b[2] not in TYPES:
            raises(TypeError, ezodf.Cell, v, b[2], b[3])
    doc = ezodf.newdoc('ods')
    doc.sheets.append(ezodf.Sheet('T', size=(2, max(1, len(cells)))))
    intable = case['table'] and cells
    if intable:
        for i, cell in enumerate(cells):
            doc.sheets[0][1, i] = cell
        cells = [doc.sheets[0][1, i] for i in range(len(cells))]
    for i, m in enumerate(models):
        verify(cells[i], m, 'cell %d at the start' % i)
    accepted = {}
    for op in case['ops']:
        ctx.step()
        k = op[0]
        if not cells:
            return
        if k == 'reload':
            if not intable:
                continue
            if op[1] == 'path':
                p = os.path.join(ctx.tmpdir(), 'c.ods')
                doc.saveas(p)
                doc = ezodf.opendoc(p)
            else:
                doc = ezodf.opendoc(doc.tobytes())
            same((doc.sheets[0].nrows(), doc.sheets[0].ncols()), (2, len(cells)), 'size after reload')
            cells = [doc.sheets[0][1, i] for i in range(len(cells))]
            for i in range(len(cells)):
                odf.require_same(canon(doc.sheets[0][0, i].xmlnode), canon(build(E('table:table-cell'))), 'untouched cell')
        else:
            i = op[1] % len(cells)
            cell, m = cells[i], models[i]
            if k == 'set':
                spec, currency = op[2], op[3]
                if isinstance(spec[1], list) and currency is not None:
                    continue
                v, mv = python_value(spec, cell, m)
                t = spec[2]
                if not isinstance(mv, tuple):
                    if currency is not None and not numeric(mv):
                        continue
                    if t in NUMERIC and not numeric(mv):
                        continue
                cell.set_value(v, *([t] if t else []), **({'currency': currency} if currency is not None else {}))
                m.set(mv, t, currency if not isinstance(mv, tuple) else None)
                m.others = [canon(e) for e in cell.xmlnode if not is_para(e)]
                accepted.setdefault(i, []).append(m.type)
                ctx.note('set ' + m.type)
            elif k == 'bad':
                v, _ = python_value(op[2], cell, m)
                before = canon(cell.xmlnode)
                raises((TypeError, ValueError), cell.set_value, v, op[2][2], op[2][3])
                odf.require_same(canon(cell.xmlnode), before, 'rejected set_value(%r)' % (op[2],))
                ctx.note('rejected value')
            elif k == 'append':
                before = canon(cell.xmlnode)
                if m.type != 'string':
                    raises(TypeError, cell.append_text, op[2])
                    odf.require_same(canon(cell.xmlnode), before, 'rejected append_text')
                    continue
                cell.append_text(op[2], *([op[3]] if op[3] else []))
                if len([e for e in cell.xmlnode if is_para(e)]) == len(m.paras):
                    check(m.paras, 'appended text is in no paragraph')
                    m.paras[-1] += op[2]
                else:       # a new paragraph when there was none, or behind other content
                    check(not m.paras or m.others, 'appended text is in a new paragraph')
                    m.paras.append(op[2])
                    m.kinds.append('p')
                styled = cell.xmlnode[-1] if not len(cell.xmlnode[-1]) or cell.xmlnode[-1][-1].tag != Q('text:span') else cell.xmlnode[-1][-1]
                if op[3]:
                    same(styled.get(Q('text:style-name')), op[3], 'style of the appended text')
            elif k == 'display':
                if m.type in (None, 'string'):
                    before = canon(cell.xmlnode)
                    raises(TypeError, setattr, cell, 'display_form', op[2])
                    odf.require_same(canon(cell.xmlnode), before, 'rejected display_form')
                    continue
                cell.display_form = op[2]
                if 'p' in m.kinds:
                    m.paras[m.kinds.index('p')] = op[2]
                else:
                    m.paras.append(op[2])
                    m.kinds.append('p')
            elif k == 'para':
                cell.append((ezodf.Heading if op[2][0] == 'h' else ezodf.Paragraph)(op[2][1]))
                m.paras.append(op[2][1])
                m.kinds.append(op[2][0])
            elif k == 'attr':
                setattr(cell, op[2], op[3])
                m.attrs[Q(PROPS[op[2]])] = ('true' if op[3] else 'false') if op[2] == 'protected' else op[3]
            elif k == 'delattr':
                name = sorted(PROPS)[op[2]]
                if Q(PROPS[name]) in m.attrs:
                    delattr(cell, name)
                    del m.attrs[Q(PROPS[name])]
            elif k == 'span':
                if not intable or m.tag != Q('table:table-cell') or m.span != (1, 1):
                    continue
                if Q('table:number-columns-spanned') in m.attrs or Q('table:number-rows-spanned') in m.attrs:
                    continue
                doc.sheets[0].set_cell_span((0, i), (1, 1))      # no effect
        for j, m in enumerate(models):
            verify(cells[j], m, 'after %r cell %d' % (op, j))
        ctx.note('op ' + k)
    ctx.nontrivial(any(len(a) >= 3 and len(set(a)) >= 2 for a in accepted.values()))


def numeric(v):
    try:
        return not isinstance(v, bool) and abs(float(v)) < float('inf')
    except (TypeError, ValueError, OverflowError):
        return False


def make(c, v):
    import ezodf
    t, cur = c['value'][2], c['currency']
    if (cur is not None or t in NUMERIC) and c['value'][0] in ('py', 'decimal', 'pydate', 'other') and \
            not numeric(v if c['value'][0] == 'py' else str(v)):
        return None
    kw = {}
    if t:
        kw['value_type'] = t
    if cur is not None:
        kw['currency'] = cur
    if c['style']:
        kw['style_name'] = c['style']
    return ezodf.Cell(v, **kw)
