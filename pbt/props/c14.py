"""C14: setting a variable updates every occurrence and nothing else."""
import os

import docs
import odf
from core import Violation, check, raises, same
from odf import E, NS, Q, build, canon, etree, unq

RULE = ('A case is a document with declared simple variables and user fields (names with any characters, shared names), '
        'occurrences nested anywhere (paragraphs, lists, sections, table cells, notes, frames; with or without stored '
        'values), undeclared look-alikes, and a history of assignments, declarations, added occurrences and saves; after '
        'every assignment the whole content is compared. non-trivial: at least two assignments to variables with '
        'occurrences of their name in both kinds or at least two occurrences.')
ASSUME = ['simple variables have at least one occurrence where their value is judged (their declaration has no value)',
          'numbers are finite', 'occurrences have no child elements',
          'occurrences in page headers and footers (styles.xml) are not part of the content']
BUDGET = {'quick': 13800, 'thorough': 200000}
DECL = {'simple': 'text:variable-decl', 'user': 'text:user-field-decl'}
DECLS = {'simple': 'text:variable-decls', 'user': 'text:user-field-decls'}
OCC = {'simple': ['text:variable-set', 'text:variable-get', 'text:variable-input'],
       'user': ['text:user-field-get', 'text:user-field-input', 'text:user-field-get']}
VALUE = {'float': 'office:value', 'boolean': 'office:boolean-value', 'string': 'office:string-value'}
VALUES = ['office:value', 'office:boolean-value', 'office:string-value', 'office:date-value', 'office:time-value',
          'office:value-type', 'office:currency']


def strategy(profile):
    from hypothesis import strategies as st
    import gen
    name = st.one_of(st.sampled_from(['a', 'b', 'A', 'a b', "it's", '"q"', "a'\"b", '0', '1', '-1', '', '', '', ' ', ' a', 'x]', '{x}a', '*', '.', 'a/b']),
                     gen.name(5))
    kind = st.sampled_from(['simple', 'user'])
    value = st.one_of(gen.text(8), gen.word(5), st.sampled_from(['', 'true', 'false', 'True', '1', '1.5', 'nan', 'None']), gen.number,
                      st.booleans())
    stored = st.sampled_from([None, None, ['float', '1.5', '1,50'], ['string', 'old', 'old'], ['boolean', 'true', 'TRUE'],
                              ['date', '2011-01-01', '1.1.2011'], ['time', 'PT1H', '1h'], ['bare', '', 'text']])
    i = st.integers(0, 12)
    occ = gen.op('occ', kind, i, st.integers(0, 2), stored, st.sampled_from([None, 'tail', ' ']))
    other = st.one_of(
        st.builds(lambda n: ['raw', E('text:sequence', {'text:name': n}, '1')], name),
        st.builds(lambda n, t: ['raw', E(t, {'x:name': n}, 'no name')], name, st.sampled_from(OCC['simple'] + OCC['user'])),
        st.builds(lambda n, t: ['raw', E(t, {'text:name': n}, 'text')], name, st.sampled_from(
            ['text:bookmark', 'text:span', 'text:variable', 'x:variable-set', 'text:expression', 'text:user-defined'])),
        st.builds(lambda t: ['raw', ['#comment', {}, t, [], None]], st.sampled_from(['c', ' '])))
    leaf = gen.choice((8, occ), (2, other))
    holder = st.sampled_from(['text:p', 'text:h', 'text:span', 'text:note', 'draw:frame', 'office:annotation', 'x:any'])
    block = st.recursive(st.tuples(st.just('node'), holder, st.lists(leaf, max_size=3)).map(list),
                         lambda inner: st.tuples(st.just('node'), st.sampled_from(['text:section', 'text:list', 'text:list-item', 'table',
                                                                                   'draw:text-box', 'text:p']),
                                                 st.lists(inner, min_size=1, max_size=3)).map(list), max_leaves=6)
    decl = st.fixed_dictionaries({'name': name, 'kind': kind, 'type': st.sampled_from(['string', 'float', 'boolean', 'date', None]),
                                  'extra': st.sampled_from([{}, {}, {'x:a': '1'}, {'text:formula': 'ooow:1+1'}])})
    op = gen.choice((10, gen.op('set', kind, i, value, st.sampled_from(['item', 'attr', 'iter', 'kept']))),
                    (2, gen.op('occ', kind, i, st.integers(0, 2), i)), (1, gen.op('declare', kind, name)),
                    (1, gen.op('undeclare', kind, i)), (1, gen.op('lookup', kind, name)), (2, gen.op('reload', st.sampled_from(['bytes', 'path']))))
    # several values for one variable in a row
    run = st.tuples(kind, i, st.lists(st.one_of(st.booleans(), value), min_size=2, max_size=4), st.sampled_from(['item', 'attr', 'kept'])).map(
        lambda p: [['set', p[0], p[1], v, p[3]] for v in p[2]])
    ops = st.lists(gen.choice((6, op.map(lambda o: [o])), (1, run)), min_size=2, max_size=14 if profile['big'] else 8)
    return st.fixed_dictionaries({
        'type': st.sampled_from(['odt', 'odt', 'odt', 'ods', 'odg', 'odp', 'flat', 'ott', 'odc', 'odi']),
        'decls': st.lists(decl, min_size=1, max_size=5, unique_by=lambda d: (d['name'], d['kind'])),
        'body': st.lists(block, min_size=1, max_size=5 if profile['big'] else 3), 'ends': st.booleans(),
        'comment': st.booleans(),
        # other elements among the declarations, with names of their own
        'alien': st.one_of(st.just([]), st.lists(st.tuples(kind, i, st.sampled_from(['x:other', 'text:other', 'text:sequence-decl', '#pi']), name).map(list), max_size=3)),
        'ops': ops.map(lambda l: [o for run in l for o in run])})


def stored_value(kind, stored):
    if stored is None:
        return {}, 'x'
    t, v, text = stored
    if t == 'bare':
        return {}, text
    if kind == 'user':
        return {}, text
    return {'office:value-type': t, VALUE.get(t, 'office:%s-value' % t): v}, text


def decl_data(d):
    a = dict(d['extra'], **{'text:name': d['name']})
    if d['type']:
        a['office:value-type'] = d['type']
    if d['kind'] == 'user' and d['type']:
        a[{'date': 'office:date-value'}.get(d['type']) or VALUE[d['type']]] = {
            'string': 'old', 'float': '2', 'boolean': 'true', 'date': '2011-01-01'}[d['type']]
    return E(DECL[d['kind']], a)


def block_data(b, names):
    if b[0] == 'raw':
        return b[1]
    if b[0] == 'occ':
        _, kind, i, which, stored, tail = b
        attrs, text = stored_value(kind, stored)
        return E(OCC[kind][which], dict(attrs, **{'text:name': names(kind, i), 'x:keep': 'k'}), text, [], tail)
    tag, kids = b[1], [block_data(k, names) for k in b[2]]
    if tag == 'table':
        return E('table:table', {'table:name': 'T'}, None, [E('table:table-row', {}, None, [E('table:table-cell', {}, None, kids)])])
    return E(tag, {}, None, kids)


def shown_type(v):
    return 'boolean' if type(v) is bool else 'float' if isinstance(v, (int, float)) else 'string'


def equal(got, v):
    if type(v) is bool:
        return got is v
    if isinstance(v, (int, float)):
        return type(got) is float and got == float(v)
    return (got or '') == v


def run_case(case, ctx):
    import ezodf
    from ezodf.xmlns import wrap
    declared = {'simple': {}, 'user': {}}      # name -> assigned value or None
    for d in case['decls']:
        declared[d['kind']][d['name']] = None

    def names(kind, i):
        # also names of the other kind and undeclared names
        pool = sorted(declared[kind]) * 3 + sorted(declared['user' if kind == 'simple' else 'simple']) + ['undeclared']
        return pool[i % len(pool)]

    kids = {k: [decl_data(d) for d in case['decls'] if d['kind'] == k] for k in DECL}
    if case['comment']:
        for k in kids:
            kids[k].insert(0, ['#comment', {}, 'c', [], None])
    for k, at, tag, name in case['alien']:
        kids[k].insert(at % (len(kids[k]) + 1), ['#pi', {'target': 'x'}, 'p', [], None] if tag == '#pi' else E(tag, {'text:name': name, 'x:name': name}))
    pre = [E(DECLS['simple'], {}, None, kids['simple']), E(DECLS['user'], {}, None, kids['user'])]
    body = [block_data(b, names) for b in case['body']]
    if case['ends']:
        body.append(E('table:named-expressions'))
    doctype = 'odt' if case['type'] == 'flat' else case['type']
    content = odf.content_data(doctype, pre + body)
    path = os.path.join(ctx.tmpdir(), 'f.xml')
    if case['type'] == 'flat':
        root = etree.Element(Q('office:document'), nsmap=NS)
        root.set(Q('office:mimetype'), odf.MIME['odt'])
        root.append(build(content[3][0]))
        with open(path, 'wb') as f:
            f.write(etree.tostring(root))
        doc = ezodf.opendoc(path)
    else:
        blob = odf.package(doctype, content)
        doc = ezodf.opendoc(blob)
        twin = ezodf.opendoc(blob)
        twin_canon = canon(twin.body.xmlnode)
    kept = {}
    assigned = interesting = 0

    def occurrences(tree, kind, name):
        return [e for e in tree.iter(*[Q(t) for t in set(OCC[kind])]) if e.get(Q('text:name')) == name]

    def decl_of(tree, kind, name):
        return [e for e in tree.iter(Q(DECL[kind])) if e.get(Q('text:name')) == name]

    def masked(kind, name):
        """canonical content without what an assignment may change"""
        tree = etree.fromstring(etree.tostring(doc.body.xmlnode))
        for e in occurrences(tree, kind, name):
            e.text = None
            for a in VALUES:
                e.attrib.pop(Q(a), None)
        for e in decl_of(tree, kind, name):
            for a in VALUES:
                e.attrib.pop(Q(a), None)
        return canon(tree)

    def container(kind):
        return doc.body.variables if kind == 'simple' else doc.body.userfields

    def judge(kind, name, v, what):
        var = container(kind)[name]
        occ = occurrences(doc.body.xmlnode, kind, name)
        same(var.type, shown_type(v), '%s: type of %s %r' % (what, kind, name))
        if occ or kind == 'user':
            check(equal(var.value, v) and (kind == 'simple' or var.value is not None), '%s: value of %s is %s, expected %s', what, name, var.value, v)
        for e in occ:
            w = wrap(e)
            where = '%s: occurrence %s of %r' % (what, unq(e.tag), name)
            same(w.type, shown_type(v), where + ': type')
            check(equal(w.value, v), '%s: value is %s, expected %s', where, w.value, v)
            same(e.get(Q('office:value-type')), shown_type(v), where + ': stored type')
            text = e.text or ''
            if type(v) is bool:
                same(text.lower(), 'true' if v else 'false', where + ': text')
            elif isinstance(v, (int, float)):
                check(float(text) == float(v), '%s: text is %s, expected %s', where, text, v)
            else:
                same(text, v, where + ': text')
            for t, a in VALUE.items():
                s = e.get(Q(a))
                if s is not None and t != shown_type(v):
                    raise Violation('%s: left-over attribute %s=%r' % (where, a, s))
                if s is not None:
                    ok = s == v if t == 'string' else s == ('true' if v else 'false') if t == 'boolean' else float(s) == float(v)
                    check(ok, '%s: stored value is %s, expected %s', where, s, v)
            for a in ('office:date-value', 'office:time-value'):
                check(e.get(Q(a)) is None, '%s: left-over attribute %s', where, a)
        same(sum(1 for _ in var.instances), len(occ), '%s: number of instances of %r' % (what, name))
        for e in decl_of(doc.body.xmlnode, kind, name):
            t = shown_type(v)
            same(e.get(Q('office:value-type')), t, '%s: stored type of the declaration of %r' % (what, name))
            if kind == 'user':
                s = e.get(Q(VALUE[t]))
                ok = s is not None and (s == v if t == 'string' else s == ('true' if v else 'false') if t == 'boolean' else float(s) == float(v))
                check(ok, '%s: stored value of the declaration of %s is %s, expected %s', what, name, s, v)

    def lists(what):
        for kind in DECL:
            c = container(kind)
            got = [v.name for v in c if v.kind in ('SimpleVariable', 'UserField')]
            want = [e.get(Q('text:name')) for e in doc.body.xmlnode.find(Q(DECLS[kind])) if e.tag == Q(DECL[kind])]
            same(got, want, '%s: iteration over %s' % (what, kind))
            same(sorted(got), sorted(declared[kind]), '%s: declared %s' % (what, kind))
            for n in declared[kind]:
                check(n in c, '%s: %s is not a member', what, n)
                same(c[n].name, n, '%s: name of the variable found' % what)
                same(c[n].kind, {'simple': 'SimpleVariable', 'user': 'UserField'}[kind], '%s: class of %r' % (what, n))
                check(c[n].xmlnode.getparent() is doc.body.xmlnode.find(Q(DECLS[kind])), '%s: lookup of %s', what, n)
            for n in list(declared['user' if kind == 'simple' else 'simple']) + ['undeclared', '', '0', '1', '-1'] + [a[3] for a in case['alien']]:
                if n not in declared[kind]:
                    check(n not in c, '%s: %s is a member of %s', what, n, kind)
                    raises(KeyError, c.__getitem__, n)

    lists('at the start')
    for op in case['ops']:
        ctx.step()
        k = op[0]
        if k == 'set':
            _, kind, i, v, route = op
            if not declared[kind]:
                continue
            name = sorted(declared[kind])[i % len(declared[kind])]
            before = masked(kind, name)
            c = container(kind)
            if route == 'item':
                c[name] = v
            elif route == 'attr':
                c[name].value = v
            elif route == 'iter':
                for var in c:
                    if getattr(var, 'name', None) == name:
                        var.value = v
            else:
                if (kind, name) not in kept:
                    kept[kind, name] = c[name]
                kept[kind, name].value = v
            declared[kind][name] = v
            assigned += 1
            twinname = occurrences(doc.body.xmlnode, 'user' if kind == 'simple' else 'simple', name)
            interesting += bool(occurrences(doc.body.xmlnode, kind, name)) and (
                len(occurrences(doc.body.xmlnode, kind, name)) > 1 or bool(twinname))
            ctx.note('set %s %s' % (kind, shown_type(v)))
            odf.require_same(masked(kind, name), before, 'setting %s %r changed other content' % (kind, name))
            if (kind, name) in kept:
                check(equal(kept[kind, name].value, v) or kind == 'simple', 'value through a kept reference')
        elif k == 'occ':
            _, kind, i, which, where = op
            ps = [e for e in doc.body.xmlnode.iter(Q('text:p'))]
            name = names(kind, i)
            e = build(E(OCC[kind][which], {'text:name': name, 'x:keep': 'k'}, 'new'))
            v = declared[kind].get(name)
            if v is not None:      # a new occurrence gets the current value
                wrap(e).value = v
            if ps:
                wrap(ps[where % len(ps)]).append(wrap(e))
            else:
                p = ezodf.Paragraph()
                p.append(wrap(e))
                doc.body.append(p)
        elif k == 'declare':
            _, kind, name = op
            if name in declared[kind]:
                continue
            container(kind).append(wrap(build(decl_data({'name': name, 'kind': kind, 'type': 'string', 'extra': {}}))))
            declared[kind][name] = None
        elif k == 'undeclare':
            _, kind, i = op
            if not declared[kind]:
                continue
            name = sorted(declared[kind])[i % len(declared[kind])]
            container(kind).remove(container(kind)[name])
            del declared[kind][name]
            kept.pop((kind, name), None)
        elif k == 'lookup':
            _, kind, name = op
            c = container(kind)
            if name not in declared[kind]:
                before = canon(doc.body.xmlnode)
                raises(KeyError, c.__getitem__, name)
                raises(KeyError, c.__setitem__, name, 'x')
                odf.require_same(canon(doc.body.xmlnode), before, 'rejected assignment')
        else:
            if case['type'] == 'flat':
                doc.save()
                doc = ezodf.opendoc(path)
            elif op[1] == 'path':
                p = os.path.join(ctx.tmpdir(), 'o.odt')
                doc.saveas(p)
                doc = ezodf.opendoc(p)
            else:
                doc = ezodf.opendoc(doc.tobytes())
            kept = {}
        lists('after %r' % (op,))
        for kind in declared:
            for name, v in declared[kind].items():
                if v is not None:
                    judge(kind, name, v, 'after %r' % (op,))
    if case['type'] != 'flat':
        odf.require_same(canon(twin.body.xmlnode), twin_canon, 'another document with the same variables changed')
    ctx.nontrivial(assigned >= 2 and interesting)
