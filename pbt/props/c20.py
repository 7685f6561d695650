"""C20: sheets and pages behave like an ordered, named collection."""
import io
import os

import docs
import odf
import tables
from core import Violation, check, raises, same
from odf import E, Q, build, canon, etree, unq

RULE = ('A case is a spreadsheet, drawing or presentation (new or loaded, with declarations, closing elements, foreign '
        'elements and comments between the pages, shared and missing names) and a history of appends, inserts, '
        'replacements, deletions, renames, lookups, rejected calls, edits through old references and saves, compared with '
        'a Python list after every step; non-trivial: at least four changes and a length of at least two.')
ASSUME = ['a page is in one collection at one position only',
          'pages of the source have no tail text']
BUDGET = {'quick': 15000, 'thorough': 150000}
SHEETS = ('ods', 'ots')


def strategy(profile):
    from hypothesis import strategies as st
    import gen
    s = docs.strategies()
    name = st.one_of(st.sampled_from(['a', 'b', 'A', '0', '1', "it's", 'x y', ' a', 'Sheet1', "'q'", 'a\tb', '"a"', '\xe4']), gen.name(5))
    other = st.one_of(st.just(E('x:between')), st.just(['#comment', {}, 'c', [], None]), st.just(['#pi', {'target': 'p'}, 'x', [], None]),
                      s.para.map(lambda e: e[:4] + [None]), st.just(E('office:forms')),
                      st.just(E('x:group', {}, None, [E('table:table', {'table:name': 'inner'}), E('draw:page', {'draw:name': 'inner'})])))
    page = st.one_of(name, name, name, st.none()).map(lambda n: ['page', n])
    item = gen.choice((4, page), (1, other.map(lambda e: ['other', e])))
    i = st.integers(0, 9)
    idx = st.integers(-7, 7)
    op = gen.choice(
        (4, gen.op('append', name, st.booleans())), (4, gen.op('insert', idx, name)), (2, gen.op('set', idx, name)), (2, gen.op('setname', i, name)),
        (3, gen.op('del', idx)), (2, gen.op('delname', i)), (3, gen.op('rename', i, name)), (4, gen.op('edit', i, st.integers(0, 3), gen.word(4))),
        (2, gen.op('unknown', name)), (2, gen.op('wrongkey', st.sampled_from(['None', 'float', 'tuple', 'list', 'slice', 'bytes', 'page']))),
        (2, gen.op('wrongobj', st.sampled_from(['Paragraph', 'int', 'None', 'other kind', 'str', 'generic', 'node']), i)),
        (1, gen.op('self', i)), (1, gen.op('foreign', name)), (2, gen.op('reload', st.sampled_from(['bytes', 'path', 'stream']))),
        (1, gen.op('copyin', i, name)), (1, gen.op('viabody', st.integers(0, 3))), (1, gen.op('iterdel')), (1, gen.op('move', i, idx)))
    return st.fixed_dictionaries({
        'type': st.sampled_from(['ods', 'ods', 'ods', 'ots', 'odp', 'odg', 'otp', 'otg']), 'new': st.booleans(), 'pre': s.prelude, 'items': st.lists(item, max_size=7),
        'epi': s.epilogue, 'rows': st.integers(1, 2),
        'many': st.sampled_from([0] * 40 + [70, 270]), 'ops': st.lists(op, min_size=3, max_size=30 if profile['big'] else 14)})


def normalize(name):
    for ch in '\t\r\'"':
        name = name.replace(ch, ' ')
    return name.strip()


def run_case(case, ctx):
    import ezodf
    import ezodf.drawingpage
    from ezodf.xmlns import wrap
    sheet = case['type'] in SHEETS
    tag, nametag = (Q('table:table'), Q('table:name')) if sheet else (Q('draw:page'), Q('draw:name'))

    def page_data(n):
        a = {} if n is None else {'table:name' if sheet else 'draw:name': n}
        kids = [E('table:table-column'), E('table:table-row', {}, None, [E('table:table-cell')])] if sheet else [
            E('draw:frame', {}, None, [E('draw:text-box', {}, None, [E('text:p', {}, 'in')])])]
        return E('table:table' if sheet else 'draw:page', a, None, kids)

    if case['new']:
        doc = ezodf.newdoc(case['type'] if case['type'] in ('ods', 'odp', 'odg') else 'ods' if sheet else 'odp')
    else:
        kids = case['pre'] + [page_data(x[1]) if x[0] == 'page' else x[1] for x in case['items']] + [
            page_data('many%d' % j) for j in range(case.get('many', 0))] + case['epi']
        doc = ezodf.opendoc(odf.package(case['type'], odf.content_data(case['type'], kids)))
    stock = ezodf.newdoc('ods' if sheet else 'odp')

    def coll(d=None):
        d = d or doc
        return d.sheets if sheet else d.pages

    def new(name):
        if sheet:
            name = normalize(name) and name or 'N'
            p = ezodf.Sheet(name, size=(case['rows'], 2))
            live[p.xmlnode] = p
            return p, normalize(name)
        return ezodf.drawingpage.DrawingPage(name), name

    body = doc.body.xmlnode
    nodes = [e for e in body if e.tag == tag]
    model = [[e, e.get(nametag)] for e in nodes]         # [xml node, name]
    others = [e for e in body if e.tag != tag]
    others_canon = [canon(e) for e in others]
    refs = {}                                            # node -> references
    live = {}                                            # node -> the object the collection gave first
    same(len(coll()), len(model), 'length after opening')

    def verify(what):
        c = coll()
        same(len(c), len(model), '%s: length' % what)
        same(list(c.names()), [n for _, n in model], '%s: names' % what)
        objs = list(c)
        check(len(objs) == len(model) and all(o.xmlnode is m[0] for o, m in zip(objs, model)), '%s: iteration', what)
        for j, (node, n) in enumerate(model):
            a = c[j]
            check(a is objs[j] and c[j - len(model)] is a, '%s: access gives different objects for #%s', what, j)
            check(live.setdefault(node, a) is a, '%s: repeated access gives another object for #%s', what, j)
            same(a.kind, 'Table' if sheet else 'DrawingPage', '%s: kind' % what)
            same(a.name, n, '%s: name' % what)
            same(c.index(a), j, '%s: index()' % what)
            refs.setdefault(node, [])
            if not any(r is a for r in refs[node]):
                refs[node].append(a)
            for r in refs[node]:
                check(r.xmlnode is node, '%s: a reference left its page', what)
                if sheet:
                    same((r.nrows(), r.ncols()), (a.nrows(), a.ncols()), '%s: size through two references' % what)
                same(c.index(r), j, '%s: index() of an old reference' % what)
            if n is not None:
                first = [m[1] for m in model].index(n)
                check(c[n].xmlnode is model[first][0] and c[n] is objs[first], '%s: lookup by name %s', what, n)
        for bad in (len(model), -len(model) - 1, len(model) + 7):
            raises(IndexError, c.__getitem__, bad)
            raises(IndexError, c.__delitem__, bad)
        now = [e for e in body if e.tag != tag]
        check(len(now) == len(others) and all(a is b for a, b in zip(now, others)), '%s: order of the other elements changed', what)
        for e, x in zip(now, others_canon):
            odf.require_same(canon(e), x, '%s: another element changed' % what)

    def rejected(excs, func, *args):
        before = canon(body)
        e = raises(excs, func, *args)
        odf.require_same(canon(body), before, 'rejected %s%r' % (getattr(func, '__name__', ''), args))
        ctx.note('rejected')
        return e

    verify('after opening')
    changes, longest = 0, len(model)
    for op in case['ops']:
        ctx.step()
        k = op[0]
        c = coll()
        n = len(model)
        if k == 'append':
            p, name = new(op[1])
            if op[2]:
                d = c
                d += p
                check(d is c, '+= returns another object')
            else:
                check(c.append(p) is p, 'append() does not return the page')
            model.append([p.xmlnode, name])
            refs[p.xmlnode] = [p]
        elif k in ('insert', 'foreign', 'copyin'):
            if k == 'insert':
                p, name = new(op[2])
                at = op[1]
            elif k == 'foreign':       # a page of another document moves here
                p, name = new(op[1])
                coll(stock).append(p)
                at, had = 0, len(coll(stock))
            else:
                if not n or not sheet:
                    continue
                name = normalize(op[2])
                if not name:
                    continue
                p, at = c[op[1] % n].copy(op[2]), op[1]
                live[p.xmlnode] = p
            check(c.insert(at, p) is p, 'insert() does not return the page')
            model.insert(at, [p.xmlnode, name])
            refs[p.xmlnode] = [p]
            if k == 'foreign':
                same(len(coll(stock)), had - 1, 'pages left in the other document')
        elif k == 'set':
            if not -n <= op[1] < n:
                p, _ = new(op[2])
                rejected(IndexError, c.__setitem__, op[1], p)
                continue
            p, name = new(op[2])
            c[op[1]] = p
            old = model[op[1]][0]
            model[op[1]] = [p.xmlnode, name]
            refs[p.xmlnode] = [p]
            refs.pop(old)
        elif k == 'setname':
            known = [m[1] for m in model if m[1] is not None]
            if not known:
                continue
            key = known[op[1] % len(known)]
            at = [m[1] for m in model].index(key)
            p, name = new(op[2])
            c[key] = p
            refs.pop(model[at][0])
            model[at] = [p.xmlnode, name]
            refs[p.xmlnode] = [p]
        elif k == 'del':
            if not -n <= op[1] < n:
                continue
            del c[op[1]]
            refs.pop(model[op[1]][0])
            del model[op[1]]
        elif k == 'delname':
            known = [m[1] for m in model if m[1] is not None]
            if not known:
                continue
            key = known[op[1] % len(known)]
            at = [m[1] for m in model].index(key)
            del c[key]
            refs.pop(model[at][0])
            del model[at]
        elif k == 'rename':
            if not n:
                continue
            j = op[1] % n
            r = refs[model[j][0]]
            name = normalize(op[2]) if sheet else op[2]
            if not name:
                rejected(ValueError, setattr, r[0], 'name', op[2])
                continue
            r[op[1] % len(r)].name = op[2]
            model[j][1] = name
        elif k == 'edit':
            if not n:
                continue
            j = op[1] % n
            rs = refs[model[j][0]]
            r = rs[op[2] % len(rs)]
            before = [canon(m[0]) for m in model]
            if sheet:
                [r.append_rows, r.append_columns, lambda: r[0, 0].set_value(op[3]), lambda: r.insert_rows(0)][op[2]]()
                if op[2] == 2:
                    for x in rs:
                        same(x[0, 0].value, op[3], 'value through another reference')
                same(c[j].nrows(), sum(1 for _ in tables.rows_of(model[j][0])), 'rows')
            else:
                r.append(ezodf.Paragraph(op[3]))
                for x in rs:
                    same(x[-1].plaintext(), op[3], 'text through another reference')
            for q, m in enumerate(model):
                if q != j:
                    odf.require_same(canon(m[0]), before[q], 'another page changed')
        elif k == 'unknown':
            if op[1] in [m[1] for m in model]:
                continue
            p, _ = new('p')
            rejected(KeyError, c.__getitem__, op[1])
            rejected(KeyError, c.__delitem__, op[1])
            rejected(KeyError, c.__setitem__, op[1], p)
            rejected(ValueError, c.index, p)
            continue
        elif k == 'wrongkey':
            key = {'None': None, 'float': 0.0, 'tuple': (0, 0), 'list': [0], 'slice': slice(0, 1), 'bytes': b'a',
                   'page': c[0] if n else None}[op[1]]
            p, _ = new('p')
            rejected(TypeError, c.__getitem__, key)
            rejected(TypeError, c.__setitem__, key, p)
            rejected(TypeError, c.__delitem__, key)
            continue
        elif k == 'wrongobj':
            obj = {'Paragraph': ezodf.Paragraph('x'), 'int': 5, 'None': None, 'str': 'Sheet1', 'generic': wrap(etree.Element(Q('x:any'))),
                   'node': etree.Element(tag), 'other kind': ezodf.drawingpage.DrawingPage('x') if sheet else ezodf.Sheet('x', size=(1, 1))}[op[1]]
            rejected(TypeError, c.append, obj)
            rejected(TypeError, c.insert, op[2], obj)
            rejected(TypeError, c.__setitem__, op[2] % n if n else 0, obj)
            if n and model[0][1] is not None:
                rejected(TypeError, c.__setitem__, model[0][1], obj)
            continue
        elif k == 'self':
            if not n:
                continue
            c[op[1] % n] = c[op[1] % n]
        elif k == 'move':
            # taken out and put back somewhere else: references stay valid
            if not n:
                continue
            m = model[op[1] % n]
            p = refs[m[0]][0]
            del c[op[1] % n]
            model.remove(m)
            c.insert(op[2], p)
            model.insert(op[2], m)
        elif k == 'viabody':      # the same objects reached through the body
            if not n:
                continue
            found = [list(doc.body), [doc.body.get_child(q) for q in range(len(doc.body))],
                     list(doc.body.findall(tag)), [doc.body.find(tag)]][op[1]]
            for p in found:
                if p.xmlnode in [m[0] for m in model]:
                    refs.setdefault(p.xmlnode, []).append(p)
                    check(not sheet or live[p.xmlnode] is p, 'the body gives another object for a sheet')
        elif k == 'iterdel':
            for p in list(c):
                if p.name is None:
                    at = c.index(p)
                    del c[at]
                    refs.pop(p.xmlnode)
                    model[:] = [m for m in model if m[0] is not p.xmlnode]
        else:
            want = [canon(e) for e in body]
            if op[1] == 'path':
                path = os.path.join(ctx.tmpdir(), 'x.od')
                doc.saveas(path)
                doc = ezodf.opendoc(path)
            elif op[1] == 'stream':
                buf = io.BytesIO()
                doc.write(buf) if hasattr(doc, 'write') else buf.write(doc.tobytes())
                doc = ezodf.opendoc(io.BytesIO(buf.getvalue()))
            else:
                doc = ezodf.opendoc(doc.tobytes())
            body = doc.body.xmlnode
            same(len(body), len(want), 'body elements after reload')
            for e, x in zip(body, want):
                if e.tag != tag:
                    odf.require_same(canon(e), x, 'after reload')
            model = [[e, m[1]] for e, m in zip([e for e in body if e.tag == tag], model)]
            others = [e for e in body if e.tag != tag]
            others_canon = [canon(e) for e in others]
            refs = {}
            live = {}
        changes += 1
        longest = max(longest, len(model))
        ctx.note('op ' + k)
        verify('after %r' % (op,))
    ctx.nontrivial(changes >= 4 and longest >= 2)
