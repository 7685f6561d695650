"""C26: styles are found, replaced and injected by name."""
import io
import os
from xml.sax.saxutils import escape, quoteattr

import odf
from core import check, raises, same
from odf import E, Q, build, canon, etree, unq

RULE = ('A case is a document (new, packaged, flat) with generated style containers (shared and missing names, default styles, comments, '
        'names in several containers) and a history of lookups, stores (new, copied, moved between containers, under existing names), '
        'injections of XML text, attribute changes including renames, rejected calls and reloads, compared with a list of elements per '
        'container after every step. Non-trivial: at least three changes and one lookup of a name that is there.')
ASSUME = ['a style is stored under the name it carries', 'if several elements of a container carry a name, any one of them is the style of that name',
          'an injected style goes to the common styles of the document', 'text between styles is of no importance']
BUDGET = {'quick': 17100, 'thorough': 200000}
ATTRS = {
    'style:style': ['name', 'display-name', 'family', 'parent-style-name', 'next-style-name', 'list-style-name', 'master-page-name', 'auto-update', 'data-style-name', 'class', 'default-outline-level'],
    'style:default-style': ['family'], 'style:page-layout': ['name', 'page-usage']}
PACKAGED = ['styles.fonts', 'styles.styles', 'styles.automatic_styles', 'styles.master_styles', 'content.fonts', 'content.automatic_styles']
FLAT = ['fonts', 'styles', 'automatic_styles', 'master_styles']
TAGS = {'fonts': 'office:font-face-decls', 'styles': 'office:styles', 'automatic_styles': 'office:automatic-styles', 'master_styles': 'office:master-styles'}
CLASSES = {'style:style': 'Style', 'style:default-style': 'DefaultStyle', 'style:page-layout': 'PageLayout', 'style:font-face': 'FontFace'}


def strategy(profile):
    from hypothesis import strategies as st
    import docs
    import gen
    s = docs.strategies()
    name = st.one_of(st.sampled_from(['a', 'a', 'b', 'b', 'c', 'Standard', 'A', "it's", 'a"b', 'x y', '*', '.', 'style:a', '\xe4', '0', ' a', '[a]', '%s']), gen.name(4))
    tag = st.sampled_from(['style:style', 'style:style', 'style:style', 'style:page-layout', 'style:font-face', 'style:default-style', 'text:list-style', 'number:date-style', 'style:master-page', 'x:style', 'draw:gradient'])
    attrs = st.dictionaries(st.sampled_from(['style:family', 'style:display-name', 'style:parent-style-name', 'style:class', 'style:next-style-name', 'style:list-style-name',
                                              'style:master-page-name', 'style:auto-update', 'style:data-style-name', 'style:default-outline-level', 'x:a', 'draw:name', 'text:name', 'style:page-usage', 'svg:font-family', 'name']),
                            st.one_of(gen.word(4), st.sampled_from(['a', 'b', 'text', 'paragraph', '']), gen.text(4)), max_size=3)
    kid = st.builds(lambda t, a, n: E(t, dict(a, **({'style:name': n} if n else {}))), st.sampled_from(['style:text-properties', 'style:map', 'style:header-style', 'style:style', 'x:p']),
                    st.dictionaries(st.sampled_from(['fo:color', 'x:b']), gen.word(3), max_size=1), st.one_of(st.none(), name))
    style = st.builds(lambda t, n, a, k: E(t, dict(a, **{'style:name': n}), None, k), tag, name, attrs, st.lists(kid, max_size=2))
    nameless = st.builds(lambda t, a, k: E(t, a, None, k), tag, attrs, st.lists(kid, max_size=1))
    misc = st.sampled_from([['#comment', {}, 'a', [], None], ['#pi', {'target': 'a'}, 'a', [], None]])
    content = st.lists(gen.choice((6, style), (1, nameless), (1, misc)), max_size=5)
    c = st.integers(0, 5)
    i = st.integers(0, 9)
    key = st.sampled_from(sorted(set(sum(ATTRS.values(), []))) + ['name', 'name', 'family', 'nothing', 'style:name', 'Name', ''])
    key = st.one_of(st.integers(0, 10), st.integers(0, 10), key)
    value = st.one_of(name, gen.text(5))
    op = gen.choice((5, gen.op('get', c, name)), (3, gen.op('getall', c)), (6, gen.op('set', c, style, st.sampled_from(['wrap', 'fake', 'wrap']))), (3, gen.op('setat', c, i, style)),
                    (3, gen.op('move', c, i, c)), (1, gen.op('copy', c, i, c)), (1, gen.op('self', c, i)), (4, gen.op('inject', style, st.sampled_from(['', '', '\n  ', ' ', '<!-- c -->', '<?p i?>\n']))),
                    (5, gen.op('attr', c, i, key, value)), (4, gen.op('rename', c, i, name)), (2, gen.op('read', c, i)), (2, gen.op('reject', c, name, st.sampled_from(['None', 'str', 'int', 'node'])) ),
                    (1, gen.op('header', c, i, st.booleans())), (1, gen.op('reload', st.sampled_from(['bytes', 'path', 'stream']))), (1, gen.op('badinject', st.sampled_from(['<style:style', 'text', '', '<foo:bar/>', '<style:style>', '<a></b>']))), (1, gen.op('badattr', c, i)))
    return st.fixed_dictionaries({'type': st.sampled_from(['odt', 'ods', 'odp', 'odg']), 'how': st.sampled_from(['new', 'package', 'package', 'flat', 'newflat']),
                                  'containers': st.lists(st.one_of(content, st.none()), min_size=6, max_size=6), 'ops': st.lists(op, min_size=7, max_size=30 if profile['big'] else 14)})


def xml_text(data):
    """an element as text that uses the prefixes of the tables"""
    tag, attrs, text, kids = data[:4]
    a = ''.join(' %s=%s' % (k, quoteattr(v, {'\n': '&#10;', '\t': '&#9;', '\r': '&#13;'})) for k, v in sorted(attrs.items()))
    return '<%s%s>%s%s</%s>' % (tag, a, escape(text or ''), ''.join(xml_text(k) for k in kids), tag)


def native(data):
    """the element without the foreign namespace of the generators"""
    fix = lambda n: n.replace('x:', 'draw:')
    return [fix(data[0]), dict((fix(k), v) for k, v in data[1].items()), data[2], [native(k) for k in data[3]], None]


def run_case(case, ctx):
    import ezodf
    import ezodf.document
    from ezodf.xmlns import fake_element, wrap
    t = case['type']
    flat = 'flat' in case['how']
    paths = FLAT if flat else PACKAGED
    if case['how'] == 'new':
        doc = ezodf.newdoc(t)
    elif case['how'] == 'newflat':
        doc = ezodf.document.FlatXMLDocument(t)
    else:
        body = E('office:body', {}, None, [E(odf.BODYTAG[t])])
        parts = []
        for p, content in zip(PACKAGED, case['containers']):
            if content is not None:
                parts.append([p, E(TAGS[p.split('.')[-1]], {}, None, content)])
        if flat:
            root = E('office:document', {'office:mimetype': odf.MIME[t]}, None, [x for p, x in parts if p.startswith('styles.')] + [body])
            doc = open_flat(root, ctx)
        else:
            doc = ezodf.opendoc(odf.package(t, E('office:document-content', {}, None, [x for p, x in parts if p.startswith('content')] + [body]),
                                            E('office:document-styles', {}, None, [x for p, x in parts if p.startswith('styles')])))

    def container(path):
        x = doc
        for a in path.split('.'):
            x = getattr(x, a)
        return x

    def snapshot():
        for p in paths:
            model[p] = list(container(p).xmlnode)
        canons.clear()
        for p in paths:
            for e in model[p]:
                canons[e] = canon(e)

    model, canons = {}, {}
    snapshot()
    if case['how'] in ('package', 'flat'):
        given = dict((p, x) for p, x in parts)
        for p in paths:
            src = given.get(p if not flat else 'styles.' + p)
            want = [canon(e) for e in build(src)] if src is not None else []
            same(len(model[p]), len(want), 'number of styles after opening')
            for e, w in zip(model[p], want):
                odf.require_same(canons[e], w, 'style after opening')
    rest = canon(doc.body.xmlnode)

    def carriers(p, name):
        return [e for e in model[p] if e.get(Q('style:name')) == name]

    def verify(what):
        for p in paths:
            c = container(p)
            same(unq(c.xmlnode.tag), TAGS[p.split('.')[-1]], 'element of a container')
            now = list(c.xmlnode)
            check(len(now) == len(model[p]) and all(a is b for a, b in zip(now, model[p])), '%s: children of %s: %s, expected %s', what, p,
                  [e.get(Q('style:name')) for e in now], [e.get(Q('style:name')) for e in model[p]])
            for e in now:
                odf.require_same(canon(e), canons[e], '%s: style in %s' % (what, p))
        odf.require_same(canon(doc.body.xmlnode), rest, '%s: body' % what)

    def lookup(p, name, via=None):
        c = via or container(p)
        have = carriers(p, name)
        if not have:
            raises(KeyError, c.__getitem__, name)
            return None
        x = c[name]
        check(any(x.xmlnode is e for e in have), 'the style found as %s in %s is not one of the elements with that name', name, p)
        same(type(x).__name__, CLASSES.get(unq(x.xmlnode.tag), 'GenericWrapper') if unq(x.xmlnode.tag) in CLASSES else type(wrap(x.xmlnode)).__name__, 'class of a style')
        return x

    def new(data, how='wrap'):
        if how == 'fake':
            data = native(data)
            return fake_element(xml_text(data)), data
        return wrap(build(data)), data

    def at(p, i):
        named = [e for e in model[p] if isinstance(e.tag, str) and e.get(Q('style:name')) is not None]
        return named[i % len(named)] if named else None

    def store(p, name, value):
        have = carriers(p, name)
        old = container(p)[name].xmlnode if have else None
        container(p)[name] = value
        for q in paths:            # the element may come from another container
            if value.xmlnode in model[q] and value.xmlnode is not old:
                model[q].remove(value.xmlnode)
        if old is None:
            model[p].append(value.xmlnode)
        else:
            check(old in have, 'the replaced style')
            model[p][model[p].index(old)] = value.xmlnode
            if old is not value.xmlnode:
                check(old.getparent() is None, 'a replaced style is still in the document')
        canons[value.xmlnode] = canon(value.xmlnode)
        got = container(p)[name].xmlnode
        check(got is value.xmlnode or len(carriers(p, name)) > 1, 'the style stored as %s is not found', name)

    verify('after opening')
    changes = found = 0
    for op in case['ops']:
        ctx.step()
        k = op[0]
        p = paths[op[1] % len(paths)] if isinstance(op[1], int) else None
        c = container(p) if p else None
        if k == 'get':
            found += lookup(p, op[2]) is not None
            lookup(p, op[2], wrap(c.xmlnode))
        elif k == 'getall':
            for q in paths:
                for name in [e.get(Q('style:name')) for e in model[p]] + ['nowhere']:
                    if name is not None:
                        found += lookup(q, name) is not None
        elif k in ('set', 'setat'):
            data = op[2] if k == 'set' else op[3]
            if k == 'setat':
                e = at(p, op[2])
                if e is not None:
                    data = [data[0], dict(data[1], **{'style:name': e.get(Q('style:name'))})] + data[2:]
            how = op[3] if k == 'set' else 'wrap'
            x, data = new(data, how)
            want = canon(build(data))
            odf.require_same(canon(x.xmlnode), want, 'a new style')
            store(p, data[1]['style:name'], x)
            odf.require_same(canon(x.xmlnode), want, 'a stored style')
            changes += 1
        elif k in ('move', 'copy', 'self'):
            e = at(p, op[2])
            if e is None:
                continue
            name = e.get(Q('style:name'))
            x = lookup(p, name)
            if k == 'self':
                store(p, name, x)
            else:
                if k == 'copy':
                    import copy
                    y = copy.deepcopy(x.xmlnode)
                    y.tail = None
                    x = wrap(y)
                q = paths[op[3] % len(paths)]
                if q == p and k == 'move' and len(carriers(p, name)) > 1:
                    continue
                store(q, name, x)
                if k == 'move' and q != p:
                    lookup(p, name)
            changes += 1
        elif k == 'inject':
            data = native(op[1])
            text = (op[2] if op[2].isspace() else '') + xml_text(data) + op[2]
            doc.inject_style(text)
            q = 'styles' if flat else 'styles.styles'
            kids = list(container(q).xmlnode)
            same(len(kids), len(model[q]) + 1, 'number of styles after an injection')
            check(kids[-1] not in model[q], 'an injected style is not the last one')
            odf.require_same(canon(kids[-1]), canon(build(data)), 'injected style')
            model[q].append(kids[-1])
            canons[kids[-1]] = canon(kids[-1])
            x = lookup(q, data[1]['style:name'])
            check(x.xmlnode is kids[-1] or len(carriers(q, data[1]['style:name'])) > 1, 'the injected style is not found')
            found += 1
            changes += 1
        elif k == 'badinject':
            raises((etree.XMLSyntaxError, IndexError, ValueError), doc.inject_style, op[1])
        elif k in ('attr', 'rename', 'read', 'badattr'):
            e = at(p, op[2])
            if e is None:
                continue
            x = lookup(p, e.get(Q('style:name')))
            e = x.xmlnode
            names = ATTRS.get(unq(e.tag))
            if names is None:
                continue
            for n in names:
                same(x[n], e.get(Q('style:' + n)), 'attribute %s of a style' % n)
            raises(KeyError, x.__getitem__, 'nothing')
            if k == 'read':
                continue
            if k == 'badattr':
                raises((TypeError, ValueError), x.__setitem__, names[0], None)
                raises((TypeError, ValueError), x.__setitem__, names[0], 'a\x00b')
                raises(KeyError, x.__setitem__, 'nothing', 'a')
            else:
                key, value = (op[3], op[4]) if k == 'attr' else ('name', op[3])
                if isinstance(key, int):
                    key = names[key % len(names)]
                if key in names:
                    want = canon(e)
                    want = (want[0], tuple(sorted(dict(want[1], **{Q('style:' + key): value}).items()))) + want[2:]
                    x[key] = value
                    same(x[key], value, 'attribute %s after setting it' % key)
                    odf.require_same(canon(e), want, 'style after setting %s' % key)
                    canons[e] = canon(e)
                    changes += 1
                else:
                    raises(KeyError, x.__setitem__, key, value)
        elif k == 'reject':
            value = {'None': None, 'str': 'text', 'int': 1, 'node': object()}[op[3]]
            raises((AttributeError, TypeError), c.__setitem__, op[2], value)
        elif k == 'header':
            layouts = [e for e in model[p] if e.tag == Q('style:page-layout') and e.get(Q('style:name')) is not None]
            if layouts:
                e = layouts[op[2] % len(layouts)]
                x = wrap(e)
                h = x.header if op[3] else x.footer
                check(h.xmlnode.getparent().getparent() is e, 'header properties of a page layout')
                after = canon(e)
                again = x.header if op[3] else x.footer
                check(again.xmlnode is h.xmlnode, 'header properties are created again')
                odf.require_same(canon(e), after, 'second access of the header')
                canons[e] = after
        elif k == 'reload':
            want = dict((q, [canons[e] for e in model[q]]) for q in paths)
            if op[1] == 'path':
                path = os.path.join(ctx.tmpdir(), 'x.' + t)
                doc.saveas(path)
                doc = ezodf.opendoc(path)
            elif flat:
                path = os.path.join(ctx.tmpdir(), 'y.' + t)
                with open(path, 'wb') as f:
                    f.write(doc.tobytes())
                doc = ezodf.opendoc(path)
            else:
                doc = ezodf.opendoc(doc.tobytes() if op[1] == 'bytes' else io.BytesIO(doc.tobytes()))
            snapshot()
            for q in paths:
                same(len(model[q]), len(want[q]), 'number of styles after a reload')
                for e, w in zip(model[q], want[q]):
                    odf.require_same(canons[e], w, 'style after a reload')
        verify('after %s' % op)
    for p in paths:
        for name in set(e.get(Q('style:name')) for q in paths for e in model[q]) - {None}:
            lookup(p, name)
    ctx.nontrivial(changes >= 3 and found)


def open_flat(root, ctx):
    import ezodf
    path = os.path.join(ctx.tmpdir(), 'in.fodt')
    with open(path, 'wb') as f:
        f.write(odf.serialise(root))
    return ezodf.opendoc(path)

