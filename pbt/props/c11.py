"""C11: generic element containers behave like lists."""
import io

import odf
from core import Violation, check, raises, same
from odf import E, Q, build, canon, etree, unq

RULE = ('A case is a content element of any class with generated children (elements, comments, texts and tails), held '
        'references, and a history of list operations with valid and invalid arguments compared with a Python list of '
        'the child nodes; non-trivial: at least four changing operations on a container with two or more children.')
ASSUME = ['the tail text belongs to the child node in front of it (lxml data model)', 'a node is member of one place only',
          'attribute values set through set_attr are not empty']
BUDGET = {'quick': 21800, 'thorough': 400000}
HOSTS = ['text:p', 'text:h', 'text:span', 'text:a', 'text:list', 'text:list-item', 'text:list-header', 'text:section',
         'text:numbered-paragraph', 'x:any', 'draw:page', 'office:text', 'office:drawing', 'office:chart', 'text:table-of-content',
         'table:table-cell', 'office:spreadsheet', 'office:presentation', 'table:table-row', 'draw:frame', 'text:s', 'office:scripts']
KIDS = ['text:p', 'text:h', 'text:span', 'text:a', 'text:list', 'text:list-item', 'text:list-header', 'text:section', 'text:s',
        'text:tab', 'text:line-break', 'text:soft-page-break', 'x:any', 'draw:frame', 'text:numbered-paragraph', 'office:annotation',
        'text:bookmark', 'table:table-cell', 'draw:rect', 'text:variable-get', 'table:table-column']


def strategy(profile):
    from hypothesis import strategies as st
    import gen
    import ezodf.drawingpage  # noqa registers the page class
    xmltext = st.one_of(st.none(), st.none(), gen.text(4).map(lambda t: t or None), st.sampled_from(['t', ' ']))
    attrs = st.one_of(st.just({}), st.dictionaries(st.sampled_from(['x:a', 'text:style-name', 'plain']), gen.word(3), max_size=2))
    deep = st.builds(lambda t, s: E(t, {}, s), st.sampled_from(['text:span', 'text:s', 'x:deep', 'text:p']), xmltext)
    kid = gen.choice((9, st.builds(E, st.sampled_from(KIDS), attrs, xmltext, st.lists(deep, max_size=2), xmltext)),
                     (1, st.builds(lambda t, s, tail: [t, {}, s, [], tail], st.sampled_from(['#comment', '#pi']),
                                   st.sampled_from(['', 'c']), xmltext)))
    i = st.integers(-8, 8)
    any_i = st.one_of(i, i, st.sampled_from([99, -99, 1000000]), st.sampled_from([15, 17, 31, 33, 63, 65, 127, 128, 129, 255, 256, 257, 280, -128, -129, -256, -257, -280]))
    many = st.one_of(*[st.just(0)] * 30 + [st.sampled_from([16, 32, 64, 100, 128, 200, 256, 300])])
    via = st.booleans()
    op = gen.choice(
        (4, gen.op('append', kid, st.sampled_from(['append', 'iadd']))), (4, gen.op('insert', any_i, kid)),
        (3, gen.op('set', any_i, kid, via)), (3, gen.op('del', any_i, via)), (2, gen.op('before', i, kid)), (3, gen.op('remove', i)),
        (3, gen.op('replace', i, kid)), (1, gen.op('clear')), (2, gen.op('get', any_i, via)), (2, gen.op('index', i)),
        (2, gen.op('foreign', st.sampled_from(['remove', 'replace', 'index', 'before', 'deep_remove', 'deep_index', 'deep_replace', 'deep_before', 'other_remove', 'other_index', 'other_replace', 'other_before']), kid)),
        (2, gen.op('junk', st.sampled_from(['append', 'insert', 'remove', 'replace', 'set', 'index']),
                   st.sampled_from([None, 5, 'text', 1.5]))),
        (1, gen.op('badindex', st.sampled_from(['get', 'set', 'del', 'insert']), st.sampled_from(['x', None, '', [1]]), kid)),
        (2, gen.op('find', st.sampled_from(KIDS))), (3, gen.op('move', st.sampled_from(['append', 'before', 'replace']), i, i)), (2, gen.op('steal', i)), (2, gen.op('give', i)),
        (2, gen.op('text', xmltext)), (2, gen.op('tail', i, xmltext)), (2, gen.op('kidtext', i, xmltext)),
        (2, gen.op('attr', st.sampled_from(['x:a', 'x:b', 'plain']), st.one_of(gen.nonempty(5), st.sampled_from(['true', 'false', 'True', 'TRUE', '1', '0', 'on', 'yes', ' true', 'true '])))), (1, gen.op('boolattr', st.sampled_from(['x:a', 'x:b', 'plain']), st.one_of(st.booleans(), st.sampled_from([0, 1, 2, '', 'false', None])))), (1, gen.op('attrget', gen.word(3))),
        (1, gen.op('kidattr', i, gen.nonempty(4))))
    return st.fixed_dictionaries({
        'host': st.builds(E, st.sampled_from(HOSTS), attrs, xmltext, st.lists(kid, max_size=8 if profile['big'] else 5), xmltext),
        'many': many, 'nested': st.booleans(), 'ops': st.lists(op, min_size=3, max_size=26 if profile['big'] else 14)})


class Snap(object):
    """what must not change: content of all children and of the container itself"""

    def __init__(self, host, kids):
        self.kids = [canon(k, True) for k in kids]
        self.text = host.text
        self.attrs = dict(host.attrib)
        self.tail = host.tail


def run_case(case, ctx):
    from ezodf.xmlns import wrap
    import ezodf.drawingpage  # noqa registers the page class
    node = build(case['host'])
    for i in range(case['many']):
        etree.SubElement(node, Q('text:span'), n=str(i))
    if case['nested']:
        top = etree.Element(Q('text:section'))
        top.append(etree.Element(Q('text:p')))
        top.append(node)
        top.append(etree.Element(Q('x:last')))
    w = wrap(node)
    # bodies get declaration containers when they are wrapped, see C13
    kids = list(node)
    other = etree.Element(Q('text:section'))
    other.append(etree.Element(Q('text:p')))
    others = list(other)
    ow = wrap(other)
    changes = 0
    ctx.note('host ' + unq(node.tag))

    def state():
        return (canon(node, True), [id(k) for k in node], canon(other))

    def unchanged(func, what, *args):
        before = state()
        keep = list(node), list(other)  # noqa the proxies keep their identity
        raises(Exception, func, *args)
        if state() != before:
            raise Violation('%s raised but changed the container: %s' % (what, odf.first_difference(state()[0], before[0])))

    def verify(what, snap, changed=()):
        same(len(w), len(kids), what + ': length')
        listed = [x.xmlnode for x in w]
        check(len(listed) == len(kids) and all(a is b for a, b in zip(listed, kids)), '%s: iteration differs: %s, expected %s',
              what, [unq(x.tag) for x in listed], [unq(k.tag) for k in kids])
        check(all(a is b for a, b in zip(node, kids)) and len(node) == len(kids), '%s: child nodes differ', what)
        check(all(a is b for a, b in zip(other, others)) and len(other) == len(others), '%s: other container differs', what)
        for i, k in enumerate(kids):
            check(w[i].xmlnode is k and w.get_child(i).xmlnode is k and w[i - len(kids)].xmlnode is k, '%s: child %s', what, i)
            same(w.index(w[i]), i, what + ': index')
            check(k.getparent() is node, '%s: parent of child %s', what, i)
        if snap is not None:
            for i, k in enumerate(kids):
                if k in snap and k not in changed:
                    odf.require_same(canon(k, True), snap[k], '%s: child %d' % (what, i))

    def snap():
        d = {k: canon(k, True) for k in kids}
        return d

    verify('at the start', None)
    for op in case['ops']:
        ctx.step()
        k = op[0]
        before = snap()
        host = (node.text, dict(node.attrib), node.tail)
        n = len(kids)
        what = repr(op)
        changed = []
        if k == 'append':
            new = build(op[1], {})
            x = wrap(new)
            pos = n
            if unq(node.tag) == 'office:text':
                # text bodies: see C13 (no epilogue elements are generated)
                pos = n
            if op[2] == 'append':
                check(w.append(x) is x, 'append does not return the child')
            else:
                w += x
            kids.insert(pos, new)
        elif k == 'insert':
            new = build(op[2], {})
            x = wrap(new)
            check(w.insert(op[1], x) is x, 'insert does not return the child')
            kids.insert(op[1], new)
        elif k == 'set':
            new = build(op[2], {})
            func = w.__setitem__ if op[3] else w.set_child
            if -n <= op[1] < n:
                func(op[1], wrap(new))
                kids[op[1]] = new
            else:
                unchanged(func, what, op[1], wrap(new))
                check(new.getparent() is None, 'rejected child has a parent')
        elif k == 'del':
            func = w.__delitem__ if op[2] else w.del_child
            if -n <= op[1] < n:
                func(op[1])
                del kids[op[1]]
            else:
                unchanged(func, what, op[1])
        elif k == 'get':
            func = w.__getitem__ if op[2] else w.get_child
            if -n <= op[1] < n:
                check(func(op[1]).xmlnode is kids[op[1]], 'child %s', op[1])
                check(func(op[1]).kind == wrap(kids[op[1]]).kind, 'class of child %s', op[1])
            else:
                unchanged(func, what, op[1])
        elif k == 'before':
            new = build(op[2], {})
            if n:
                i = op[1] % n
                x = wrap(new)
                check(w.insert_before(w[i], x) is x, 'insert_before does not return the child')
                kids.insert(i, new)
        elif k == 'move':     # a child gets another position in the same container
            if n < 2:
                continue
            i, j = op[2] % n, op[3] % n
            if i == j:
                continue
            x = kids[i]
            if op[1] == 'append':
                w.append(wrap(x))
                del kids[i]
                kids.append(x)
            elif op[1] == 'before':
                w.insert_before(wrap(kids[j]), wrap(x))
                target = kids[j]
                del kids[i]
                kids.insert(kids.index(target), x)
            else:
                w.replace(wrap(kids[j]), wrap(x))
                kids[j] = x
                del kids[i]
        elif k == 'remove':
            if n:
                w.remove(wrap(kids[op[1] % n]))
                del kids[op[1] % n]
        elif k == 'replace':
            if n:
                new = build(op[2], {})
                w.replace(w[op[1] % n], wrap(new))
                kids[op[1] % n] = new
        elif k == 'clear':
            w.clear()
            kids = []
            host = (None, dict(node.attrib), node.tail)
            check(not node.text, 'text after clear: %s', node.text)
        elif k == 'index':
            if n:
                same(w.index(wrap(kids[op[1] % n])), op[1] % n, 'index')
        elif k == 'foreign':
            new = build(op[2], {})
            func = op[1]
            if func.startswith('deep_'):
                deep = [e for c in kids for e in c]
                if not deep:
                    continue
                new, func = deep[0], func[5:]
            if func.startswith('other_'):
                if not others:
                    continue
                new, func = others[0], func[6:]
            if func == 'remove':
                unchanged(w.remove, what, wrap(new))
            elif func == 'index':
                unchanged(w.index, what, wrap(new))
            elif func == 'replace':
                unchanged(w.replace, what, wrap(new), wrap(etree.Element(Q('x:new'))))
            else:
                unchanged(w.insert_before, what, wrap(new), wrap(etree.Element(Q('x:new'))))
            if others:
                unchanged(w.remove, what, ow[0])
        elif k == 'junk':
            if op[1] == 'append':
                unchanged(w.append, what, op[2])
            elif op[1] == 'insert':
                unchanged(w.insert, what, 0, op[2])
            elif op[1] == 'remove':
                unchanged(w.remove, what, op[2])
            elif op[1] == 'index':
                unchanged(w.index, what, op[2])
            elif n:
                unchanged(w.replace, what, w[0], op[2]) if op[1] == 'replace' else unchanged(w.__setitem__, what, 0, op[2])
        elif k == 'badindex':
            new = wrap(build(op[3], {}))
            if op[1] == 'get':
                unchanged(w.get_child, what, op[2])
            elif op[1] == 'del':
                unchanged(w.del_child, what, op[2])
            elif op[1] == 'set':
                unchanged(w.set_child, what, op[2], new)
            else:
                unchanged(w.insert, what, op[2], new)
        elif k == 'find':
            tag = Q(op[1])
            want = [c for c in kids if c.tag == tag]
            found = [x.xmlnode for x in w.findall(tag)]
            check(len(found) == len(want) and all(a is b for a, b in zip(found, want)), 'findall(%s)', op[1])
            first = w.find(tag)
            check((first is None and not want) or (want and first.xmlnode is want[0]), 'find(%s)', op[1])
        elif k == 'steal':
            if others:
                i = op[1] % len(others)
                x = ow[i]
                w.append(x)
                kids.append(others.pop(i))
        elif k == 'give':
            if n:
                i = op[1] % n
                ow.append(w[i])
                others.append(kids.pop(i))
        elif k == 'text':
            w.text = op[1]
            same(w.text, op[1], 'text')
            host = (op[1],) + host[1:]
        elif k == 'tail':
            if n:
                c = kids[op[1] % n]
                w[op[1] % n].tail = op[2]
                same(w[op[1] % n].tail, op[2], 'tail')
                data = canon(c, True)
                odf.require_same(data[:-1], before[c][:-1], 'child after setting its tail')
                same(c.tail, op[2], 'tail of the node')
                changed = [c]
        elif k == 'kidtext':
            if n and isinstance(kids[op[1] % n].tag, str):
                c = kids[op[1] % n]
                w[op[1] % n].text = op[2]
                same(w[op[1] % n].text, op[2], 'text of child')
                same(canon(c, True)[3:], before[c][3:], 'children and tail after setting the text')
                changed = [c]
        elif k == 'attr':
            w.set_attr(Q(op[1]), op[2])
            same(w.get_attr(Q(op[1])), op[2], 'attribute')
            host[1][Q(op[1])] = op[2]
            same(w.get_bool_attr(Q(op[1])), op[2] == 'true', 'truth value of the attribute text %r' % op[2])
        elif k == 'boolattr':
            w.set_bool_attr(Q(op[1]), op[2])
            same(w.get_bool_attr(Q(op[1])), bool(op[2]), 'truth value')
            host[1][Q(op[1])] = 'true' if op[2] else 'false'
        elif k == 'attrget':
            same(w.get_attr(Q('x:never')), None, 'missing attribute')
            same(w.get_bool_attr(Q('x:never')), False, 'missing truth value')
            same(w.get_attr(Q('x:never'), op[1]), op[1], 'default of a missing attribute')
            for a, v in node.attrib.items():
                same(w.get_attr(a, 'default'), v, 'attribute')
        elif k == 'kidattr':
            if n and isinstance(kids[op[1] % n].tag, str):
                c = kids[op[1] % n]
                w[op[1] % n].set_attr(Q('x:z'), op[2])
                same(w[op[1] % n].get_attr(Q('x:z')), op[2], 'attribute of child')
                changed = [c]
        same((node.text, dict(node.attrib), node.tail), host, 'text, attributes and tail of the container after %s' % what)
        ctx.note('op ' + k)
        if k in ('append', 'insert', 'set', 'del', 'before', 'remove', 'replace', 'steal', 'give') and n >= 2:
            changes += 1
        verify('after ' + what, before, changed)
    if case['nested']:
        check(len(top) == 3 and top[1] is node, 'elements around the container changed')
    ctx.nontrivial(changes >= 4)
