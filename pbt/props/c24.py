"""C24: prefixed names and element wrapping follow the namespace tables."""
import gc
import json
import os
import subprocess
import sys

import core
import odf
from core import check, raises, same
from odf import E, Q, build, canon, etree, unq

RULE = ('A case is one of: a sequence of prefixed, qualified and malformed names converted in order (with repeats) against a table '
        'written from the standard; a random element tree whose nodes are wrapped through every access path (plain, cached, '
        'children, find) with collections in between; objects created with random arguments; or a fresh interpreter importing the '
        'modules in a random order and converting and wrapping there. Non-trivial: at least one repeated and one rejected name, or '
        'at least three wrapped nodes, or a created object, or a fresh interpreter.')
ASSUME = ['local names are XML names; the prefix xml and prefixes of no ODF document are not judged',
          'bodies may add missing declaration containers when they are wrapped, tables with repetitions or ragged rows are '
          'normalized (C18), the document roots of meta and styles are not wrapped by users']
BUDGET = {'quick': 24000, 'thorough': 300000}

# OASIS OpenDocument 1.2, tables of namespaces; the second group as written by OpenOffice.org
NAMESPACES = {
    'anim': 'urn:oasis:names:tc:opendocument:xmlns:animation:1.0',
    'chart': 'urn:oasis:names:tc:opendocument:xmlns:chart:1.0',
    'config': 'urn:oasis:names:tc:opendocument:xmlns:config:1.0',
    'dr3d': 'urn:oasis:names:tc:opendocument:xmlns:dr3d:1.0',
    'draw': 'urn:oasis:names:tc:opendocument:xmlns:drawing:1.0',
    'fo': 'urn:oasis:names:tc:opendocument:xmlns:xsl-fo-compatible:1.0',
    'form': 'urn:oasis:names:tc:opendocument:xmlns:form:1.0',
    'manifest': 'urn:oasis:names:tc:opendocument:xmlns:manifest:1.0',
    'meta': 'urn:oasis:names:tc:opendocument:xmlns:meta:1.0',
    'number': 'urn:oasis:names:tc:opendocument:xmlns:datastyle:1.0',
    'office': 'urn:oasis:names:tc:opendocument:xmlns:office:1.0',
    'of': 'urn:oasis:names:tc:opendocument:xmlns:of:1.2',
    'presentation': 'urn:oasis:names:tc:opendocument:xmlns:presentation:1.0',
    'script': 'urn:oasis:names:tc:opendocument:xmlns:script:1.0',
    'smil': 'urn:oasis:names:tc:opendocument:xmlns:smil-compatible:1.0',
    'style': 'urn:oasis:names:tc:opendocument:xmlns:style:1.0',
    'svg': 'urn:oasis:names:tc:opendocument:xmlns:svg-compatible:1.0',
    'table': 'urn:oasis:names:tc:opendocument:xmlns:table:1.0',
    'text': 'urn:oasis:names:tc:opendocument:xmlns:text:1.0',
    'dc': 'http://purl.org/dc/elements/1.1/',
    'grddl': 'http://www.w3.org/2003/g/data-view#',
    'math': 'http://www.w3.org/1998/Math/MathML',
    'xforms': 'http://www.w3.org/2002/xforms',
    'xlink': 'http://www.w3.org/1999/xlink',
    'xhtml': 'http://www.w3.org/1999/xhtml',
    'xsd': 'http://www.w3.org/2001/XMLSchema',
    'xsi': 'http://www.w3.org/2001/XMLSchema-instance',
    'dom': 'http://www.w3.org/2001/xml-events',
    'css3t': 'http://www.w3.org/TR/css3-text/',
    'ooo': 'http://openoffice.org/2004/office',
    'ooow': 'http://openoffice.org/2004/writer',
    'oooc': 'http://openoffice.org/2004/calc',
    'officeooo': 'http://openoffice.org/2009/office',
    'tableooo': 'http://openoffice.org/2009/table',
    'drawooo': 'http://openoffice.org/2010/draw',
    'rpt': 'http://openoffice.org/2005/report',
    'field': 'urn:openoffice:names:experimental:ooo-ms-interop:xmlns:field:1.0',
    'formx': 'urn:openoffice:names:experimental:ooxml-odf-interop:xmlns:form:1.0',
}
PREFIXES = sorted(NAMESPACES)
UNKNOWN_PREFIXES = ['foo', 'Text', 'TEXT', 'tex', 'texts', 'text ', ' text', 'urn', 'http', 'o', 'offic', 'table-', '{text', 'none', 'html']

# element -> name of the class
CLASSES = {
    'text:span': 'Span', 'text:p': 'Paragraph', 'text:h': 'Heading', 'text:a': 'Hyperlink', 'text:section': 'Section',
    'text:list': 'List', 'text:list-item': 'ListItem', 'text:list-header': 'ListHeader', 'text:numbered-paragraph': 'NumberedParagraph',
    'text:tab': 'Tabulator', 'text:line-break': 'LineBreak', 'text:s': 'Spaces', 'text:soft-page-break': 'SoftPageBreak',
    'table:table': 'Table', 'table:table-row': 'TableRow', 'table:table-column': 'TableColumn',
    'table:table-cell': 'Cell', 'table:covered-table-cell': 'CoveredCell', 'draw:page': 'DrawingPage',
    'text:variable-decls': 'SimpleVariables', 'text:variable-decl': 'SimpleVariable', 'text:variable-set': 'SimpleVariableSet',
    'text:variable-get': 'SimpleVariableGet', 'text:variable-input': 'SimpleVariableInput',
    'text:user-field-decls': 'UserFields', 'text:user-field-decl': 'UserField', 'text:user-field-get': 'UserFieldGet',
    'text:user-field-set': 'UserFieldSet', 'text:user-field-input': 'UserFieldInput',
    'style:style': 'Style', 'style:default-style': 'DefaultStyle', 'style:page-layout': 'PageLayout', 'style:font-face': 'FontFace',
    'office:text': 'TextBody', 'office:spreadsheet': 'SpreadsheetBody', 'office:drawing': 'DrawingBody',
    'office:presentation': 'PresentationBody', 'office:chart': 'ChartBody', 'office:image': 'ImageBody',
    'office:styles': 'OfficeStyles', 'office:automatic-styles': 'OfficeAutomaticStyles', 'office:master-styles': 'OfficeMasterStyles',
    'office:font-face-decls': 'OfficeFontFaceDecls',
}
BODIES = ('office:text', 'office:spreadsheet', 'office:drawing', 'office:presentation', 'office:chart', 'office:image')
# names that share their local part or prefix with a registered one
GENERIC = ['text:bookmark', 'table:p', 'draw:h', 'text:table', 'office:p', 'text:page', 'draw:a', 'svg:a', 'text:table-cell', 'table:s', 'style:list',
           'table:table-header-rows', 'draw:frame', 'text:list-style', 'style:text', 'x:p', 'x:table', 'table:table-cells', 'text:title', 'plain', 'p', 'Cell',
           'GenericWrapper', 'x:GenericWrapper', 'office:body', 'office:forms', 'text:sequence-decls', 'text:note', 'meta:keyword', 'dc:title']
MODULES = ['base', 'body', 'bytestreammanager', 'cells', 'cellspancontroller', 'compatibility', 'conf', 'const', 'content', 'document', 'drawingpage',
           'filemanager', 'manifest', 'meta', 'nodeorganizer', 'nodestructurechecker', 'observer', 'pages', 'presentationpage', 'protection',
           'sheets', 'styles', 'table', 'tableutils', 'text', 'timeparser', 'variables', 'whitespaces', 'wrapcache', 'xmlns']


def strategy(profile):
    from hypothesis import strategies as st
    import docs
    import gen
    s = docs.strategies()
    start = st.sampled_from(list('abcpsATXYZ_') + ['\xe4', '\u03b1', '\u4e00'])
    rest = st.text(st.sampled_from(list('abcpt019-._') + ['\xe9', '\xb7']), max_size=6)
    local = st.one_of(st.sampled_from([n.split(':')[1] for n in CLASSES if ':' in n] + PREFIXES), st.tuples(start, rest).map(''.join))
    prefix = st.sampled_from(PREFIXES)
    name = st.one_of(
        st.tuples(st.just('ok'), prefix, local), st.tuples(st.just('ok'), st.sampled_from(['text', 'table', 'office']), local), st.tuples(st.just('unknown'), st.sampled_from(UNKNOWN_PREFIXES), local),
        st.tuples(st.just('clark'), st.one_of(prefix.map(NAMESPACES.get), st.sampled_from(['urn:x', 'a', 'text', 'http://x/y:z'])), local),
        st.tuples(st.just('bad'), prefix, local, st.sampled_from(['nocolon', 'two', 'twoend', 'doubled', 'nolocal', 'noprefix', 'empty', 'colon', 'colons', 'prefixonly', 'three', 'swap', 'brace', 'rbrace', 'braces']))).map(list)
    names = st.fixed_dictionaries({'kind': st.just('names'), 'names': st.lists(name, min_size=2, max_size=12), 'order': st.lists(st.integers(0, 11), max_size=24)})
    tag = st.one_of(st.sampled_from(sorted(CLASSES)), st.sampled_from(sorted(CLASSES)), st.sampled_from(GENERIC))
    misc = st.sampled_from([['#comment', {}, 'c', [], None], ['#pi', {'target': 'p'}, 'x', [], None], ['#comment', {}, '', [], 'tail']])

    def tree(kids):
        return st.builds(E, tag.filter(lambda t: t != 'table:table'), s.attrs, s.xmltext, st.lists(kids, max_size=4), s.xmltext)
    table = st.tuples(st.integers(1, 3), st.integers(1, 3), s.para).map(lambda t: E('table:table', {'table:name': 'T'}, None, [E('table:table-column') for _ in range(t[1])] + [
        E('table:table-row', {}, None, [E('table:table-cell', {}, None, [t[2][:4] + [None]]) for _ in range(t[1])]) for _ in range(t[0])]))
    leaf = gen.choice((6, st.builds(E, tag.filter(lambda t: t != 'table:table'), s.attrs, s.xmltext, st.just([]), s.xmltext)), (1, misc), (1, table))
    data = tree(gen.choice((2, leaf), (2, tree(gen.choice((3, leaf), (1, tree(leaf)))))))
    wrapping = st.fixed_dictionaries({'kind': st.just('wrap'), 'tree': data, 'ops': st.lists(st.tuples(
        st.sampled_from(['wrap', 'wrap', 'cached', 'cached', 'child', 'iter', 'find', 'findall', 'drop', 'fake', 'rewrap', 'uncache']), st.integers(0, 30)).map(list), min_size=3, max_size=14)})
    new = st.fixed_dictionaries({'kind': st.just('new'), 'objects': st.lists(st.tuples(st.sampled_from(sorted(FRESH)), gen.nonempty(5), st.integers(1, 3), st.integers(0, 3)).map(list), min_size=1, max_size=6)})
    fresh = st.fixed_dictionaries({'kind': st.just('fresh'), 'modules': st.lists(st.sampled_from(MODULES), max_size=4, unique=True), 'names': st.lists(name, max_size=6), 'tags': st.lists(tag, min_size=1, max_size=8)})
    return gen.choice((24, names), (24, wrapping), (11, new), (1, fresh))


# class name -> (module, list of argument makers)
FRESH = {
    'Span': ('text', 't'), 'Paragraph': ('text', 't'), 'Heading': ('text', 'tn'), 'Hyperlink': ('text', 'tt'), 'Section': ('text', 'tt'), 'List': ('text', 't'),
    'ListItem': ('text', 't'), 'ListHeader': ('text', 't'), 'NumberedParagraph': ('text', ''), 'Tabulator': ('whitespaces', ''), 'LineBreak': ('whitespaces', ''),
    'Spaces': ('whitespaces', 'n'), 'SoftPageBreak': ('whitespaces', ''), 'Table': ('table', ''), 'TableRow': ('table', 'n'), 'TableColumn': ('table', ''),
    'Cell': ('cells', 't'), 'CoveredCell': ('cells', ''), 'DrawingPage': ('drawingpage', 'T'), 'SimpleVariables': ('variables', ''), 'UserFields': ('variables', ''),
    'SimpleVariableSet': ('variables', ''), 'SimpleVariableGet': ('variables', ''), 'SimpleVariableInput': ('variables', ''), 'UserFieldGet': ('variables', ''),
    'UserFieldSet': ('variables', ''), 'UserFieldInput': ('variables', ''), 'TextBody': ('body', ''), 'SpreadsheetBody': ('body', ''), 'DrawingBody': ('body', ''),
    'PresentationBody': ('body', ''), 'ChartBody': ('body', ''), 'ImageBody': ('body', ''),
}
TAG_OF = dict((c, t) for t, c in CLASSES.items())


def spell(n):
    """(text, expected name or None)"""
    kind, p, local = n[:3]
    if kind == 'ok':
        return '%s:%s' % (p, local), '{%s}%s' % (NAMESPACES[p], local)
    if kind == 'unknown':
        return '%s:%s' % (p, local), '{text:' + local if p == '{text' else None
    if kind == 'clark':
        s = '{%s}%s' % (p, local)
        return s, s
    bad = {'nocolon': p + local, 'two': '%s:%s:x' % (p, local), 'twoend': '%s:%s:' % (p, local), 'doubled': '%s::%s' % (p, local), 'nolocal': p + ':',
           'noprefix': ':' + local, 'empty': '', 'colon': ':', 'colons': '::', 'prefixonly': p, 'three': '%s:%s:%s:%s' % (p, p, p, local), 'swap': '%s:%s' % (local, p),
           'brace': p + '{' + local, 'rbrace': p + '}' + local, 'braces': 'a{' + p + '}' + local}[n[3]]
    if n[3] == 'swap':
        return bad, '{%s}%s' % (NAMESPACES[local], p) if local in NAMESPACES else None
    return bad, None


def run_names(names, order, CN, ctx):
    seen, rejected, repeated = set(), 0, 0
    for i in list(range(len(names))) + [j % len(names) for j in order]:
        text, want = spell(names[i])
        if text[:1] == '{' and want is not None and '}' not in text:
            continue
        ctx.step()
        repeated += text in seen
        seen.add(text)
        if want is None:
            raises((KeyError, ValueError, IndexError), CN, text)
            rejected += 1
        else:
            got = CN(text)
            same(got, want, 'qualified name of %r' % text)
            same(CN(got), want, 'qualified name of a qualified name')
            if names[i][0] == 'ok':
                same(etree.QName(got).localname, names[i][2], 'local name')
    return rejected and repeated


def expected_class(node):
    if node.tag is etree.Comment or node.tag is etree.ProcessingInstruction:
        return None
    return CLASSES.get(unq(node.tag), 'GenericWrapper')


def check_wrapped(obj, node, what):
    check(obj.xmlnode is node, '%s: the object is around another element', what)
    name = expected_class(node)
    if name is not None:
        same(type(obj).__name__, name, '%s of %s' % (what, unq(node.tag)))
        if name != 'GenericWrapper':
            same(obj.TAG, node.tag, 'element name of the class')


def run_wrap(case, ctx):
    from ezodf import wrapcache
    from ezodf.xmlns import fake_element, wrap
    root = build(case['tree'])
    # declarations are present, so that bodies have nothing to add
    for body in [e for e in root.iter() if unq(e.tag) in BODIES]:
        body[:0] = [build(E(t)) for t in ('text:variable-decls', 'text:user-field-decls') if body.find(Q(t)) is None]
    nodes = list(root.iter())
    before = canon(root)
    held, wrapped, cached = [], 0, {}
    for k, i in case['ops']:
        ctx.step()
        node = nodes[i % len(nodes)]
        what = k
        if k not in ('cached', 'uncache', 'drop', 'fake') and unq(node.tag) == 'table:table':
            cached.pop(node, None)   # a new wrapper of a table takes the place of the known one
        if k == 'wrap':
            obj = wrap(node)
            check_wrapped(obj, node, what)
            held.append(obj)
        elif k == 'rewrap':
            a, b = wrap(node), wrap(node)
            check(type(a) is type(b) and a.xmlnode is b.xmlnode is node, 'wrapping twice')
        elif k == 'cached':
            obj = wrapcache.wrap(node)
            check_wrapped(obj, node, what)
            if node in cached:
                check(cached[node] is obj, 'the cache gave another object for the same element')
            cached[node] = obj
        elif k == 'uncache':
            if node in cached:
                wrapcache.remove(cached.pop(node))
        elif k in ('child', 'iter', 'find', 'findall'):
            p = wrap(node)
            if not hasattr(p, 'get_child') or type(p).__name__ == 'Table':
                continue
            kids = list(node)
            if k == 'child':
                for j, e in enumerate(kids):
                    check_wrapped(p.get_child(j), e, what)
                    if 'Variables' not in type(p).__name__ and 'UserFields' != type(p).__name__:
                        check_wrapped(p[j], e, what)
            elif k == 'iter':
                objs = list(p)
                same(len(objs), len(kids), 'number of children')
                for o, e in zip(objs, kids):
                    check_wrapped(o, e, what)
            else:
                for e in kids:
                    if isinstance(e.tag, str):
                        same_tag = [x for x in kids if x.tag == e.tag]
                        if k == 'find':
                            check_wrapped(p.find(e.tag), same_tag[0], what)
                        else:
                            found = list(p.findall(e.tag))
                            same(len(found), len(same_tag), 'number of found children')
                            for o, x in zip(found, same_tag):
                                check_wrapped(o, x, what)
                check(p.find(Q('x:nothing')) is None and not list(p.findall(Q('x:nothing'))), 'find() found what is not there')
        elif k == 'fake':
            if not isinstance(node.tag, str):
                continue
            data = odf.data_of(node)
            text = fake_text(node)
            if text is None:
                continue
            obj = fake_element(text)
            same(obj.xmlnode.tag, node.tag, 'element made from text')
            same(type(obj).__name__, expected_class(node), 'class of the element made from text')
            odf.require_same(canon(obj.xmlnode), canon(node), 'element made from text')
        elif k == 'drop':
            del held[:]
            cached.clear()
            wrapcache.clear()
            gc.collect(0)
            # elements that come and go
            for _ in range(5):
                e = build(E('text:p'))
                check_wrapped(wrapcache.wrap(e), e, 'short-lived element')
        wrapped += 1
        odf.require_same(canon(root), before, 'after %s of %s' % (k, unq(node.tag)))
    check(all(a is b for a, b in zip(root.iter(), nodes)), 'elements were replaced')
    ctx.nontrivial(wrapped >= 3 and len(nodes) >= 3)


def fake_text(node):
    """the element as text with the prefixes of the tables; None if it uses other namespaces"""
    uris = dict((u, p) for p, u in NAMESPACES.items())
    for e in node.iter():
        if not isinstance(e.tag, str):
            continue
        for name in [e.tag] + list(e.attrib):
            q = etree.QName(name)
            if q.namespace is not None and q.namespace not in uris and q.namespace != 'http://www.w3.org/XML/1998/namespace':
                return None
    import copy
    import re
    c = copy.deepcopy(node)
    c.tail = None
    wrapper = etree.Element('w', nsmap=NAMESPACES)
    wrapper.append(c)
    etree.cleanup_namespaces(wrapper, top_nsmap=NAMESPACES, keep_ns_prefixes=PREFIXES)
    text = etree.tostring(wrapper, encoding='unicode')
    return text[text.index('>') + 1:text.rindex('</w>')]


def run_new(case, ctx):
    import importlib
    from ezodf.xmlns import wrap
    for name, t, n, given in case['objects']:
        ctx.step()
        module, sig = FRESH[name]
        cls = getattr(importlib.import_module('ezodf.' + module), name)
        args = [t if c in 'tT' else n for c in sig]
        args = args[:len(args) if sig == 'T' else given]
        obj = cls(*args)
        same(obj.xmlnode.tag, Q(TAG_OF[name]), 'element name of a new %s' % name)
        same(obj.xmlnode.getparent(), None, 'parent of a new %s' % name)
        again = wrap(obj.xmlnode)
        check(type(again) is cls and again.xmlnode is obj.xmlnode, 'wrapping the element of a new %s gives %s', name, type(again))
        other = cls(*args)
        check(other.xmlnode is not obj.xmlnode, 'two new objects share an element')
        ctx.note('new ' + name)
    ctx.nontrivial()


SCRIPT = r'''
import importlib, json, sys
spec = json.loads(sys.argv[1])
sys.path.insert(0, spec['repo'])
for m in spec['modules']:
    importlib.import_module('ezodf.' + m)
import ezodf
from ezodf.xmlns import CN, etree, wrap
out = {'names': [], 'classes': []}
for n in spec['names']:
    try:
        out['names'].append(CN(n))
    except (KeyError, ValueError, IndexError):
        out['names'].append(None)
for t in spec['tags']:
    e = etree.Element(t)
    o = wrap(e)
    out['classes'].append([type(o).__name__, o.xmlnode is e])
print(json.dumps(out))
'''


def run_fresh(case, ctx):
    names = [spell(n) for n in case['names']]
    names = [x for x in names if not (x[0][:1] == '{' and '}' not in x[0])]
    names += names[:2]
    tags = [t for t in case['tags']]
    spec = {'repo': core.REPO, 'modules': case['modules'], 'names': [x[0] for x in names], 'tags': [Q(t) for t in tags]}
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')
    p = subprocess.run([sys.executable, '-B', '-W', 'ignore', '-c', SCRIPT, json.dumps(spec)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=ctx.tmpdir())
    same(p.returncode, 0, 'fresh interpreter: %s' % p.stderr.decode('utf-8', 'replace')[-400:])
    out = json.loads(p.stdout.decode('utf-8'))
    same(out['names'], [x[1] for x in names], 'names in a fresh interpreter')
    same(out['classes'], [[CLASSES.get(t, 'GenericWrapper'), True] for t in tags], 'classes in a fresh interpreter')
    ctx.note('fresh interpreters')
    ctx.nontrivial()


def run_case(case, ctx):
    k = case['kind']
    if k == 'names':
        import ezodf  # noqa: F401
        from ezodf.xmlns import CN
        ctx.nontrivial(run_names(case['names'], case['order'], CN, ctx))
    elif k == 'wrap':
        import ezodf  # noqa: F401
        run_wrap(case, ctx)
    elif k == 'new':
        run_new(case, ctx)
    else:
        run_fresh(case, ctx)
