"""C08: meta data behaves like the documented dictionaries and sets."""
import copy
import datetime
import io
import os

import docs
import odf
from core import Violation, check, raises, same
from odf import E, MIME, Q, etree, unq

RULE = ('A case is a document (new, packaged or flat, with generated meta data) and a history of operations on simple '
        'tags, keywords, user tags and statistics with saves and reopening; after every step the complete meta data '
        'are compared with the model; non-trivial: at least four changes of at least two kinds.')
ASSUME = ['an empty text and no text are the same after reload', 'the empty string is not a keyword',
          'XML-illegal characters are excluded']
BUDGET = {'quick': 36000, 'thorough': 300000}
SIMPLE = {'generator': 'meta:generator', 'title': 'dc:title', 'description': 'dc:description', 'subject': 'dc:subject',
          'initial-creator': 'meta:initial-creator', 'creator': 'dc:creator', 'creation-date': 'meta:creation-date',
          'date': 'dc:date', 'editing-cycles': 'meta:editing-cycles', 'language': 'dc:language'}
COUNTS = ['page', 'table', 'draw', 'image', 'object', 'ole-object', 'paragraph', 'word', 'character', 'row', 'frame',
          'sentence', 'syllable', 'non-whitespace-character', 'cell']
TYPES = ['float', 'date', 'time', 'boolean', 'string']


def strategy(profile):
    from hypothesis import strategies as st
    import gen
    s = docs.strategies()
    key = st.sampled_from(sorted(SIMPLE))
    badkey = st.one_of(st.sampled_from(['Title', 'dc:title', 'keyword', 'keywords', 'printed-by', '', 'user-defined',
                                        'document-statistic', 'editing-duration', 'meta', 'count', 'page']), gen.word(5))
    count = st.sampled_from(COUNTS)
    badcount = st.one_of(st.sampled_from(['pages', 'page-count', 'meta:page', '', 'Page', 'char', 'keyword', 'title', 'col']),
                         gen.word(4))
    word = st.one_of(st.sampled_from(['a', 'b', 'A', 'a ', ' ', "it's", 'x"y', '<&>', '0']), gen.nonempty(6))
    name = st.one_of(st.sampled_from(['a', 'b', 'A', 'mytag', "it's", 'x"y', '']), gen.text(5))
    value = st.one_of(gen.text(8), gen.word(5), st.integers(-9, 99), st.sampled_from([1.5, True, False, 0, 10 ** 20]))
    typ = st.one_of(st.none(), st.sampled_from(TYPES))
    num = st.one_of(st.integers(0, 99), st.sampled_from([0, 10 ** 12, -1, 2 ** 31, 2 ** 53 + 1, 2 ** 63 + 1, 10 ** 25 + 7]))
    cycles = st.sampled_from(['0', '1', '9', '10', '99', '1000', '', 'x', '-1', ' 4 ', '3.5'])
    op = gen.choice(
        (5, gen.op('tag', key, st.one_of(gen.text(8), gen.word(6)))), (1, gen.op('badtag', badkey)),
        (4, gen.op('kwadd', word)), (2, gen.op('kwdel', word)), (1, gen.op('kwclear')), (1, gen.op('own', st.sampled_from(['kwdel', 'utdel', 'ut', 'utset']), st.integers(0, 9), value, typ)), (1, gen.op('kwhas', word)),
        (4, gen.op('ut', name, value, typ)), (2, gen.op('utset', name, value)), (2, gen.op('utdel', name)),
        (1, gen.op('utupdate', st.lists(st.tuples(name, value).map(list), max_size=3, unique_by=lambda p: p[0]))),
        (1, gen.op('utclear')), (1, gen.op('utmiss', name)),
        (3, gen.op('count', count, num)), (1, gen.op('countupdate', st.lists(st.tuples(count, num).map(list), max_size=3,
                                                                            unique_by=lambda p: p[0]))),
        (1, gen.op('countclear')), (1, gen.op('badcount', badcount)), (1, gen.op('clear')), (1, gen.op('touch')),
        (1, gen.op('cycles', cycles)), (3, gen.op('save', st.sampled_from(['save', 'saveas', 'stream', 'bytes']))),
        (2, gen.op('reopen')))
    src = st.one_of(st.none(), st.fixed_dictionaries({'meta': s.meta.map(lambda m: [
        e for e in m if e[0] != 'meta:keyword' or e[2]]), 'flat': st.booleans(),
        # keywords and tags which other producers wrote several times
        'twice': st.one_of(st.just([]), st.lists(st.tuples(st.integers(0, 9), st.integers(0, 9), word).map(list), max_size=3))}))
    return st.fixed_dictionaries({'type': st.sampled_from(['odt', 'ods', 'odp', 'otg']), 'src': src,
                                  'ops': st.lists(op, min_size=3, max_size=30 if profile['big'] else 14)})


class Model(object):
    def __init__(self, meta):
        """meta: element with the children of office:meta (independent of the library)"""
        self.tags = {}
        for key, tag in SIMPLE.items():
            e = meta.find(Q(tag))
            if e is not None:
                self.tags[key] = e.text
        self.keywords = [e.text for e in meta.findall(Q('meta:keyword'))]
        self.user = [[e.get(Q('meta:name')), e.text, e.get(Q('meta:value-type'), 'string')]
                     for e in meta.findall(Q('meta:user-defined'))]
        self.counts = {}
        e = meta.find(Q('meta:document-statistic'))
        for name in COUNTS if e is not None else ():
            v = e.get(Q('meta:%s-count' % name))
            if v is not None:
                self.counts[name] = int(v)
        self.others = [odf.canon(c) for c in meta if isinstance(c.tag, str) and unq(c.tag) not in KNOWN]

    def reload(self):
        self.tags = {k: v or None for k, v in self.tags.items()}
        self.user = [[n, v or None, t] for n, v, t in self.user]

    def find(self, name):
        for row in self.user:
            if row[0] == name:
                return row
        return None

    def set_user(self, name, value, typ):
        row = self.find(name)
        if row is None:
            self.user.append([name, str(value), typ or 'string'])
        else:
            row[1:] = [str(value), typ or 'string']
            # a dictionary: nothing else is found under this name
            self.user = [r for r in self.user if r is row or r[0] != name]


KNOWN = set(SIMPLE.values()) | set(['meta:keyword', 'meta:user-defined', 'meta:document-statistic'])


def observe(meta, m, what):
    for key in SIMPLE:
        if key in m.tags:
            same(meta[key], m.tags[key], '%s: tag %s' % (what, key))
        else:
            raises(KeyError, lambda: meta[key])
    same(list(meta.keywords), m.keywords, what + ': keywords')
    for k in m.keywords:
        check(k in meta.keywords, '%s: keyword %s is not contained', what, k)
    same(list(meta.usertags), [(n, v) for n, v, t in m.user], what + ': user tags')
    for n, v, t in m.user:
        check(n in meta.usertags, '%s: user tag %s is not contained', what, n)
        if m.find(n) == [n, v, t]:
            same(meta.usertags[n], v, '%s: user tag %r' % (what, n))
            same(meta.usertags.typeof(n), t, '%s: type of user tag %r' % (what, n))
    for name in COUNTS:
        got = meta.count[name]
        same(got, m.counts.get(name, 0), '%s: count %s' % (what, name))
        check(type(got) is int, '%s: count %s is no integer', what, name)
    same(dict(meta.count), m.counts, what + ': statistics')
    same(len(list(meta.count)), len(m.counts), what + ': number of statistics')


def raw_meta(blob, flat):
    root = etree.fromstring(blob) if flat else odf.Package(blob).xml('meta.xml')
    box = root.findall(Q('office:meta'))
    same(len(box), 1, 'number of office:meta elements')
    return box[0]


def run_case(case, ctx):
    import ezodf
    folder = ctx.tmpdir()
    t = case['type']
    path = os.path.join(folder, 'doc.' + t)
    flat = False
    if case['src'] is None:
        doc = ezodf.newdoc(t, path)
        m = Model(etree.Element('none'))
        now = datetime.datetime.now().isoformat()
        for key in ('creation-date', 'date', 'generator'):
            m.tags[key] = doc.meta[key]
        check(m.tags['creation-date'] <= now and len(m.tags['creation-date']) >= 19, 'creation date %s', m.tags['creation-date'])
    else:
        flat = case['src']['flat']
        elements = list(case['src']['meta'])
        for i, at, text in case['src']['twice']:
            pool = [e for e in elements if e[0] in ('meta:keyword', 'meta:user-defined')]
            if pool:
                e = copy.deepcopy(pool[i % len(pool)])
                if e[0] == 'meta:user-defined':
                    e[2] = text
                elements.insert(at % (len(elements) + 1), e)
        src = {'type': t, 'body': [], 'before': [], 'styles': [], 'meta': elements, 'extra': [], 'manifest': []}
        if flat:
            blob = odf.serialise(E('office:document', {'office:mimetype': MIME[t]}, None, [
                E('office:meta', {}, None, src['meta']), E('office:body', {}, None, [E(odf.BODYTAG[t])])]))
        else:
            blob = docs.package(src)
        with open(path, 'wb') as f:
            f.write(blob)
        doc = ezodf.opendoc(path)
        m = Model(raw_meta(blob, flat))
    ctx.note('flat' if flat else 'packaged' if case['src'] else 'new')
    kinds = set()
    changes = 0
    held = (doc.meta, doc.meta.keywords, doc.meta.usertags, doc.meta.count)
    observe(doc.meta, m, 'at the start')
    for n, op in enumerate(case['ops']):
        ctx.step()
        k = op[0]
        meta = doc.meta
        if k == 'own':       # an entry that is there
            pool = m.keywords if op[1] == 'kwdel' else [r[0] for r in m.user if r[0] is not None]
            if not pool:
                continue
            op = [op[1], pool[op[2] % len(pool)]] + op[3:]
            k = op[0]
        if k == 'tag':
            meta[op[1]] = op[2]
            m.tags[op[1]] = op[2]
        elif k == 'badtag':
            if op[1] in SIMPLE:
                continue
            raises(KeyError, lambda: meta[op[1]])
            raises(KeyError, lambda: meta.__setitem__(op[1], 'x'))
        elif k == 'kwadd':
            meta.keywords.add(op[1])
            if op[1] not in m.keywords:
                m.keywords.append(op[1])
        elif k == 'kwdel':
            meta.keywords.remove(op[1])
            m.keywords = [w for w in m.keywords if w != op[1]]
            check(op[1] not in meta.keywords, 'the removed keyword %s is still there', op[1])
        elif k == 'kwclear':
            meta.keywords.clear()
            m.keywords = []
        elif k == 'kwhas':
            same(op[1] in meta.keywords, op[1] in m.keywords, 'membership of keyword %r' % op[1])
        elif k == 'ut':
            if n % 2 and op[3] is None:
                meta.usertags.set(op[1], op[2])
            else:
                meta.usertags.set(op[1], op[2], value_type=op[3])
            m.set_user(*op[1:])
        elif k == 'utset':
            meta.usertags[op[1]] = op[2]
            m.set_user(op[1], op[2], None)
        elif k == 'utdel':
            row = m.find(op[1])
            if row is None:
                raises(KeyError, lambda: meta.usertags.__delitem__(op[1]))
            else:
                del meta.usertags[op[1]]
                m.user = [r for r in m.user if r[0] != op[1]]
                check(op[1] not in meta.usertags, 'the deleted tag %s is still there', op[1])
        elif k == 'utupdate':
            meta.usertags.update(dict((a, b) for a, b in op[1]))
            for a, b in op[1]:
                m.set_user(a, b, None)
        elif k == 'utclear':
            meta.usertags.clear()
            m.user = []
        elif k == 'utmiss':
            if m.find(op[1]) is None:
                raises(KeyError, lambda: meta.usertags[op[1]])
                raises(KeyError, lambda: meta.usertags.typeof(op[1]))
                same(op[1] in meta.usertags, False, 'membership of user tag %r' % op[1])
        elif k == 'count':
            meta.count[op[1]] = op[2]
            m.counts[op[1]] = op[2]
        elif k == 'countupdate':
            meta.count.update(dict((a, b) for a, b in op[1]))
            m.counts.update(dict((a, b) for a, b in op[1]))
        elif k == 'countclear':
            meta.count.clear()
            m.counts = {}
        elif k == 'badcount':
            if op[1] in COUNTS:
                continue
            raises(KeyError, lambda: meta.count[op[1]])
            raises(KeyError, lambda: meta.count.__setitem__(op[1], 3))
        elif k == 'clear':
            meta.clear()
            m = Model(etree.Element('none'))
        elif k == 'touch':
            t0 = datetime.datetime.now().isoformat()
            meta.touch()
            fresh(meta, m, t0)
        elif k == 'cycles':
            meta['editing-cycles'] = op[1]
            m.tags['editing-cycles'] = op[1]
        elif k == 'save':
            how = 'saveas' if flat and op[1] == 'stream' else op[1]
            before = m.tags.get('editing-cycles')
            t0 = datetime.datetime.now().isoformat()
            if how == 'save':
                doc.save()
            elif how == 'saveas':
                path = os.path.join(folder, 'n%d' % n)
                doc.saveas(path)
            elif how == 'stream':
                stream, name = io.BytesIO(), doc.docname
                doc.saveas(stream)
                doc.docname = name
                blob = stream.getvalue()
            else:
                blob = doc.tobytes()
            if how != 'bytes':
                fresh(meta, m, t0)
                try:
                    count = int(before) + 1
                except (TypeError, ValueError):
                    count = 1
                m.tags['editing-cycles'] = str(count)
            if how in ('save', 'saveas'):
                with open(path, 'rb') as f:
                    blob = f.read()
            raw = raw_meta(blob, flat)
            written = Model(raw)
            want = Model(etree.Element('none'))
            want.__dict__.update({x: (dict(y) if isinstance(y, dict) else [r[:] if isinstance(r, list) else r for r in y])
                                  for x, y in m.__dict__.items()})
            want.reload()
            for x in ('tags', 'keywords', 'user', 'counts', 'others'):
                same(getattr(written, x), getattr(want, x), 'written %s' % x)
            for tag in SIMPLE.values():
                check(len(raw.findall(Q(tag))) <= 1, 'element %s was written more than once', tag)
            ctx.note('save ' + how)
        elif k == 'reopen':
            if not flat and n % 2:
                doc = ezodf.opendoc(doc.tobytes())
                doc.docname = path
            else:
                before = m.tags.get('editing-cycles')
                t0 = datetime.datetime.now().isoformat()
                doc.saveas(path)
                fresh(doc.meta, m, t0)
                try:
                    m.tags['editing-cycles'] = str(int(before) + 1)
                except (TypeError, ValueError):
                    m.tags['editing-cycles'] = '1'
                doc = ezodf.opendoc(path)
            m.reload()
            held = (doc.meta, doc.meta.keywords, doc.meta.usertags, doc.meta.count)
        if k not in ('badtag', 'kwhas', 'utmiss', 'badcount', 'save', 'reopen'):
            changes += 1
            kinds.add(k[:2])
        ctx.note('op ' + k)
        observe(doc.meta, m, 'after %r' % (op,))
        check(held[0] is doc.meta, 'the meta object was exchanged')
        same(list(held[1]), m.keywords, 'keywords by the object obtained before')
        same(list(held[2]), [(a, b) for a, b, c in m.user], 'user tags by the object obtained before')
        same(dict(held[3]), m.counts, 'statistics by the object obtained before')
    ctx.nontrivial(changes >= 4 and len(kinds) >= 2)


def fresh(meta, m, t0):
    """date and generator were set now"""
    from ezodf.const import GENERATOR
    t1 = datetime.datetime.now().isoformat()
    date = meta['date']
    check(t0[:19] <= date <= t1 and len(date) >= 19, 'modification date %s is not between %s and %s', date, t0, t1)
    datetime.datetime.strptime(date[:19], '%Y-%m-%dT%H:%M:%S')
    same(meta['generator'], GENERATOR, 'generator')
    m.tags['date'], m.tags['generator'] = date, GENERATOR
