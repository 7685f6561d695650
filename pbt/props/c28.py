"""C28: documents are independent of each other."""
import gc
import hashlib
import io
import os
import pickle
import random
import re
import struct
import sys

import docs
import odf
import tables
from core import HarnessError, Violation, check, same, short
from odf import canon_run as canon
from props import c27
from props.c27 import World, call, allowed, as_text

RULE = ('A case is two to four scripts - each opens or creates a document (text, spreadsheet, drawing, presentation, flat XML), '
        'configures the table expansion, accesses it, edits it through the public API, keeps iterators open, saves and '
        'discards it - and an interleaving of them. Every script is run alone in a freshly forked interpreter that has never '
        'seen a document; results, states and saved documents of the interleaved run must be the same, and no step of one '
        'script may change the state of another document. Non-trivial: two documents were edited and the scripts alternate at least '
        'three times.')
ASSUME = ['one thread', 'time stamps and protection keys are not compared', 'objects are not moved between the documents of different scripts']
BUDGET = {'quick': 1200, 'thorough': 12000}
TYPES = ['odt', 'ods', 'ods', 'ods', 'odp', 'odg', 'ots']
PRISTINE = None


def strategy(profile):
    from hypothesis import strategies as st
    import gen
    s = docs.strategies()
    t = tables.strategies()
    base = c27.strategy(profile)     # cases of C27 deliver documents and operations
    n = st.integers(0, 20)
    conf = st.sampled_from([None, None, ['all'], ['all_but_last'], ['all_less_maxcount', [3, 3]], ['all_less_maxcount', [2, 40]], ['all', [100, 100]], ['all_but_last', [50, 50]], ['all_less_maxcount'], ['bogus']])
    special = gen.choice((2, gen.op('!access', conf)), (2, gen.op('!save', st.sampled_from(['bytes', 'path', 'stream']))), (1, gen.op('!reopen')),
                         (1, gen.op('!hold', n)), (2, gen.op('!drain')), (1, gen.op('!style', st.one_of(st.sampled_from(['S', 'T']), gen.word(3)))), (1, gen.op('!register', gen.word(3), gen.word(3))), (2, gen.op('!setstyle', st.sampled_from(['S', 'T', 'T1', 'a']), gen.word(3))), (1, gen.op('!touchmeta', gen.word(3))), (2, gen.op('!setdate', st.sampled_from(['2999-12-31T23:59:59', '9999', 'later', '1066-10-14', '0']))),
                         (1, gen.op('!appendtext', gen.text(6))), (1, gen.op('!conf', conf)), (1, gen.op('!backup', st.booleans())))
    rep = st.builds(lambda tb, k: tables._table_data(dict(tb, attrs={'table:name': 'R%d' % k})), t.table(big=False), n)

    def script(c):
        ops = st.lists(st.one_of(special, st.sampled_from(range(len(c['ops']))).map(lambda i: c['ops'][i])), min_size=1, max_size=10)
        return st.fixed_dictionaries({
            'doc': st.just(c['doc']), 'occ': st.just(c['occ']), 'kit': st.just(c['kit']), 'new': st.sampled_from([False, False, False, 'template', True, 'flat']),
            'route': st.sampled_from(['bytes', 'stream', 'path']), 'tables': st.lists(rep, max_size=2),
            'ops': st.tuples(ops, st.lists(st.sampled_from(range(len(c['ops']))).map(lambda i: c['ops'][i]), max_size=5)).map(lambda p: p[0] + p[1])})
    one = base.flatmap(script)
    return st.fixed_dictionaries({'alike': st.booleans(), 'scripts': st.lists(one, min_size=2, max_size=4 if profile['big'] else 3),
                                  'order': st.lists(st.integers(0, 3), min_size=4, max_size=40)})


class Doc(World):
    """one document; only accessed when the script says so"""
    def __init__(self, script, folder, k):
        import ezodf
        from ezodf.document import FlatXMLDocument
        self.folder, self.k, self.pending = folder, k, []
        t = script['doc']['type']
        if script['new'] == 'flat':
            self.doc = FlatXMLDocument('ods' if t in ('ods', 'ots') else t if t in ('odt', 'odp', 'odg') else 'odt')
        elif script['new'] is True:
            self.doc = ezodf.newdoc(t)
        else:
            d = script
            if t in ('ods', 'ots'):
                body = script['doc']['body']
                at = len(body)
                while at and body[at - 1][0] in docs.EPILOGUE:
                    at -= 1
                d = dict(script, doc=dict(script['doc'], body=body[:at] + script['tables'] + body[at:]))
            blob = c27.case_blob(d)
            source = blob if script['route'] == 'bytes' else io.BytesIO(blob) if script['route'] == 'stream' else self.shared(blob)
            if script['new']:
                self.doc = ezodf.newdoc(t, os.path.join(folder, 'new%d' % k), source)
            else:
                self.doc = ezodf.opendoc(source)
        self.stock = {'text': ezodf.newdoc('odt'), 'sheet': ezodf.newdoc('ods')}
        self.stock['text'].body.append(ezodf.Paragraph('stock'))
        self.stock['sheet'].sheets.append(ezodf.Sheet('stock', size=(2, 2)))
        self.kit = script['kit']
        self.accessed = False

    def shared(self, blob):
        # scripts with the same source use the same file
        path = os.path.join(os.path.dirname(self.folder), 'in-%s' % hashlib.sha1(blob).hexdigest())
        if not os.path.exists(path):
            with open(path, 'wb') as f:
                f.write(blob)
        return path

    def look(self):
        nodes = self.nodes()
        if not self.accessed:
            self.accessed = True
            if self.kit:
                self.add_kit()
                nodes = self.nodes()
        return nodes

    def flat(self):
        return not hasattr(self.doc, 'filemanager')

    def target(self, t, nodes):
        if t[0] == 'styles' and self.flat():
            return getattr(self.doc, t[1])
        return super(Doc, self).target(t, nodes)

    def styles(self):
        from ezodf.xmlns import wrap
        node = self.doc.styles.xmlnode if self.flat() else self.doc.styles.styles.xmlnode
        return [w for w in (wrap(e) for e in node if isinstance(e.tag, str)) if hasattr(w, 'ATTRIBUTEMAP')]

    def mimestate(self):
        return [self.doc.doctype, self.doc.mimetype, self.doc.docname and os.path.basename(self.doc.docname), self.doc.backup]

    def step(self, op, n):
        """-> comparable outcome"""
        import ezodf
        from ezodf.conf import config
        k = op[0]
        if k == '!access':
            if op[1] is not None:
                config.set_table_expand_strategy(op[1][0], *[tuple(x) for x in op[1][1:]])
            try:
                self.look()
                r = 'accessed'
            except TypeError as e:
                r = 'TypeError %s' % e
            config.reset_table_expand_strategy()
            return [r, [(x.nrows(), x.ncols()) for x in getattr(self, 'tables', ())]]
        if k == '!conf':      # set and reset without access: no effect
            if op[1] is not None:
                config.set_table_expand_strategy(op[1][0], *[tuple(x) for x in op[1][1:]])
            config.reset_table_expand_strategy()
            return [config.table_expand_strategy.get_strategy(), config.table_expand_strategy.get_maxcount()]
        if k == '!save':
            return self.saved(op[1])
        if k == '!reopen':
            if self.flat():
                return 'flat'
            self.doc = ezodf.opendoc(self.doc.tobytes())
            return self.mimestate()
        if k == '!hold':
            ns = self.look()
            its = [iter(self.doc.body), self.doc.body.findall('.//*'), iter(self.doc.meta.usertags), iter(self.doc.meta.keywords)]
            its += [x.itercells() for x in self.tables[:1]] + [x.rows() for x in self.tables[:1]]
            self.pending.append(iter(its[op[1] % len(its)]))
            return short_result(next(self.pending[-1], None))
        if k == '!drain':
            return [short_result(x) for it in self.pending for x in it] if not self.pending or not self.pending.clear() else None
        if k == '!backup':
            self.doc.backup = op[1]
            return self.doc.backup
        if k == '!register':
            if self.flat():
                return 'flat'
            self.doc.filemanager.register('Pictures/' + re.sub('[^a-z]', '', op[1]), op[2].encode('utf-8'), 'image/png')
            return sorted(self.doc.filemanager.directory)
        if k == '!style':
            self.doc.inject_style('<style:style style:name="%s"/>' % re.sub('[<>&"]', '', op[1]))
            return None
        if k == '!setstyle':
            try:
                style = (self.doc.styles if self.flat() else self.doc.styles.styles)[op[1]]
            except KeyError:
                return 'no style'
            had = style.xmlnode.get(odf.Q('style:display-name'))
            style.xmlnode.set(odf.Q('style:display-name'), op[2])
            return [had, canon(style.xmlnode)]
        if k == '!touchmeta':
            self.doc.meta['title'] = op[1]
            self.doc.meta.usertags['x'] = op[1]
            return [self.doc.meta['title'], list(self.doc.meta.usertags)]
        if k == '!setdate':
            had = self.metaget('date')
            self.doc.meta['date'] = op[1]
            return [mask(had.encode()) if had else None, self.doc.meta['date']]
        if k == '!appendtext':
            p = ezodf.Paragraph(op[1])
            return [p.plaintext(), canon(p.xmlnode), canon(ezodf.Heading(op[1]).xmlnode)]
        t, method, args = op
        try:
            nodes = self.look()
        except TypeError as e:
            return 'TypeError %s' % e
        target = self.target(t, nodes)
        if target is None:
            return 'no target'
        try:
            xs = self.args(t, method, args, nodes)
        except Exception as e:
            return 'argument: %s' % type(e).__name__
        if not allowed(target, method, xs):
            return 'excluded'
        r = call(target, method, xs, n)
        return [r[0], re.sub('0x[0-9a-f]+', '0x', r[1]) if r[0] == 'raised' else r[1]]

    def metaget(self, key):
        try:
            return self.doc.meta[key]
        except KeyError:
            return ''

    def saved(self, how):
        import datetime
        t0 = datetime.datetime.now().isoformat()
        cycles = self.metaget('editing-cycles')
        parts = self.members(how)
        date = self.metaget('date')
        if how == 'bytes' and not self.flat():     # an export is not dated
            date = None
        else:       # (the clock may be read with seconds only)
            date = t0[:19] <= date <= datetime.datetime.now().isoformat() if len(date) >= 19 else date
        return [parts, date,
                cycles, self.metaget('editing-cycles')]

    def members(self, how):
        if self.flat():
            path = os.path.join(self.folder, 'flat%d.xml' % self.k)
            self.doc.saveas(path)
            with open(path, 'rb') as f:
                return [mask(f.read())]
        if how == 'bytes':
            blob = self.doc.tobytes()
        elif how == 'stream':
            name, s = self.doc.docname, io.BytesIO()
            self.doc.saveas(s)
            self.doc.docname = name
            blob = s.getvalue()
        else:
            path = os.path.join(self.folder, 'out%d' % self.k)
            self.doc.saveas(path)
            with open(path, 'rb') as f:
                blob = f.read()
        return sorted((m, mask(d)) for m, d in odf.Package(blob).members.items())

    def snapshot(self):
        return [undate(canon(self.doc.body.get_xmlroot())), undate(canon(self.doc.meta.xmlnode)),
                canon(c27.root(self.doc.styles.styles.xmlnode)) if not self.flat() else None, self.mimestate()]


DATED = (odf.Q('dc:date'), odf.Q('meta:creation-date'))


def undate(c):
    if c[0] in DATED:
        return c[:2] + ('DATE',) + c[3:]
    if isinstance(c[0], str) and c[0][0] != '#' and c[3]:
        return c[:3] + (tuple(undate(x) for x in c[3]),) + c[4:]
    return c


def mask(data):
    data = re.sub(rb'protection-key="[^"]*"', b'protection-key=""', data)
    return re.sub(rb'\d{4}-\d\d-\d\dT\d\d:\d\d:\d\d(\.\d+)?', b'DATE', data)


def short_result(r):
    if r is None:
        return None
    return c27.comparable(r)


def final(d):
    out = [d.snapshot()]
    try:
        d.look()
        out.append(d.observe())
    except TypeError as e:
        out.append('TypeError %s' % e)
    out.append(d.saved('bytes'))
    return out


def run_alone(script, folder, k):
    trace = []
    d = Doc(script, folder, k)
    trace.append(d.snapshot())
    for n, op in enumerate(script['ops']):
        trace.append((d.step(op, n), d.snapshot()))
    trace.append(final(d))
    return trace


# ------------------------------------------------------------ the interpreter that has seen no document

class Pristine(object):
    """a process forked before the first document exists; it forks a child for every script"""
    def __init__(self):
        self.rd, wr = os.pipe()
        rd, self.wr = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(self.rd), os.close(self.wr)
                self.serve(rd, wr)
            finally:
                os._exit(0)
        os.close(rd), os.close(wr)

    @staticmethod
    def send(fd, obj):
        data = pickle.dumps(obj, protocol=4)
        data = struct.pack('<Q', len(data)) + data
        while data:
            data = data[os.write(fd, data):]

    @staticmethod
    def receive(fd):
        def read(n):
            out = b''
            while len(out) < n:
                part = os.read(fd, min(1 << 20, n - len(out)))
                if not part:
                    raise EOFError
                out += part
            return out
        return pickle.loads(read(struct.unpack('<Q', read(8))[0]))

    def serve(self, rd, wr):
        import signal
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, signal.SIG_DFL)
        sys.stdin.close()
        while True:
            try:
                job = self.receive(rd)
            except EOFError:
                return
            pid = os.fork()
            if pid == 0:
                try:
                    signal.setitimer(signal.ITIMER_PROF, 60)
                    try:
                        answer = ('ok', run_alone(*job))
                    except Exception as e:
                        import traceback
                        answer = ('error', '%s: %s %s' % (type(e).__name__, e, traceback.format_exc()[-800:]))
                    self.send(wr, answer)
                finally:
                    os._exit(0)
            _, status = os.waitpid(pid, 0)
            if status:
                self.send(wr, ('error', 'the script ended with status %d' % status))

    def run(self, *job):
        self.send(self.wr, job)
        return self.receive(self.rd)


def pristine():
    global PRISTINE
    if PRISTINE is None or PRISTINE[0] != os.getpid():
        PRISTINE = (os.getpid(), Pristine())
    return PRISTINE[1]


def explain(x, y):
    if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == 5 and len(y) == 5 and isinstance(x[0], str):
        return odf.first_difference(x, y)
    if isinstance(x, (list, tuple)) and isinstance(y, (list, tuple)):
        for p, q in zip(x, y):
            if p != q:
                return explain(p, q)
    return '%s instead of %s' % (short(x, 300), short(y, 300))


def run_case(case, ctx):
    zygote = pristine()
    folder = ctx.tmpdir()
    scripts = case['scripts']
    if case.get('alike'):      # the same document several times
        scripts = [dict(scripts[0], ops=s['ops']) for s in scripts]
    dirs = []
    for k in range(len(scripts)):
        for kind in 'ai':
            os.makedirs(os.path.join(folder, '%s%d' % (kind, k)))
        dirs.append(os.path.join(folder, 'i%d' % k))
    traces = []
    for k, s in enumerate(scripts):
        kind, trace = zygote.run(s, os.path.join(folder, 'a%d' % k), k)
        if kind != 'ok':
            raise Violation('a script run alone failed: %s' % trace)
        traces.append(trace)
    live, pos, snaps = {}, [0] * len(scripts), {}
    order = list(case['order']) + [k for k in range(len(scripts)) for _ in range(len(scripts[k]['ops']) + 2)]
    switches, last, edited = 0, None, set()

    def others(k, what):
        for j, d in live.items():
            if j != k and snaps[j] != d.snapshot():
                raise Violation('%s of document #%d changed document #%d: %s' % (what, k, j, explain(d.snapshot(), snaps[j])))

    for o in order:
        k = o % len(scripts)
        script, n = scripts[k], pos[k]
        if n > len(script['ops']) + 1:
            continue
        ctx.step()
        pos[k] += 1
        if k != last:
            switches += last is not None
            last = k
        if n == 0:
            live[k] = Doc(script, dirs[k], k)
            snaps[k] = live[k].snapshot()
            if snaps[k] != traces[k][0]:
                raise Violation('document #%d is another one when opened after others: %s' % (k, explain(snaps[k], traces[k][0])))
            others(k, 'opening')
        elif n <= len(script['ops']):
            op = script['ops'][n - 1]
            got = (live[k].step(op, n - 1), live[k].snapshot())
            if got != tuple(traces[k][n]):
                raise Violation('step %d (%s) of script #%d has another result between steps of other scripts: %s' % (
                    n, short(op, 200), k, explain(got, traces[k][n])))
            if got[1] != snaps[k]:
                edited.add(k)
            snaps[k] = got[1]
            others(k, 'step %d (%s)' % (n, short(op, 200)))
            ctx.note('step %s' % (op[0] if isinstance(op[0], str) else op[1]))
        else:
            got = final(live[k])
            if got != traces[k][-1]:
                raise Violation('the final state of document #%d differs: %s' % (k, explain(got, traces[k][-1])))
            # discarded
            del live[k], snaps[k]
            gc.collect(0)
            others(k, 'discarding')
    for a, b in [(os.path.join(folder, 'a%d' % k), dirs[k]) for k in range(len(scripts))]:
        same(sorted(os.listdir(b)), sorted(os.listdir(a)), 'files written')
    for name in os.listdir(folder):
        if name.startswith('in-'):
            with open(os.path.join(folder, name), 'rb') as f:
                same(hashlib.sha1(f.read()).hexdigest(), name[3:], 'content of a source file')
    ctx.nontrivial(len(edited) >= 2 and switches >= 3)
