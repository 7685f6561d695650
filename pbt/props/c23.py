"""C23: broadcasts reach exactly the subscribed listeners of the document."""
import gc
import os

import docs
import odf
from core import check, raises, same
from odf import E, Q, etree

RULE = ('A case is either a history of subscriptions, removals, destructions, root moves and broadcasts on own observers and the '
        'global one (listeners with and without root, handlers that subscribe and unsubscribe themselves or others during the '
        'broadcast), compared with a dictionary of sets after every broadcast; or several documents (packaged and flat) with '
        'listeners and a history of edits, saves and exports. Non-trivial: at least two broadcasts or saves reached a listener '
        'and at least one left a live listener out.')
ASSUME = ['handlers do not raise',
          'a listener subscribed for the first time while the broadcast is running may or may not get that broadcast',
          'objects dropped by everybody while the broadcast is running may still get it']
BUDGET = {'quick': 36000, 'thorough': 400000}
EVENTS = ['save', 'Big', 'prepare_saving', 'post_saving', 'a_b', 'big']
ROOTED = ('Root', 'Slots', 'Some', 'Equal', 'Unhashable')
TYPES = ('odt', 'ods', 'odp', 'odg')


def strategy(profile):
    from hypothesis import strategies as st
    import gen
    ev = st.integers(0, 3)
    li = st.integers(0, 6)
    root = st.integers(-1, 3)
    kinds = st.sampled_from(['root', 'root', 'root', 'noroot', 'none', 'failing', 'slots', 'some', 'equal', 'equal', 'unhashable'])
    action = st.one_of(gen.op('unsub', ev, li), gen.op('unsub', ev, li), gen.op('sub', ev, li), gen.op('cast', ev, root), gen.op('drop', li))
    msg = st.one_of(st.none(), st.integers(-1, 2), st.text(max_size=3), st.lists(st.integers(0, 1), max_size=1), st.booleans())
    op = gen.choice((3, gen.op('new', kinds, st.integers(0, 3), st.lists(action, max_size=2))), (7, gen.op('sub', ev, li)),
                    (3, gen.op('unsub', ev, li)), (2, gen.op('drop', li)), (2, gen.op('reroot', li, st.integers(0, 3))),
                    (6, gen.op('cast', ev, root, msg)), (1, gen.op('other', ev, li)), (1, gen.op('othercast', ev)), (1, gen.op('crowd', ev, st.sampled_from([3, 20, 40, 150]))))
    direct = st.fixed_dictionaries({'kind': st.just('observer'), 'which': st.sampled_from(['own', 'own', 'global']),
                                    'init': st.lists(st.tuples(kinds, st.integers(0, 3), st.lists(action, max_size=2), st.lists(ev, max_size=3)).map(list), min_size=1, max_size=6),
                                    'ops': st.lists(op, min_size=6, max_size=40 if profile['big'] else 22)})
    di = st.integers(0, 2)
    dop = gen.choice((4, gen.op('sub', di, st.sampled_from(['prepare_saving', 'post_saving', 'both', 'both']), st.sampled_from(['body', 'node', 'child', 'free']), st.booleans())),
                     (1, gen.op('unsub', li, st.sampled_from(['prepare_saving', 'post_saving']))), (1, gen.op('drop', li)),
                     (4, gen.op('save', di, st.sampled_from(['save', 'saveas', 'saveas']), st.booleans(), st.booleans())), (1, gen.op('tobytes', di)), (2, gen.op('edit', di)),
                     (1, gen.op('fail', di)), (1, gen.op('reopen', di)))
    saving = st.fixed_dictionaries({'kind': st.just('saving'), 'types': st.lists(st.tuples(st.sampled_from(TYPES), st.sampled_from(['new', 'package', 'flat'])).map(list), min_size=1, max_size=3),
                                    'ops': st.lists(dop, min_size=4, max_size=14)})
    return gen.choice((3, direct), (1, saving))


def run_case(case, ctx):
    (run_observer if case['kind'] == 'observer' else run_saving)(case, ctx)


class Listener(object):
    """Records calls; handler names depend on the kind."""

    def __init__(self, world, number, root, actions):
        self.world, self.number, self.root, self.actions = world, number, root, actions

    def _hit(self, event, kw):
        self.world.hit(self, event, kw)


def make_classes():
    def handler(event):
        def on(self, msg):
            self._hit(event, msg)
        return on

    base = dict(('on_%s_handler' % e, handler(e)) for e in EVENTS[:4])

    def get(self):
        return self.root

    def failing(self):
        raise AttributeError('no root today')

    return {
        'root': type('Root', (Listener,), dict(base, get_xmlroot=get)),
        'noroot': type('NoRoot', (Listener,), dict(base)),
        'none': type('NoneRoot', (Listener,), dict(base, get_xmlroot=lambda self: None)),
        'failing': type('Failing', (Listener,), dict(base, get_xmlroot=failing)),
        'slots': type('Slots', (Listener,), dict(base, get_xmlroot=get, __slots__=())),
        'equal': type('Equal', (Listener,), dict(base, get_xmlroot=get, __eq__=lambda self, other: isinstance(other, Listener), __ne__=lambda self, other: not isinstance(other, Listener), __hash__=lambda self: 1)),
        'unhashable': type('Unhashable', (Listener,), dict(base, get_xmlroot=get, __eq__=lambda self, other: self is other, __hash__=None)),
        'some': type('Some', (Listener,), {'on_save_handler': base['on_save_handler'], 'get_xmlroot': get}),
    }


class World(object):
    def __init__(self, subscribe, unsubscribe, broadcast, roots, ctx):
        self.subscribe, self.unsubscribe, self.broadcast, self.roots, self.ctx = subscribe, unsubscribe, broadcast, roots, ctx
        self.live = {}                       # number -> listener (the only strong reference)
        self.subs = dict((e, set()) for e in EVENTS)     # event -> numbers
        self.stack = []                      # running broadcasts
        self.used = set()

    def supports(self, n, event):
        return event in EVENTS[:4] and ('Some' != type(self.live[n]).__name__ or event == 'save')

    def hit(self, listener, event, msg):
        n = listener.number
        check(self.stack, 'handler of listener %s called without a broadcast', n)
        run = self.stack[-1]
        check(event == run['event'], 'broadcast of %s called the handler of %s', run['event'], event)
        check(msg is run['msg'], 'handler got the message %s instead of %s', msg, run['msg'])
        check(n not in run['calls'], 'listener %s called twice', n)
        check(n in self.subs[event], 'listener %s called although not subscribed to %s', n, event)
        if run['root'] is not None:
            check(type(listener).__name__ in ROOTED and listener.root is run['root'], 'listener of another root called')
        run['calls'].append(n)
        if len(self.stack) < 3:
            for a in listener.actions:
                self.act(a)

    def pick(self, i):
        keys = sorted(self.live)
        return keys[i % len(keys)] if keys else None

    def act(self, a):
        k = a[0]
        event = EVENTS[a[1]] if k != 'drop' else None
        n = self.pick(a[2] if k in ('sub', 'unsub') else a[1])
        if k == 'cast':
            self.cast(event, self.roots[a[2]] if a[2] >= 0 else None, a[3] if len(a) > 3 else None)
        elif n is None:
            return
        elif k == 'sub':
            if self.supports(n, event):
                self.subscribe(event, self.live[n])
                self.subs[event].add(n)
            else:
                raises(AttributeError, self.subscribe, event, self.live[n])
                self.ctx.note('refused')
        elif k == 'unsub':
            if n in self.subs[event]:
                self.unsubscribe(event, self.live[n])
                self.subs[event].discard(n)
                for run in self.stack:
                    run['expect'].discard(n)
            else:
                raises(KeyError, self.unsubscribe, event, self.live[n])
        elif k == 'drop':
            self.live.pop(n)
            if not self.stack:
                gc.collect(0)
                for e in self.subs:
                    self.subs[e].discard(n)
            else:
                for run in self.stack:
                    run['expect'].discard(n)
                    run['dropped'].add(n)

    def cast(self, event, root, msg):
        expect = set()
        for n in self.subs[event]:
            if n not in self.live:
                continue
            x = self.live[n]
            if root is None or type(x).__name__ in ROOTED and x.root is root:
                expect.add(n)
        x = None
        others = len(self.live) > len(expect)
        run = {'event': event, 'msg': msg, 'root': root, 'calls': [], 'expect': expect, 'dropped': set()}
        self.stack.append(run)
        try:
            if root is not None:
                self.broadcast(event, msg=msg, root=root)
            elif msg is not None:
                self.broadcast(event, msg)
            else:
                self.broadcast(event)
        finally:
            self.stack.pop()
        missed = [n for n in run['expect'] if n not in run['calls']]
        check(not missed, 'broadcast of %s (root %s) did not reach listeners %s', event, root, missed)
        if not self.stack:
            live = set(self.live)
            for e in self.subs:
                self.subs[e] &= live
        if run['calls']:
            self.used.add('hit')
            if others:
                self.used.add('out')
        self.ctx.note('broadcasts')
        return run


def run_observer(case, ctx):
    import ezodf
    from ezodf import observer
    from ezodf.observer import Observer
    other = Observer()
    if case['which'] == 'own':
        o = Observer()
        args = (o.subscribe, o.unsubscribe, o.broadcast)
    else:
        args = (observer.subscribe, observer.unsubscripe, observer.broadcast)
    top = etree.Element('top')
    etree.SubElement(top, 'kid')
    para = ezodf.Paragraph('p')
    roots = [top, etree.Element('top'), top[0], para.get_xmlroot()]
    w = World(*args, roots=roots, ctx=ctx)
    classes = make_classes()
    number = casts = 0
    foreign = []
    for kind, r, actions, events in case['init']:
        w.live[number] = classes[kind](w, number, roots[r], actions)
        number += 1
        for e in events:
            w.act(['sub', e, sorted(w.live).index(number - 1)])
    for op in case['ops']:
        ctx.step()
        k = op[0]
        if k == 'new':
            w.live[number] = classes[op[1]](w, number, roots[op[2]], op[3])
            number += 1
        elif k == 'reroot':
            n = w.pick(op[1])
            if n is not None:
                w.live[n].root = roots[op[2]]
        elif k == 'crowd':
            for i in range(op[2]):
                w.live[number] = classes['root'](w, number, roots[i % 4], [])
                w.act(['sub', op[1], sorted(w.live).index(number)])
                number += 1
        elif k == 'other':        # the same object at another observer
            n = w.pick(op[2])
            if n is not None and w.supports(n, EVENTS[op[1]]):
                other.subscribe(EVENTS[op[1]], w.live[n])
                foreign.append(n)
        elif k == 'othercast':    # reaches nobody of this observer: another event name or another observer
            args[2](EVENTS[4 + op[1] % 2], msg='x')
            args[2]('save ', msg='x')
            empty = Observer()
            empty.broadcast(EVENTS[op[1]])
        else:
            w.act(op)
            casts += k == 'cast'
    for e in EVENTS:
        w.cast(e, None, None)
        for r in roots:
            w.cast(e, r, 'final')
    # nothing outlives its last reference
    w.live.clear()
    gc.collect(0)
    for e in EVENTS:
        for s in w.subs.values():
            s.clear()
        args[2](e)
    ctx.nontrivial(casts >= 2 and w.used >= {'hit', 'out'})


# ------------------------------------------------------------------ documents

class Saver(object):
    def __init__(self, world, number, doc, where, free):
        self.world, self.number, self.doc, self.where = world, number, doc, where

    def get_xmlroot(self):
        d = self.world['docs'][self.doc][0]
        if self.where == 'node':
            return d.body.xmlnode.getroottree().getroot()
        if self.where == 'child':
            return list(d.body)[0].get_xmlroot() if len(d.body) else d.body.get_xmlroot()
        return d.body.get_xmlroot()


class Prep(Saver):
    def on_prepare_saving_handler(self, msg):
        self.world['log'].append(('prepare', self.number, msg))
        self.world['hook']('prepare', self)


class Post(Saver):
    def on_post_saving_handler(self, msg):
        self.world['log'].append(('post', self.number, msg))
        self.world['hook']('post', self)


class Both(Prep, Post):
    pass


class FreeBoth(object):
    """without a root: never addressed by the saves of documents"""

    def __init__(self, world, number):
        self.world, self.number, self.doc = world, number, None

    def on_prepare_saving_handler(self, msg):
        self.world['log'].append(('prepare', self.number, msg))

    def on_post_saving_handler(self, msg):
        self.world['log'].append(('post', self.number, msg))


def run_saving(case, ctx):
    import ezodf
    import ezodf.document
    from ezodf import observer
    tmp = ctx.tmpdir()
    world = {'docs': [], 'log': [], 'hook': lambda *a: None}

    def mark(d, text):
        """an edit that is visible in every document type"""
        d.meta.keywords.add(text)

    def marks(path):
        d = ezodf.opendoc(path)
        return list(d.meta.keywords)

    for t, how in case['types']:
        n = len(world['docs'])
        path = os.path.join(tmp, 'd%d.%s' % (n, t))
        if how == 'flat':
            d = ezodf.document.FlatXMLDocument(t)
            d.docname = path
        else:
            d = ezodf.newdoc(t, path)
        if how == 'package':
            d.save()
            d = ezodf.opendoc(path)
        world['docs'].append([d, path, list(d.meta.keywords)])
    listeners = {}           # number -> [object, events]
    number = saves = edits = 0
    seen = set()
    for op in case['ops']:
        ctx.step()
        k = op[0]
        entry = world['docs'][op[1] % len(world['docs'])] if k not in ('unsub', 'drop') else None
        di = op[1] % len(world['docs']) if entry else None
        if k == 'sub':
            cls = {'prepare_saving': Prep, 'post_saving': Post, 'both': Both}[op[2]]
            x = FreeBoth(world, number) if op[3] == 'free' else cls(world, number, di, op[3], None)
            events = set()
            for e in ('prepare_saving', 'post_saving'):
                if hasattr(x, 'on_%s_handler' % e):
                    observer.subscribe(e, x)
                    if op[4]:
                        observer.subscribe(e, x)
                    events.add(e)
                else:
                    raises(AttributeError, observer.subscribe, e, x)
            listeners[number] = [x, events]
            number += 1
            x = None
        elif k in ('unsub', 'drop'):
            keys = sorted(listeners)
            if keys:
                n = keys[op[1] % len(keys)]
                if k == 'drop':
                    del listeners[n]
                    gc.collect(0)
                elif op[2] in listeners[n][1]:
                    observer.unsubscripe(op[2], listeners[n][0])
                    listeners[n][1].discard(op[2])
        elif k == 'edit':
            edits += 1
            mark(entry[0], 'e%d' % edits)
            entry[2].append('e%d' % edits)
            if case['types'][di][0] == 'odt':
                entry[0].body.append(ezodf.Paragraph('p%d' % edits))
        elif k == 'tobytes':
            del world['log'][:]
            entry[0].tobytes()
            same(world['log'], [], 'an export to bytes notified listeners')
        elif k == 'reopen':
            # a discarded document no longer has listeners of its own
            entry[0].save() if not os.path.exists(entry[1]) else None
            entry[0] = ezodf.opendoc(entry[1])
            entry[2] = list(entry[0].meta.keywords)
        elif k == 'fail':
            del world['log'][:]
            old = entry[0].docname
            entry[0].docname = os.path.join(tmp, 'missing', 'dir.odt')
            raises(EnvironmentError, entry[0].save)
            entry[0].docname = old
            for w, n, msg in world['log']:
                check(listeners[n][0].doc == di, 'a failing save notified the listener of another document')
                check(w == 'prepare', 'a save which failed was reported as done')
            ctx.note('failing save')
        elif k == 'save':
            d, path, keys = entry
            if op[2] == 'saveas':
                saves += 1
                path = entry[1] = os.path.join(tmp, 's%d.%s' % (saves, case['types'][di][0]))
            d.docname = d.docname or path
            if op[2] == 'save':
                path = entry[1] = d.docname
            before = open(path, 'rb').read() if os.path.exists(path) else None
            del world['log'][:]
            d.backup = op[4]

            def hook(what, x, d=d, path=path, keys=keys, before=before, edit=op[3]):
                now = open(path, 'rb').read() if os.path.exists(path) else None
                if what == 'prepare':
                    same(now, before, 'the file was already written when the listeners were notified the first time')
                    if edit:
                        key = 'h%d.%d' % (x.number, len(keys))
                        mark(d, key)
                        keys.append(key)
                else:
                    check(now is not None and now != before or before is None and now is not None, 'the file was not written when the listeners were notified the second time')
                    same(marks(path), keys, 'keywords in the file at the second notification')
            world['hook'] = hook
            if op[2] == 'save':
                d.save()
            else:
                d.saveas(path)
            world['hook'] = lambda *a: None
            got = sorted(x[:2] for x in world['log'])
            want = sorted((w, n) for n, (x, events) in listeners.items() if x.doc == di for w, e in (('prepare', 'prepare_saving'), ('post', 'post_saving')) if e in events)
            same(got, want, 'notifications of a save')
            order = [x[0] for x in world['log']]
            same(order, sorted(order, key=lambda w: w == 'post'), 'order of the notifications')
            check(all(x[2] is None for x in world['log']), 'message of the notification')
            same(marks(path), keys, 'keywords in the saved file')
            seen.add(bool(want))
            if want and len(listeners) > len(set(n for _, n in want)):
                seen.add('out')
            ctx.note('saves')
    ctx.nontrivial(True in seen and 'out' in seen)
