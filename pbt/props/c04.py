"""C04: a failing save never destroys a document (every fault position of every generated save is tried)."""
import ctypes
import errno
import io
import os
import random
import shutil
import zipfile
import zlib

import docs
import odf
from core import HarnessError, Violation, check, same
from odf import Package, Q, canon, canon_xml

RULE = ('A case is a document (packaged by path or bytes, or flat XML), a target (its own file, another existing file, '
        'a new file) with or without backup, and a fault class; for each case a dry run counts the file operations '
        '(create, write, close, rename, remove) of the save and the save is repeated with the fault (I/O error, full disk, short write, end of the process, unserialisable part, damaged source member) at every position '
        '(at most 80 evenly chosen); non-trivial: at least five positions were tried on an existing target.')
ASSUME = ['one fault per save, except full disk (all later writes fail) ', 'the only fault while reading the source is a damaged member',
          'an older backup file may be replaced by a failing save']
BUDGET = {'quick': 2400, 'thorough': 8000}
LEVEL = 'fault_enumeration'
PRELOAD = 'fault.c'
ONCE, FULL, SHORT, CRASH = 1, 2, 3, 4


def strategy(profile):
    from hypothesis import strategies as st
    import gen
    s = docs.strategies()
    doc = s.doc(['odt', 'ods', 'odg', 'odp'], False, 3)
    return st.fixed_dictionaries({
        'doc': doc.map(lambda d: dict(d, feature={})),
        'kind': st.sampled_from(['path', 'path', 'path', 'bytes', 'flat', 'new']),
        'target': st.sampled_from(['self', 'self', 'existing', 'fresh']),
        'backup': st.sampled_from([True, True, False]), 'oldbak': st.booleans(),
        'fault': st.sampled_from(['eio', 'eio', 'eio', 'full', 'full', 'short', 'part', 'part', 'crash', 'crash', 'damaged']),
        'big': gen.choice((3, st.just(0)), (2, st.sampled_from([3000, 9000, 70000]))),
        'saved': st.booleans(), 'retry': st.sampled_from(['same', 'same', 'other', 'bytes']),
        'where': st.integers(0, 9), 'how': st.sampled_from([0, 0, 1, 2, 3, 4])})


class Injector(object):
    def __init__(self):
        self.lib = ctypes.CDLL(None)
        try:
            self.lib.fi_arm
        except AttributeError:
            raise HarnessError('the fault injector is not loaded')

    def arm(self, folder, mode, k, err):
        self.lib.fi_arm(folder.encode(), mode, k, err)

    def disarm(self):
        return self.lib.fi_disarm()

    def hits(self):
        return self.lib.fi_hits()

    def kind(self, k):
        return {'o': 'create', 'w': 'write', 'c': 'close', 'r': 'rename', 'u': 'remove', 't': 'truncate',
                's': 'sync', 'l': 'link'}.get(chr(self.lib.fi_kind(k)), '?')


class Bad(object):
    """a part that cannot be serialised while 'bad' is set"""

    def __init__(self):
        self.bad = True
        self.how = ValueError

    def fail(self):
        raise self.how('not serialisable')

    def tobytes(self, **kw):
        if self.bad:
            self.fail()
        return b'good now'


FAILURES = [ValueError, KeyboardInterrupt, MemoryError, OSError, SystemExit]     # the user may press Ctrl-C while a part is serialised


LATE = 'Pictures/late.png'


def damaged(blob, where):
    """the package with one changed byte in the data of a member"""
    info = zipfile.ZipFile(io.BytesIO(blob)).getinfo(LATE)
    head = info.header_offset
    start = head + 30 + int.from_bytes(blob[head + 26:head + 28], 'little') + int.from_bytes(blob[head + 28:head + 30], 'little')
    at = start + where % info.compress_size
    return blob[:at] + bytes([blob[at] ^ 0x55]) + blob[at + 1:]


def snapshot(folder):
    out = {}
    for base, dirs, files in os.walk(folder):
        for n in files + dirs:
            p = os.path.join(base, n)
            rel = os.path.relpath(p, folder)
            if os.path.isdir(p) and not os.path.islink(p):
                out[rel + '/'] = None
            else:
                with open(p, 'rb') as f:
                    out[rel] = f.read()
    return out


def neutral_flat(blob):
    root = odf.etree.fromstring(blob)
    meta = root.find(Q('office:meta'))
    for name in ('meta:generator', 'dc:date', 'meta:editing-cycles'):
        for e in meta.findall(Q(name)):
            meta.remove(e)
    return canon(root)


def neutral(blob, flat):
    """what a file contains, without date, generator and editing cycles; None if it is not complete"""
    try:
        if flat:
            return neutral_flat(blob)
        p = Package(blob)
        meta = p.xml('meta.xml').find(Q('office:meta'))
        for name in ('meta:generator', 'dc:date', 'meta:editing-cycles'):
            for e in meta.findall(Q(name)):
                meta.remove(e)
        parts = ('content.xml', 'styles.xml', 'META-INF/manifest.xml')
        return (tuple(canon_xml(p.members[n]) for n in parts), canon(meta),
                tuple(sorted((n, b) for n, b in p.members.items() if n not in parts + ('meta.xml',))))
    except (Violation, KeyError, AttributeError, odf.etree.XMLSyntaxError, zlib.error, zipfile.BadZipfile):
        return None


def flat_data(d):
    data = docs.content_node(d)
    return odf.E('office:document', {'office:mimetype': odf.MIME[d['type']], 'office:version': '1.2'}, None,
                 [odf.E('office:meta', {}, None, d['meta'] or [])] + data[3])


def dies(action):
    """action in a forked process; did the process end early?"""
    pid = os.fork()
    if pid == 0:
        code = 98
        try:
            action()
            code = 97
        finally:
            os._exit(code)
    code = os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])
    check(code in (97, 99), 'a save in another process raised or ended with code %s', code)
    return code == 99


def run_case(case, ctx):
    import ezodf
    fi = Injector()
    d = case['doc']
    flat = case['kind'] == 'flat'
    damage = case['fault'] == 'damaged'
    if damage:
        if case['kind'] != 'path':
            ctx.note('no source to damage')
            return
        late = [LATE, 'content of a picture ' * (1 + case['where']), case['where'] % 2 == 0]
        d = dict(d, extra=d['extra'][:case['where'] % 3] + [late] + d['extra'][case['where'] % 3:])
    ext = 'xml' if flat else d['type']
    top = os.path.realpath(ctx.tmpdir())
    folder = os.path.join(top, 'work')
    rng = random.Random(case['where'])
    blob = odf.serialise(flat_data(d)) if flat else docs.package(d)
    ballast = bytes(rng.randrange(256) for _ in range(case['big'])).decode('latin-1')

    def setup():
        """fresh directory, opened and edited document -> (doc, target path, retry path)"""
        if os.path.exists(folder):
            shutil.rmtree(folder)
        os.mkdir(folder)
        own = os.path.join(folder, 'own.' + ext)
        other = os.path.join(folder, 'other.' + ext)
        with open(own, 'wb') as f:
            f.write(blob)
        if case['target'] == 'existing':
            with open(other, 'wb') as f:
                f.write(b'another file' * 20)
        target = own if case['target'] == 'self' else other
        if case['oldbak']:
            with open(target + '.bak', 'wb') as f:
                f.write(b'an older backup')
        with open(os.path.join(folder, 'bystander.' + ext), 'wb') as f:
            f.write(b'not touched')
        if case['kind'] == 'new':
            doc = ezodf.newdoc(d['type'], own)
        else:
            doc = ezodf.opendoc(blob if case['kind'] == 'bytes' else own)
        doc.backup = case['backup']
        if case['saved'] and case['kind'] in ('path', 'flat'):
            doc.backup = False
            doc.save()
            doc.backup = case['backup']
        doc.meta['title'] = 'edited'
        if case['kind'] == 'new':
            doc.meta['creation-date'] = '2011-02-03T04:05:06'
        if d['type'] == 'ods':
            doc.sheets.append(ezodf.Sheet('new sheet', size=(2, 2)))
        elif d['type'] == 'odt':
            doc.body.append(ezodf.Paragraph('new'))
        bad = None
        if not flat:
            if ballast:
                doc.filemanager.register('Pictures/ballast.bin', ballast, 'image/png')
            if case['fault'] == 'part':
                bad = Bad()
                bad.how = FAILURES[case.get('how', 0)]
                name = ['Aaa', 'settings.xml', 'content.xml', 'styles.xml', 'meta.xml', 'META-INF/manifest.xml',
                        'mimetype', 'zzz', 'Pictures/bad', 'Object/x'][case['where']]
                if name in ('content.xml', 'styles.xml', 'meta.xml', 'META-INF/manifest.xml', 'mimetype'):
                    entry = doc.filemanager.directory[name]
                    good = entry.element

                    class Wrapped(object):
                        @staticmethod
                        def tobytes(**kw):
                            if bad.bad:
                                bad.fail()
                            if hasattr(good, 'tobytes'):
                                return good.tobytes(**kw)
                            return good.encode('utf-8')
                    entry.element = Wrapped
                else:
                    doc.filemanager.register(name, bad, '')
        elif ballast:
            doc.meta['description'] = ''.join(c if c.isalnum() and c < '\x7f' else 'x' for c in ballast)
        return doc, target, bad

    def save(doc, target):
        if case['target'] == 'self' and case['kind'] != 'bytes':
            doc.save()
        else:
            doc.saveas(target)

    # the complete new content, from an undisturbed save
    doc, target, bad = setup()
    if bad is not None:
        bad.bad = False
    fi.arm(folder, 0, 0, 0)
    try:
        save(doc, target)
    finally:
        n = fi.disarm()
    with open(target, 'rb') as f:
        complete = neutral(f.read(), flat)
    check(complete is not None, 'an undisturbed save wrote an incomplete file')
    check(n >= 2, 'harness: only %s file operations were seen', n)
    rel, bakrel = os.path.relpath(target, folder), os.path.relpath(target, folder) + '.bak'

    if case['fault'] == 'part':
        if flat:
            ctx.note('no parts in a flat document')
            return
        plans = [('part', 0)]
    elif damage:
        plans = [('damaged', 0)]
    else:
        ks = list(range(1, n + 1))
        if len(ks) > 80:
            ks = sorted(set(ks[:20] + ks[-20:] + ks[::max(1, len(ks) // 40)]))
        plans = [(case['fault'], k) for k in ks]
    def after_crash(before, after, died, what):
        old, now, bak = before.get(rel), after.get(rel), after.get(bakrel)
        new_complete = now is not None and neutral(now, flat) == complete
        if now is not None and now != old and not new_complete:
            raise Violation('%s: %s is left truncated or partly written (%d bytes)' % (what, rel, len(now)))
        if old is not None and not (now == old or bak == old or new_complete):
            raise Violation('%s: neither the old nor the new document exists' % what)
        check(died or new_complete, '%s: the save reported success but the file is not the complete new document', what)
        if bak is not None and bak not in (old, before.get(bakrel)):
            raise Violation('%s: the backup file is neither the old document nor the older backup' % what)
        for name in before:
            if name not in (rel, bakrel):
                same(after.get(name), before[name], '%s: another file %r' % (what, name))
        # what the crash left does not disturb the next save
        if case['target'] == 'existing' and now is not None and not new_complete:
            return
        left = None
        if now is not None or old is not None and bak == old:
            left = os.path.join(folder, rel if now is not None else bakrel)
        if left and (case['target'] != 'existing' or new_complete):
            with open(left, 'rb') as f:
                content = f.read()
            again = ezodf.opendoc(content if not flat else left)
            again.backup = case['backup']
            again.meta['title'] = 'edited'
            again.saveas(target)
            with open(target, 'rb') as f:
                saved = neutral(f.read(), flat)
            check(saved is not None, '%s: the document left can not be saved again', what)
            if new_complete:
                check(saved == complete, '%s: the document left is saved incompletely', what)

    tried = 0
    for fault, k in plans:
        ctx.step()
        doc, target, bad = setup()
        if damage:
            own = os.path.join(folder, 'own.' + ext)
            with open(own, 'rb') as f:
                source = f.read()
            with open(own, 'wb') as f:
                f.write(damaged(source, case['where']))
        before = snapshot(folder)
        old = before.get(rel)
        raised = None
        kind = 'serialising'
        if fault in ('part', 'damaged'):
            fi.arm(folder, 0, 0, 0)
        else:
            mode, err = {'eio': (ONCE, [errno.EIO, errno.EACCES, errno.ENOSPC][(case['where'] + k) % 3]),
                         'full': (FULL, errno.ENOSPC), 'short': (SHORT, 0), 'crash': (CRASH, 0)}[fault]
            fi.arm(folder, mode, k, err)
        if fault == 'crash':       # the process dies in front of the operation
            died = dies(lambda: save(doc, target))
            fi.disarm()
            ctx.note('crash' if died else 'no crash')
            tried += 1
            after_crash(before, snapshot(folder), died, 'process ended in front of operation %d of %d' % (k, n))
            continue
        try:
            save(doc, target)
        except (Exception, KeyboardInterrupt, SystemExit) as e:
            raised = e
        finally:
            fi.disarm()
        hits = fi.hits()
        if fault not in ('part', 'damaged'):
            kind = fi.kind(k)
        what = 'fault %s at operation %d of %d (%s), save %s' % (
            fault, k, n, kind, 'raised %s' % type(raised).__name__ if raised is not None else 'returned')
        if fault not in ('part', 'damaged') and not hits:
            if raised is not None:
                raise raised
        ctx.note('%s %s' % (fault, kind))
        tried += 1
        after = snapshot(folder)
        now, bak = after.get(rel), after.get(bakrel)
        new_complete = now is not None and neutral(now, flat) == complete
        if raised is None:
            check(new_complete, '%s: the save reported success but the file is not the complete new document', what)
        if fault == 'short':
            check(raised is None, '%s: a short write is no error', what)
        if now is not None and now != old and not new_complete:
            raise Violation('%s: %s is left truncated or partly written (%d bytes)' % (what, rel, len(now)))
        if old is not None and not (now == old or bak == old or new_complete):
            raise Violation('%s: neither the old nor the new document exists' % what)
        if bak is not None and bak not in (old, before.get(bakrel)):
            raise Violation('%s: the backup file is neither the old document nor the older backup' % what)
        if not case['backup'] or case['kind'] == 'bytes':
            same(bak, before.get(bakrel), '%s: backup file without backups' % what)
        for name in sorted(set(before) | set(after)):
            if name in (rel, bakrel):
                continue
            if name not in before:
                if after[name] == old and now != old and bak != old:
                    continue
                raise Violation('%s: file %r is left behind' % (what, name))
            if name not in after or after[name] != before[name]:
                raise Violation('%s: another file %r was changed' % (what, name))
        # the fault is gone: the same document can be saved completely
        if bad is not None:
            bad.bad = False
        if damage:
            check(snapshot(folder).get('own.' + ext) == before['own.' + ext], '%s: the source was changed', what)
            with open(own, 'wb') as f:
                f.write(source)
            old = source if rel == 'own.' + ext else old
            now = old if rel == 'own.' + ext else now
        again = target
        if case['retry'] == 'other':
            again = os.path.join(folder, 'again.' + ext)
            doc.saveas(again)
        elif case['retry'] == 'bytes':
            b = doc.tobytes()
            if neutral(b, flat) != complete:
                raise Violation('%s: the bytes exported afterwards are not the complete document' % what)
            save(doc, target)
        else:
            save(doc, target)
        with open(again, 'rb') as f:
            got = neutral(f.read(), flat)
        if got != complete:
            raise Violation('%s: saving again afterwards does not write the complete document' % what)
        if case['retry'] == 'same' and raised is not None and case['backup'] and case['kind'] != 'bytes' \
                and now == old and old is not None:
            final = snapshot(folder)
            same(final.get(bakrel), old, '%s: backup of the second save' % what)
    ctx.nontrivial((tried >= 5 or case['fault'] in ('part', 'damaged')) and case['target'] != 'fresh')
