"""Writes /verif/known_findings.jsonl: repaired defects (from the fix: commits) and recorded ones."""
import json, os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = {
 '39f9c25': 'C06 C07', '5d62afa': 'C06', 'b56a6be': 'C07', 'e085bde': 'C07', 'd75be2a': 'C26 C07', 'a0852ff': 'C04 C05',
 '376f3b0': 'C02', '180e347': 'C06', '76be187': 'C26', '3a83aff': 'C26', '6977d83': 'C26', '5005783': 'C26', '7d26ea9': 'C14',
 '7e38c41': 'C14', 'db0f010': 'C14', '164c362': 'C14', '9fde240': 'C14', 'e51d1c3': 'C14', '6ceab0b': 'C10', '7cc2591': 'C10',
 'e30d725': 'C15', '17794dd': 'C15 C27', '4ce9d0c': 'C19', '40098e8': 'C19 C27', 'e01820c': 'C19', 'd41ef36': 'C17',
 '7bf74ee': 'C17', 'c9f31fd': 'C17 C16', 'ce39df4': 'C16', 'a5d9e1c': 'C18 C16', '292e3c3': 'C16 C27', '03c1ace': 'C16',
 '4282daf': 'C21 C27', '9b4ca4a': 'C20', 'ee67887': 'C20 C13', '5241c2c': 'C25', 'c644cf2': 'C04', 'a86d3cf': 'C04',
 '0f29964': 'C23', 'c4e470e': 'C08', 'e2ea7df': 'C08', '5607962': 'C27 C08', 'ad76ff7': 'C22', '4ee27e4': 'C22',
 '03505c1': 'C22', 'a35184a': 'C10', 'd26c540': 'C13', '2ea38cc': 'C16', 'c4dda34': 'C17', 'daea760': 'C18',
 '9ae58aa': 'C10 C18 C01', 'cae101b': 'C08 C01', '001bbd4': 'C07', '902f2ca': 'C11', '310ab78': 'C12 C10', '2d7570b': 'C13 C20',
 'fb475ec': 'C14', '9095a95': 'C14', '0448343': 'C15', 'edbbb4b': 'C15 C27', 'cb4bfdb': 'C23', '8cf4dfd': 'C24', 'ba4fe88': 'C24',
 '73506ea': 'C27 C08', 'c0022ad': 'C27 C12', '21e6ee8': 'C27 C09', 'cc871f6': 'C27 C08', '715f29d': 'C27 C16',
 '253cac1': 'C23', '4496495': 'C15', 'efcb30a': 'C22', '9e0f8db': 'C12', 'd69e667': 'C19 C03', 'be1577c': 'C08', '88c3bac': 'C13 C25', '00af518': 'C26', 'c9bb2cf': 'C20 C16', '4041d4a': 'C18 C16', '6f2c548': 'C18 C21',
}
KNOWN = [
 {'property': 'C19', 'status': 'known',
  'what': 'deleting or inserting rows and columns inside of a spanned area does not adjust the spans: afterwards they can overlap',
  'probe': {'grid': [[[False, None, {}, []]] * 2] * 4, 'spans': [], 'new': True,
            'ops': [['set', 0, 0, 2, 2, 't'], ['set', 2, 0, 2, 2, 't'], ['deleterow', 1]]}},
 {'property': 'C02', 'status': 'known',
  'what': "newdoc('odf') and opening formula documents raise KeyError (formula documents have no office:body and are not supported)",
  'probe': {'src': {'how': 'new', 'type': 'odf'}, 'name': 'a.', 'steps': []}},
]
log = subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s', 'd023987..HEAD'], text=True)
out, seen = [], set()
for line in log.splitlines():
    h, subject = line.split(' ', 1)
    if not subject.startswith('fix: '):
        continue
    seen.add(h)
    if h not in FIXED:
        print('not listed:', line)
        continue
    for p in FIXED[h].split():
        out.append({'property': p, 'status': 'fixed', 'commit': h,
                    'what': 'fixed: property=%s %s %s' % (p, h, subject[5:])})
assert not set(FIXED) - seen, set(FIXED) - seen
with open(os.path.join(HERE, 'known_findings.jsonl'), 'w') as f:
    for d in out + KNOWN:
        f.write(json.dumps(d, sort_keys=True) + '\n')
print(len(out), 'fixed,', len(KNOWN), 'known')
