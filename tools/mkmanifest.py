"""Writes /verif/MANIFEST.json for the properties that have a check in pbt/props."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 'C01': ('round-trip over generated packages and documents', 'independent zip and XML comparison of source and saved document'),
 'C02': ('generated documents judged by an independent container validator', 'raw zip inspection written from the ODF specification'),
 'C03': ('stateful edit histories, save/reload differential against a state model', 'state read through the API before saving equals state after reopening; the raw XML is compared as well'),
 'C04': ('enumerated fault injection over generated save operations', 'every write position of the generated saves gets an injected fault (Python level and libc level); the directory must hold the old or the complete new document'),
 'C05': ('stateful save histories against a directory model', 'model maps file names to the states of the document'),
 'C06': ('differential testing of all open routes on generated packages', 'all routes must agree with each other and with the generated description'),
 'C07': ('round-trip and edit differential on generated flat documents', 'tree comparison with the generated description'),
 'C08': ('model-based stateful testing of the meta data', 'dict and set models plus raw XML'),
 'C09': ('round-trip and whitespace-collapse simulation on generated texts', 'an independent implementation of the ODF white-space rules'),
 'C10': ('generated mixed-content trees against an independent text walk', 'document-order text computed on the generated description'),
 'C11': ('model-based stateful testing against a Python list', 'list model plus identity and XML order'),
 'C12': ('model-based attribute histories on text objects', 'attribute model and raw XML'),
 'C13': ('generated bodies and insertion histories against a list model', 'model of the body children'),
 'C14': ('generated variable documents and assignments against a value model', 'value model; comparison of everything else in the document'),
 'C15': ('model-based cell histories', 'cell state model and raw attributes'),
 'C16': ('stateful table editing against a list-of-lists model', 'matrix model, column and row attributes, structural invariant'),
 'C17': ('generated indices and strings against an independent address conversion', 'bijective base-26 model; differential between index kinds'),
 'C18': ('generated repeated tables against a reference expander', 'expander on plain data'),
 'C19': ('span histories against a rectangle-set model', 'set of rectangles and cell kinds'),
 'C20': ('stateful sheet and page histories against a list model', 'list model and body children'),
 'C21': ('snapshot and independence relations on generated tables', 'metamorphic: copy equals source, later edits do not leak'),
 'C22': ('inverse and differential testing of time conversions', 'independent xsd:dateTime and xsd:duration parser'),
 'C23': ('model-based subscribe/broadcast histories', 'model of live subscriptions per root'),
 'C24': ('generated names and tags against the namespace tables', 'ODF namespace table; order independence in fresh interpreters'),
 'C25': ('generated child sequences against a declarative reference', 'reference of order checking and insertion positions'),
 'C26': ('model-based style histories', 'dictionary of the styles by family and name, raw XML'),
 'C27': ('twin documents: histories with generated invalid calls', 'canonical serialisation before and after the rejected call; twin document that never saw it'),
 'C28': ('interleaved versus alone differential over several documents', 'the same operation sequence run alone'),
 'C29': ('structured mutation fuzzing of packages with a reference reader', 'zipfile and the XML parser decide whether a mutated package has to be rejected, or opened and with which content'),
}
LEVEL = {'C04': 'fault_enumeration'}
checks, missing = [], []
for i in sorted(T):
    if not os.path.exists(os.path.join(HERE, 'pbt', 'props', i.lower() + '.py')):
        missing.append({'property': i, 'reason': 'the check is not built yet'})
        continue
    tech, oracle = T[i]
    checks.append({
        'property': i,
        'quick_cmd': './check %s' % i,
        'thorough_cmd': './check %s --tier thorough' % i,
        'technique': tech,
        'level': LEVEL.get(i, 'exploration'),
        'level_note': 'Generated-input search with Hypothesis; oracle: %s. Gives no guarantee outside the generated '
                      'inputs; trusts lxml, zipfile and the interpreter. Domain limits are listed under assumptions '
                      'in the evidence file.' % oracle,
    })
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': missing,
           'notes': 'Checks import ezodf from /repo\'s working tree (nothing to compile; C04 compiles pbt/fault.c into '
                    'its scratch directory). No hooks in /repo.'},
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
