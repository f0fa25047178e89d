import json
P={json.loads(l)['id']:json.loads(l) for l in open('/verif/properties.jsonl')}
tech={
'C01':'generated schemas and values; round trip of generated code',
'C02':'generated schemas and values; differential against a reference codec',
'C03':'generated packed schemas and values; differential against a reference delta packer',
'C04':'generated schemas and values; metamorphic relation size = bits written',
'C05':'structured mutation fuzzing of messages and readers; crash, resource and truncation oracle',
'C06':'generated invalid objects and injected write faults; must-fail oracle',
'C07':'property-based tests against a reference varint codec; exhaustive small types',
'C08':'property-based tests of primitives against a bit-list model',
'C09':'stateful model-based tests of the bit stream against a bit list',
'C10':'generated choices, unions and optionals; differential against a reference codec',
'C11':'generated typed expressions; differential against a reference evaluator',
'C12':'generated schema sets; metamorphic relations between compiler runs',
'C13':'generated valid schema sets; compile-and-link oracle over generated code',
'C14':'generated templates; metamorphic relation with hand-substituted schemas',
'C15':'grammar-based and mutation fuzzing of the compiler; crash and must-reject oracle',
'C16':'generated schema trees and options; model of the expected output tree',
'C17':'generated concurrent workloads under the race detector; differential with sequential results',
'C18':'generated enums and bitmasks; oracle from the schema',
'C19':'generated parameterised types; differential against a reference codec',
'C20':'generated constants and defaults; differential against a reference evaluator',
}
note=json.load(open('/verif/notes.json')) if 0 else {}
have=[l.strip() for l in open('/verif/tools/have.txt') if l.strip()]
m={'version':1,'setup_cmd':'./check setup','checks':[],'not_applicable':[],'notes':'See DESIGN.md. No hooks: the checks build the unmodified working tree of /repo (the /repo commits are fixes of genuine defects, listed in KNOWN-FINDINGS.txt).'}
for k in sorted(P):
    if k in have:
        m['checks'].append({'property':k,'quick_cmd':f'./check {k} quick','thorough_cmd':f'./check {k} thorough','technique':tech[k],'level':'exploration','level_note':'Random search with an explicit oracle: it shows that no counterexample was found among the generated cases (counts in the evidence), not that there is none. See DESIGN.md.'})
    else:
        m['not_applicable'].append({'property':k,'reason':'check under construction'})
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
