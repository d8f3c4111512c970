#!/usr/bin/env python3
# Regenerates /verif/MANIFEST.json. CLAIMED is read from mc's property table (`mc list`).
import json, subprocess, re
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
src=open('/verif/mc/src/props.rs').read()
claimed={m for l in re.findall(r'^ {8}((?:"C\d\d"(?: \| )?)+) =>',src,re.M) for m in re.findall(r'C\d\d',l)} | {'C26'} # the last by mc-factory
NOTE={
'C01':'Round trip and exact size of every transaction and element over all shapes, field deviations, pairs of variable lengths and element counts past 2^16; an independent decoder is not used, the value read back is compared with the value written.',
'C02':'Bytes are compared with an independently written encoder in mc/src/model.rs; that encoder is the statement of the layout and is trusted. Every buffer length below the size, and larger dirty buffers.',
'C03':'Fault enumeration over a corpus of canonical encodings: every truncation, every word and every pair of words replaced by boundary numbers, forged then cut, every byte edit, all short word strings, forged headers; allocations are metered by a counting allocator against a budget proportional to the input, hangs by a CPU-time watchdog.',
'C04':'A table of the 11 receipts (field order, accessors, which kinds carry what) in mc/src/receipts.rs is the reference; every field deviation, data length and short buffer.',
'C05':'The preimage is built by the reference encoder and hashed with sha2; commitment checked for all combinations of <= 2 field changes in both directions.',
'C06':'All operation histories (mutate, precompute, clone, wire and JSON round trips, preparation) up to the stated depth on three starting transactions per kind, each compared with a twin that never had a cache.',
'C07':'Offsets compared with those the reference encoder produces, cached and not, in- and out-of-range indices, over the C01 spaces.',
'C08':'The verdict is compared with an independently written rule set, and the reported error must be one of the rules that rule set finds violated (which one of several is left open).',
'C09':'As C08, with the create rules; slot orders, inversions at every position and bytecode lengths around a quarter have spaces of their own.',
'C10':'As C08, with the mint rules.',
'C11':'Owner x witness assignments, alterations after signing, single-bit signature faults, one faulty input at every position. secp256k1 itself (fuel-crypto) is trusted, and used by the oracle on ids computed by the reference model.',
'C12':'All histories of signing, tampering and modification up to the stated depth; the expected witnesses are fuel-crypto signatures over ids computed by the reference model.',
'C13':'Products of boundary numbers plus the exact overflow frontiers computed from the earlier operands, and all small numbers, against 128-bit / big-integer arithmetic.',
'C14':'All short sequences of inputs and outputs over 3 assets with amounts at the frontier of what is left, against exact accounting in 128 bits.',
'C15':'All histories of wrapper operations up to the stated depth, tracking which checks have been performed; verdicts come from the C08-C11 and C14 reference models.',
'C16':'Independent RFC 6962 style and sparse Merkle trees; every length through chunk and power-of-two boundaries, keys parting at every bit, all orders.',
'C17':'Field by field comparison with the stated set over shapes and fields, and all histories of preparations up to the stated depth.',
'C18':'All sequences of builder calls up to the stated depth against an abstract transaction, in all six ways of finishing.',
'C19':'JSON text and bincode in memory over the transaction, element and receipt spaces; readers that do not borrow (serde_json::from_value / from_reader) are outside it because fuel-types 0.5.3 cannot read its byte arrays from them.',
'C20':'The accepted language is an independent grammar; all short strings over an adversarial alphabet, all edits of valid strings up to the stated number, every digit count and wide characters.',
'C21':'All sequences of setters up to the stated depth; defaults against literal protocol constants.',
'C22':'Every accessor x every kind over field deviations and shapes; all short sequences of writes through mutable accessors.',
'C23':'mc-nostd links /repo without std and runs the same spaces against the same reference modules as the full build; both builds agreeing with one reference model is how they are compared.',
'C24':'SHA-256 over the parts computed independently; every bit of every part, every data length, all pairs of small part tuples for injectivity.',
'C25':'Two values deviating from one base in every combination of <= d field changes over both: equality, hash, order and conversions against the reference values.',
'C26':'mc-factory links the test-helpers crate; the random source is replaced by one the explorer answers for. What rand makes of the words, and key generation in fuel-crypto, are trusted.',
}
checks=[]; na=[]
for p in props:
    i=p['id']
    if i in claimed:
        checks.append(dict(property=i,quick_cmd=f'./run.sh {i} quick',thorough_cmd=f'./run.sh {i} thorough',
          technique='stateless bounded-exhaustive exploration of the real code against an executable reference model',
          level='model_checking',
          level_note=NOTE.get(i,'')+(' ' if i in NOTE else '')+'Exhaustive within the bounds listed per space in the evidence file (deviation-bounded choice trees, every leaf executed on the real code, no sampling); values and sizes outside those bounds are not covered, and the hand-written reference model is trusted.'))
    else:
        na.append(dict(property=i,reason='model checking applies, but the check is not built yet'))
m=dict(version=1,setup_cmd='./run.sh --build',checks=checks,not_applicable=na,
  notes='No hooks in /repo: every check uses the public API. fix: commits in /repo are listed in known_findings.txt.')
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1); open('/verif/MANIFEST.json','a').write('\n')
import jsonschema
jsonschema.validate(m,json.load(open('/root/.vp/MANIFEST.schema.json')))
print(len(checks),'claimed;',[x['property'] for x in na])
