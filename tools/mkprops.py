#!/usr/bin/env python3
# Regenerates /verif/properties.jsonl (kept as a script so that the long records stay readable).
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=None)))
TX='src/transaction/types/'
p('C01','Transactions survive the binary round trip',
 'Encoding any transaction, input, output, witness, storage slot, UTXO id or transaction pointer and decoding the bytes gives back an equal value, for every variant and every field value (a predicate input with an empty predicate is the one form the wire cannot tell from its signed form). The encoding has exactly the advertised serialized size, decoding consumes exactly that many bytes, and bytes that follow the encoding never change the result.',
 ['inputs'],'Every transaction kind, every sequence of input/output kinds up to a bounded length, every field at boundary values (alone and in pairs/triples), every variable-length field at every length through several alignment periods and at powers of two, element counts far past the default limits.',
 'The tests sample a handful of transactions and random byte lengths; a defect tied to one variant at one alignment, to one pair of lengths, or to a count beyond 16 bits (storage slots) is reached by none of them.',
 [TX+'script.rs',TX+'create.rs',TX+'mint.rs',TX+'input.rs',TX+'output.rs',TX+'witness.rs',TX+'storage.rs',TX+'utxo_id.rs','src/tx_pointer.rs','src/transaction/txio.rs'],
 [('io::Read / io::Write / SizedBytes per type',TX+'*.rs'),('tagged dispatch','src/transaction/txio.rs')])
p('C02','The binary form is the specified canonical layout',
 'The bytes of every transaction, input, output, witness, storage slot, UTXO id and transaction pointer are the protocol layout: the fields in the specified order, numbers as 8-byte big-endian words, byte arrays raw, variable-length bytes preceded by their declared length word(s) and zero-padded to a multiple of 8. Writing into a caller buffer that is too short fails; into a larger one it touches exactly the advertised size and leaves the rest as it was; two different values never share an encoding (predicate inputs with empty predicates apart).',
 ['inputs'],'Same space as C01, plus every buffer length below the advertised size for representative values and several buffers beyond it.',
 'A symmetric change to writer and reader (field order, padding, length word) passes every round-trip test; nothing in the suite pins the bytes.',
 [TX+'script.rs',TX+'create.rs',TX+'mint.rs',TX+'input.rs',TX+'output.rs',TX+'witness.rs',TX+'storage.rs',TX+'utxo_id.rs','src/tx_pointer.rs'],
 [('io::Read (=encode) implementations',TX+'*.rs')])
p('C03','Decoding arbitrary bytes is total and safe',
 'Decoding any byte string as a transaction, input, output, witness, storage slot, UTXO id, transaction pointer or receipt either fails with an error or yields a value; it never panics, aborts, or allocates memory out of proportion to the input, and never reports more bytes consumed than it was given. Every strict prefix of a canonical encoding, and every unknown kind identifier, is rejected. A decoded value re-encodes to a canonical form that decodes to the same value again.',
 ['inputs','fault_sequences'],'For every kind in a corpus of encodings: every truncation, every 8-byte word replaced by boundary numbers (forged lengths, counts, tags), every pair of such words, every single byte changed to several values, all short strings over a small word alphabet, and every prefix at which the bytes can stop.',
 'Tests decode only bytes the library itself produced; forged lengths and counts need values no encoder emits.',
 ['src/transaction/txio.rs',TX+'script.rs',TX+'create.rs',TX+'mint.rs',TX+'input.rs',TX+'output.rs',TX+'witness.rs','src/receipt/receipt_std.rs'],
 [('io::Write (=decode) implementations',TX+'*.rs'),('TransactionRepr/InputRepr/OutputRepr TryFrom<Word>','src/transaction/repr.rs')])
p('C04','Receipts survive the wire and have the specified layout',
 'Every receipt encodes to the specified layout (8-byte identifier word, then its fields in order, data-bearing receipts carrying length, digest and zero-padded data), the bytes returned when it is encoded have the advertised size with every byte the layout does not use being zero, and decoding gives back an equal receipt. Every accessor of a receipt returns the field it names for exactly the variants that have it and nothing for the others.',
 ['inputs'],'All eleven receipt kinds, every field at boundary values alone and in pairs, every data length through several alignment periods and at powers of two, every panic reason and script result, dirty caller buffers.',
 'Tests take one literal instance per receipt kind; alignment of data, high field values, and the accessor-by-variant matrix are not enumerated.',
 ['src/receipt.rs','src/receipt/receipt_std.rs','src/receipt/receipt_repr.rs','src/receipt/script_result.rs'],
 [('Receipt Read/Write','src/receipt/receipt_std.rs'),('accessors','src/receipt.rs')])
p('C05','Transaction id commits to exactly the non-malleable content',
 'The id of a transaction is the SHA-256 of its canonical encoding with the witnesses removed and the execution-dependent fields cleared: the receipts root; a coin input\'s transaction pointer; a contract input\'s UTXO id, balance root, state root and transaction pointer; a contract output\'s roots; a change output\'s amount; a variable output\'s recipient, amount and asset; a message output\'s recipient and amount. Changing any of those never changes the id and changing anything else always does; a mint\'s id covers its whole encoding.',
 ['inputs'],'Every input/output shape within bounds, every field of every element changed singly and in pairs from distinct base values, compared against an independently built encoding and hash.',
 'The tests assert (in)equality for a few hand-picked fields on random transactions; they do not cover every field of every element at every position, nor the exact preimage.',
 ['src/transaction/id.rs',TX+'script.rs',TX+'create.rs',TX+'mint.rs',TX+'input.rs',TX+'output.rs'],
 [('UniqueIdentifier::id / PrepareSign','src/transaction/id.rs'),('prepare_sign',TX+'input.rs, '+TX+'output.rs')])
p('C06','Cached metadata is transparent',
 'After precomputing, the id, every offset and the serialized form agree with those of an equal transaction that has no cache, and precomputing again after any sequence of modifications refreshes all of them. Equality and hashing ignore caches altogether, an up-to-date cache never changes the binary or JSON encoding, and decoding a value never carries a cache over.',
 ['histories'],'All operation sequences up to a depth over {precompute, change a field, push/pop/replace inputs, outputs, witnesses, script/data/slots, clone, encode+decode, sign, prepare-for-VM} on all transaction kinds, compared step by step with a cache-free twin.',
 'Tests precompute once on a finished transaction; stale fields only appear after a particular order of mutation and recomputation.',
 ['src/transaction/metadata.rs',TX+'script.rs',TX+'create.rs',TX+'mint.rs','src/transaction/id.rs'],
 [('Cacheable::precompute',TX+'script.rs, create.rs, mint.rs'),('derivative PartialEq/Hash ignore',TX+'*.rs')],
 state=[('metadata','cached id and offsets','Script/Create/Mint')])
p('C07','Advertised offsets locate the bytes they name',
 'Every offset the API gives (scalar fields, script, script data, salt, storage slots, inputs, outputs, witnesses, the n-th element of each list, an input\'s predicate with its padded length, and the per-kind field offsets of inputs and outputs) is the position, in the encoding of that transaction, of the bytes that encode the named item, whether or not metadata is cached. An index past the end, or a predicate asked of an input that has none, gives nothing.',
 ['inputs'],'Every transaction kind x every sequence of element kinds within bounds x every variable length through alignment periods (pairs of lengths), every index including past the end, cached and uncached.',
 'Tests walk offsets of a few random transactions; an offset wrong only for one element kind, one alignment, or only when an earlier element has data escapes.',
 [TX+'script.rs',TX+'create.rs',TX+'mint.rs',TX+'input.rs',TX+'output.rs',TX+'input/repr.rs',TX+'output/repr.rs'],
 [('*_offset, *_offset_at, inputs_predicate_offset_at',TX+'*.rs'),('InputRepr/OutputRepr offsets',TX+'input/repr.rs, output/repr.rs')])
p('C08','Script and common validity rules decide exactly the specified set',
 'A script transaction passes the basic check at a height iff gas limit <= max gas, maturity <= height, counts, script, script-data, predicate, predicate-data and message-data lengths are within the parameters (equal to a limit is allowed), no coin UTXO id, contract id or message id repeats, no asset has two change outputs, predicates are non-empty, witness indices exist, each contract input is referenced by exactly one contract output and each contract output references a contract input, coin and change outputs use an input\'s asset (messages supply the base asset), and no output is a contract-created one. When it fails, the error names a rule that is really violated.',
 ['inputs','configurations'],'All input/output sequences up to a bound over alphabets with colliding ids/assets/indices, every numeric limit at limit-1, limit, limit+1 (alone and in pairs) under several parameter sets, duplicate pairs at every position of long lists.',
 'Tests cover one violation at a time at one position with default parameters; interactions between rules, the far end of lists, and non-default parameters are not enumerated.',
 ['src/transaction/checkable.rs',TX+'script.rs','src/transaction/checkable/error.rs'],
 [('check_common_part / Input::check_without_signatures / Output::check','src/transaction/checkable.rs'),('Script::check_without_signatures',TX+'script.rs')])
p('C09','Create validity rules decide exactly the specified set',
 'A create transaction passes the basic check iff the common rules hold and: the bytecode witness exists, is at most the maximum contract size and its length in 4-byte instructions equals the declared bytecode length; storage slots number at most the maximum and are sorted by key; it has no contract inputs and no contract or variable outputs; change outputs are of the base asset; and at most one output is contract-created. When it fails, the error names a rule that is really violated.',
 ['inputs','configurations'],'All input/output sequences over alphabets within bounds, bytecode lengths x declared lengths around limits and instruction boundaries, all slot-key orders up to a length, single inversions at every position of long slot lists, several parameter sets.',
 'Tests sample each rule once; slot order at every position, bytecode length arithmetic and rule interactions are not enumerated.',
 [TX+'create.rs','src/transaction/checkable.rs'],
 [('Create::check_without_signatures',TX+'create.rs')])
p('C10','Mint validity rules decide exactly the specified set',
 'A mint transaction is valid at a height iff its pointer\'s block height equals that height, it has no more outputs than the maximum, every output is a coin output and no two outputs share an asset. When it fails, the error names a rule that is really violated.',
 ['inputs','configurations'],'All output sequences up to a bound over an alphabet of kinds and assets, duplicate pairs at every position of long lists, heights and pointers at boundaries of 32 and 64 bits, output limits 0..255.',
 'Mint validity has almost no tests: neither each forbidden output kind at each position nor heights beyond 32 bits.',
 [TX+'mint.rs'],[('Mint::check_without_signatures',TX+'mint.rs')])
p('C11','Only the rightful owner authorises an input',
 'The signature check accepts iff, for every signed coin or message input, the witness at its index is a 64-byte signature over this transaction\'s id by the key whose address is the input\'s owner (or recipient), and, for every predicate input, the owner is the predicate\'s root. A transaction passes the full check iff it passes the basic check and the signature check.',
 ['inputs'],'All assignments of owners x witness contents (right signature, other key, other transaction, flipped byte, wrong length, empty, swapped) x witness indices for input sequences up to a bound, with every non-malleable and malleable field then altered after signing.',
 'Tests try a wrong signer once per input kind; sharing of witnesses, mixed inputs and changes after signing are a product space.',
 ['src/transaction/checkable.rs','src/transaction/id.rs',TX+'input.rs','src/transaction.rs'],
 [('Input::check_signature','src/transaction/checkable.rs'),('Input::owner / predicate_owner',TX+'input.rs')])
p('C12','Signing authorises the signer\'s inputs and nothing else',
 'Signing with a key places that key\'s signature over the transaction id in the witness of every signed input the key owns and leaves every other witness and every other field unchanged, including the id. After signing with the keys of all signed inputs, in any order and any number of times, the signature check passes (given predicate owners that are right and a witness slot no two owners share).',
 ['histories'],'All sequences of {sign with key k, precompute, change malleable field, re-sign} up to a depth x owner/witness-index assignments of inputs up to a bound, including shared and out-of-range indices.',
 'Tests sign once with one key in one order.',
 ['src/transaction/id.rs',TX+'input.rs'],[('Signable::sign_inputs','src/transaction/id.rs')])
p('C13','Fees and refunds are exact integer arithmetic',
 'The fee of a transaction is its metered bytes (the encoding without witnesses) times gas per byte times gas price over the price factor, rounded up, and in total the same with the gas limit added to the byte gas before pricing; a refund is the gas times the price over the factor, rounded down. A fee is refused only when an intermediate value exceeds 64 bits, a refund only when its value does, and neither is ever wrapped or truncated; refunding the unused gas never exceeds what was charged for it.',
 ['inputs','configurations'],'Full product of boundary values (0, 1, factor+-1, 2^32+-1, 2^63, 2^64-1 and the exact overflow frontiers) for price, limit, size, gas-per-byte and factor, against unbounded-integer arithmetic.',
 'Tests take a few values; rounding and overflow frontiers are thin sets in a 5-dimensional space.',
 ['src/transaction/fee.rs',TX+'script.rs',TX+'create.rs'],[('TransactionFee::checked_from_values','src/transaction/fee.rs'),('TransactionFee::gas_refund_value / Chargeable','src/transaction/fee.rs')])
p('C14','Checked balances conserve value per asset',
 'The checked metadata of a valid script or create gives, for every asset of its inputs, exactly the sum of its inputs (messages count as base asset) minus the maximum fee (base asset only) minus its coin outputs, along with the fee figures and block height used. Beyond the validity rules the check fails exactly when an asset does not cover the fee or, in order, a coin output (naming asset, the amount required and the amount left for it), or when a sum exceeds 64 bits; no sum ever wraps.',
 ['inputs','configurations'],'All input/output sequences up to a bound over assets x amounts at boundaries (0, 1, 2^63, 2^64-1), all fee settings, all orders, against arbitrary-precision accounting.',
 'Tests use small amounts; sums past 64 bits and order-dependent underflow are not reached.',
 ['src/checked_transaction.rs'],[('initial_free_balances / CheckedMetadata','src/checked_transaction.rs')])
p('C15','A Checked transaction carries exactly the checks performed',
 'A checked wrapper can only be obtained from a transaction that satisfies the basic rules; it holds the transaction unchanged with its id and offsets freshly computed (whatever cache it came with), and records as performed precisely the checks that succeeded on it, through any sequence of conversions and further checks. Checking through the generic transaction type gives the same verdict, error, status and metadata as through the specific one, and a failed check returns an error rather than a wrapper.',
 ['histories'],'All sequences up to a depth over {into_checked_basic, into_checked, check_signatures, conversion to and from the generic checked type, clone, unwrap, mutate and re-check} on valid, basic-invalid, signature-invalid and stale-cache transactions of each kind.',
 'Tests construct each wrapper once; status after conversion chains and stale caches are history properties.',
 ['src/checked_transaction.rs',TX+'script.rs',TX+'create.rs',TX+'mint.rs'],
 [('Checked / CheckedTransaction / IntoChecked','src/checked_transaction.rs')],
 state=[('checks_bitmask','which checks were performed','Checked')])
p('C16','Contract ids, code roots and state roots are the specified commitments',
 'A contract\'s code root is the binary Merkle root of its bytecode in 8-byte zero-padded chunks, its state root is the sparse Merkle root of its initial slots independent of slot order, its id is the hash of prefix, salt, code root and state root, and a predicate\'s owner is the code root of the predicate. A contract taken from a create transaction is the bytecode in the designated witness; predicate ownership holds iff the owner equals that root; any other transaction gives no contract.',
 ['inputs'],'Every bytecode length through many chunk boundaries and powers of two, all slot sets over keys colliding on prefix bits in every order, salts/roots changed byte by byte, against an independent Merkle implementation.',
 'Insta snapshots fix a few inputs; tree shape at each leaf count, order independence and sensitivity are not enumerated.',
 ['src/contract.rs',TX+'input.rs',TX+'create.rs'],[('Contract::root_from_code / initial_state_root / id','src/contract.rs'),('Input::predicate_owner',TX+'input.rs')])
p('C17','Preparation for the VM clears exactly the specified fields',
 'Preparing a transaction for script execution zeroes exactly the message output\'s recipient and amount, the change output\'s amount, and the variable output\'s recipient, amount and asset; preparing it for predicate verification additionally zeroes the input and output fields that the transaction id ignores. Nothing else changes, a second preparation changes nothing, and neither changes the id.',
 ['inputs','histories'],'Every input/output kind at every position of sequences within bounds with distinct non-zero fields, all sequences of the two preparations up to a depth.',
 'Two hand-written tests; per-field per-variant exactness is a matrix.',
 ['src/transaction.rs',TX+'input.rs',TX+'output.rs'],[('prepare_init_script / prepare_init_predicate','src/transaction.rs')])
p('C18','The builder produces the transaction its calls describe',
 'A builder finalises to the transaction made of exactly the settings and elements given to it, in call order: each unsigned coin or message input gets a fresh witness slot (while an 8-bit index can name one), the owner derived from the key and (for messages) the computed message id; scripts are prepared for execution by default, and every keyed input is correctly signed unless signing is skipped. The result equals direct construction from the same parts, has its metadata computed, and a create\'s bytecode length and witness index describe the bytecode given; a builder used again after finalising starts from the default transaction.',
 ['histories'],'All call sequences up to a depth over the builder API for each transaction kind, each ending in every finalisation, compared with an independent assembly.',
 'Tests use the builder as a fixture, never as the subject; order effects between witnesses and unsigned inputs need sequences.',
 ['src/builder.rs','src/transaction.rs'],[('TransactionBuilder','src/builder.rs'),('add_unsigned_*_input','src/transaction.rs')])
p('C19','JSON and serde forms preserve every value',
 'Serialising any transaction, receipt, input, output, witness, storage slot, UTXO id, pointer or parameter set with serde (to JSON text or compact binary in memory) and reading that back gives an equal value with all fields exact and no cached metadata. Text that is not the JSON of a transaction gives no transaction, and parameters read from JSON keep the default for every field that is missing.',
 ['inputs'],'Same corpus as C01/C04 with 64-bit boundary numbers; every subset of missing parameter fields; every single-token deletion of sample JSON documents.',
 'One or two serde tests; large numbers, every variant and partial parameter sets are not covered.',
 ['src/transaction.rs','src/receipt.rs','src/transaction/consensus_parameters.rs',TX+'*.rs'],[('serde derives','src/**'),('Transaction::to_json/from_json','src/transaction.rs')])
p('C20','Text forms of UTXO ids and transaction pointers are exact',
 'A UTXO id formats as 64 hex digits of id and two of index, a transaction pointer as eight of height and four of index, lower or upper case as asked (a UTXO id with 0x in front in alternate form), and parsing a formatted UTXO id or unprefixed pointer gives back the same value. Parsing accepts, in either digit case, a UTXO id of one optional 0x prefix and 66 digits, or at most two digits (the index of the zero id, none meaning 0), and a pointer of exactly 12 digits. Any other string is rejected with an error, never a panic.',
 ['inputs'],'All values with boundary digits, all strings up to a length over an alphabet with hex digits, separators, sign, prefix, whitespace and multi-byte characters, every single-character edit of valid strings.',
 'Tests parse a few strings; slicing at byte positions breaks only on specific lengths and multi-byte text.',
 [TX+'utxo_id.rs','src/tx_pointer.rs'],[('FromStr / LowerHex / UpperHex / Display',TX+'utxo_id.rs, src/tx_pointer.rs')])
p('C21','Consensus parameters hold what they are given',
 'Every parameter setter changes exactly the parameter it names to exactly the value given, in any order and combination; defaults are the documented protocol constants, and the deprecated constant set agrees with them. The transaction offset in VM memory is 32 bytes of id, a word of size and 40 bytes per allowed input.',
 ['histories','configurations'],'All setter sequences up to a depth over boundary values, every pair of parameters, defaults compared field by field.',
 'No test sets parameters in combination and reads the others back.',
 ['src/transaction/consensus_parameters.rs'],[('with_* setters, tx_offset','src/transaction/consensus_parameters.rs')])
p('C22','Accessors report the element\'s own fields',
 'Every accessor and kind predicate of an input, output or transaction returns the field it names for exactly the kinds that carry it, and nothing (or false) for the others; a write through a mutable accessor changes that field and no other. The enumerations of a transaction\'s input assets list every coin asset and the base asset for messages in input order (the unique form without repeats), and of its contracts list each contract id once in order of first appearance.',
 ['inputs'],'The full matrix of accessors by variants with distinct field values, and all input sequences up to a bound over colliding assets and contracts.',
 'Accessors are used incidentally by tests; the matrix is not covered.',
 [TX+'input.rs',TX+'output.rs','src/transaction.rs'],[('accessors',TX+'input.rs, output.rs'),('Executable','src/transaction.rs')])
p('C23','The reduced (no-std) build behaves like the full one',
 'Built without the standard library feature, the crate gives the same validity verdicts, unique input assets, sizes, offsets, message ids, state-independent constructors and parameter behaviour as the full build on every input. No operation available in both differs in result (the order in which unique assets are listed, and which of several violated rules or repeated elements an error names, aside).',
 ['inputs','configurations'],'The validity spaces and shape corpora of C07-C10, C13, C22 executed by two builds of the crate and compared case by case.',
 'The test suite runs only with std; the cfg(not(std)) paths are never executed.',
 ['src/transaction/checkable.rs','src/transaction.rs','src/lib.rs'],[('cfg(not(feature="std")) alternatives','src/transaction/checkable.rs, src/transaction.rs')])
p('C24','Message ids, nonces and digests are consistent across the system',
 'A message\'s id is the hash of sender, recipient, nonce, amount (8 bytes big-endian) and data, in that order, where an input\'s nonce is an 8-byte number and an output\'s a 32-byte hash; a receipt made from a message output carries that id, a nonce that is the hash of the transaction id and the one-byte output index, the digest of its data, its word-aligned length, and the parts it was given. Distinct parts give distinct ids, and message inputs built by the transaction builder carry their computed id.',
 ['inputs'],'Full product of boundary values for each part, each data length through alignment periods, every output index, against an independent hash of the specified preimage.',
 'Tests compare the library with itself; field order or width in the preimage is not pinned.',
 [TX+'input.rs',TX+'output.rs','src/receipt.rs'],[('compute_message_id / message_id / message_nonce / message_digest',TX+'input.rs, output.rs, src/receipt.rs')])
p('C25','Values compare, order and convert exactly by content',
 'Two transactions, inputs, outputs, witnesses, slots, identifiers or receipts are equal exactly when they are of the same kind and all their fields are equal (caches and the contract a panic receipt names aside), equal values hash alike, and a clone is equal. UTXO ids order by transaction id then index, transaction pointers by height then index, storage slots by key alone. Kind numbers (transaction, input, output) and script results convert to and from the words of the wire form and no other number names a kind; 64 bytes convert to a slot\'s key and value and back, bytes to witnesses and contracts and back, unchanged; every default value is the documented empty one, the default transaction being a valid script of one return instruction.',
 ['inputs'],'Pairs of values deviating from a common one in all combinations of a bounded number of field changes, all pairs of boundary identifiers, all numbers around powers of two, all byte lengths through a bound.',
 'Tests compare a few values; equality and order of derived types is taken for granted, and a field left out of a hand-written comparison changes nothing they look at.',
 ['src/transaction.rs','src/receipt.rs',TX+'utxo_id.rs','src/tx_pointer.rs',TX+'storage.rs','src/transaction/repr.rs',TX+'witness.rs','src/contract.rs'],[('PartialEq/Hash of the value types',TX+'script.rs, create.rs, mint.rs, src/receipt.rs'),('Ord of StorageSlot, UtxoId, TxPointer',TX+'storage.rs, utxo_id.rs, src/tx_pointer.rs'),('From/TryFrom',TX+'storage.rs, witness.rs, src/transaction/repr.rs, src/receipt/script_result.rs, src/contract.rs')])
p('C26','Generated test values are well-formed whatever the random source yields',
 'A transaction made by the test factory is well-formed for every random source: each keyed input is correctly signed and its key returned in input order, each predicate is non-empty, a multiple of 8 bytes long and owns its input, a create\'s declared length is that of its bytecode, and metadata is computed. Equal sources give equal transactions, every kind of input and output and empty lists occur, and random UTXO ids, pointers, slots and witnesses (of fewer than 512 bytes) can take every value.',
 ['inputs','histories'],'The random source is the nondeterminism: base sequences with every single early answer, and every pair of them, replaced by words that put a bounded draw at each of its levels; every seed of an initial range; sources of one repeated byte.',
 'Every other test starts from these values: a factory that stops making a kind of input, or makes one wrongly, silently weakens the whole suite instead of failing it.',
 ['test-helpers/src/lib.rs',TX+'utxo_id.rs','src/tx_pointer.rs',TX+'storage.rs',TX+'witness.rs'],[('TransactionFactory, generate_bytes',"test-helpers/src/lib.rs"),('Distribution<_> for Standard',TX+'utxo_id.rs, storage.rs, witness.rs, src/tx_pointer.rs')])
with open('/verif/properties.jsonl','w') as f:
    for r in P: f.write(json.dumps(r,ensure_ascii=False)+'\n')
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for r in P:
    jsonschema.validate(r,s); assert r['statement'].count('. ')<=2,(r['id'])
print(len(P))
