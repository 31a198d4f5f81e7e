"""Single source of properties.jsonl and MANIFEST.json: run
    python3 tools/props.py
after editing. Only properties whose check exists in mc/checks are written."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C = 'elementstx/core/__init__.py'
S = 'elementstx/core/script.py'
SE = 'elementstx/core/secp256k1.py'
W = 'elementstx/wallet.py'
I = 'elementstx/__init__.py'
B = 'elementstx/blech32.py'
L = 'elementstx/liquid_addr.py'

# id: (title, statement, over, quantifier text, why_tests_cant, files, mechanism, state,
#      observe_at, technique, level_note)
P = {}

P['C01'] = (
    'Transactions survive the wire encoding unchanged',
    'Every Elements transaction, built from any combination of field values (peg-in inputs, issuances, '
    'confidential or explicit amounts, witness data or none, list lengths across the compact-size '
    'boundaries), is encoded exactly as the Elements wire format prescribes, and decoding those bytes '
    'gives back an equal transaction with the same fields. The transaction id and witness hash are the '
    'double SHA-256 of the encoding without and with witness data, and the virtual size is the one that '
    'follows from those two lengths. Each field survives on its own, whatever the values of the others.',
    ['inputs'],
    'All transactions within a bounded number of single-field changes of a set of base transactions over '
    'an alphabet of boundary values for every field, for mutable and immutable transactions.',
    'The existing tests decode and re-encode a handful of transactions from Elements Core; combinations '
    'such as an issuance on a peg-in input, a null amount or one missing witness entry never occur.',
    [C], [('transaction (de)serialization', C + ':CElementsTransaction.stream_serialize/stream_deserialize'),
          ('outpoint index flags', C + ':CElementsTxIn.stream_serialize/stream_deserialize'),
          ('issuance and witness records', C + ':CAssetIssuance, CElementsTxInWitness, CElementsTxOutWitness')],
    [('index flag bits', 'bits 31/30 of the outpoint index on the wire mean issuance / peg-in', C + ':CElementsTxIn')],
    ['serialize()', 'deserialize()', 'GetTxid()', 'GetHash()', 'get_virtual_size()'],
    'bounded exhaustive enumeration of field-deviation states against a reference codec',
    'Exhaustive within the deviation bound on the real code; the reference encoder is written from the '
    'Elements format and is itself replayed on the Elements Core transactions.')

P['C02'] = (
    'Decoding malformed transaction bytes fails or normalises exactly as specified',
    'For any byte string, decoding a transaction either succeeds exactly when a strict reading of the '
    'Elements wire format succeeds, with the same field values, or is refused with a serialization error: '
    'truncated data, trailing bytes, unknown flag bits, unknown confidential prefixes, superfluous witness '
    'data and non-canonical lengths are all refused. No byte string makes the decoder crash with another '
    'kind of error, or silently drop or invent data. The same holds of each part that can be decoded on '
    'its own: asset, value, nonce, issuance record, outpoint, input, output, and input, output and '
    'transaction witness (for given numbers of inputs and outputs; negative ones are refused).',
    ['inputs'],
    'Every truncation, every single-byte substitution, insertion and deletion, appended bytes and '
    're-encoded lengths of a set of valid encodings covering every optional part; pairs of substitutions '
    'in the small ones. The same mutations of each part.',
    'The existing tests contain no malformed encodings.',
    [C], [('flag and witness checks', C + ':CElementsTransaction.stream_deserialize'),
          ('prefix checks', C + ':CConfidentialCommitmentBase.stream_deserialize')], [],
    ['CElementsTransaction.deserialize()', 'CTransaction.deserialize()'],
    'bounded exhaustive enumeration of mutated encodings against a strict reference decoder',
    'Exhaustive over the stated edit neighbourhood of each base encoding, on the real code.')

P['C03'] = (
    'Confidential assets, amounts and nonces are classified and encoded exactly',
    'Every asset, amount or nonce field is exactly one of null, explicit or commitment as decided by its '
    'prefix byte and length; it encodes to its own bytes (null to a single zero byte), decodes back to an '
    'equal value, and any other prefix or length is refused. Explicit amounts and asset ids convert to and '
    'from their plain form without loss over the whole range, and reading a commitment or null as an '
    'explicit amount or asset is refused.',
    ['inputs'],
    'Every prefix byte with every length 0..40 for each kind of field, amounts around every power of two of '
    'the signed 64-bit range, byte-wise varied asset ids.',
    'Tests only see the prefixes and amounts that occur in a few sample transactions.',
    [C], [('commitment base class', C + ':CConfidentialCommitmentBase'),
          ('field kinds', C + ':CConfidentialAsset, CConfidentialValue, CConfidentialNonce')], [],
    ['is_null()', 'is_explicit()', 'is_commitment()', 'to_amount()', 'to_asset()', 'serialize()'],
    'bounded exhaustive enumeration of prefix/length/value space against a reference model',
    'Exhaustive in prefix and length; body bytes from three patterns.')

P['C04'] = (
    'Immutable transactions never change; copies are independent',
    'After any sequence of building, copying, converting between mutable and immutable forms and assigning '
    'fields, every transaction (and every part of one) has exactly the value that the sequence gave to that '
    'object: no assignment to one object shows up in another one, and conversions preserve the value. '
    'Every attempt to assign a field of an immutable transaction or part is refused, and data passed in by '
    'the caller cannot be used to change it later.',
    ['histories'],
    'All histories of one construction and up to 2 (3) conversions or field mutations on any object made so '
    'far, for transactions and for every kind of part.',
    'Aliasing shows only after particular sequences of conversions and mutations; the tests make one '
    'mutable transaction and never look at the original again.',
    [C], [('mutable/immutable dispatch', C + ':CElementsTransaction.__init__, from_instance'),
          ('witness containers', C + ':CElementsTxWitness, CElementsTxInWitness, CElementsTxOutWitness')], [],
    ['to_mutable()', 'to_immutable()', 'clone()', 'attribute assignment'],
    'explicit-state exploration of operation histories on the real objects against a value-semantics heap',
    'Every history within the depth bound; after each step every live object is compared with the model.')

P['C05'] = (
    'Transaction ids ignore witness data; hashes and equality cover everything',
    'Two transactions compare equal exactly when all of their fields agree, whatever mixture of mutable and '
    'immutable forms they are, and equal immutable objects have equal hash() values. The transaction id depends on '
    'everything except witness data: changing only witness data keeps the id and changes the witness hash, '
    'changing any other field changes the id. The same holds of inputs, outputs, issuances and witnesses '
    'as separate objects.',
    ['inputs', 'histories'],
    'All ordered pairs out of the one-field neighbourhood of base transactions, in mutable and immutable '
    'forms; every witness change from every state.',
    'Needs all pairs of almost-equal transactions; tests compare a transaction with itself.',
    [C], [('id and hash', C + ':CElementsTransaction.GetTxid/GetHash'), ('equality', C + ':CElementsTransaction')], [],
    ['==', 'hash()', 'GetTxid()', 'GetHash()'],
    'bounded exhaustive enumeration of all pairs of states in a deviation neighbourhood',
    'Exhaustive over the neighbourhood; assumes no SHA-256 collisions in it.')

P['C06'] = (
    'Segwit v0 signature hashes commit to exactly the prescribed fields',
    'For every transaction, input index, standard hash type, script and spent amount (explicit, confidential '
    'or null), the segwit v0 signature hash equals the one the Elements rules define, issuances included. '
    'The result is independent of whether the transaction is mutable, of what was hashed before, and of the '
    'network parameters that are active.',
    ['inputs', 'histories', 'configurations'],
    'All shapes of 1..3 inputs and 0..3 outputs and the one-field (two-field) neighbours of base '
    'transactions, all indices and hash types, 10 amounts, several scripts, 3 active networks.',
    'Tests sign a few fixed transactions; hash types with missing outputs, large lock times and null '
    'amounts do not occur.',
    [S], [('segwit branch of the signature hash', S + ':RawElementsSignatureHash')], [],
    ['RawElementsSignatureHash', 'CElementsScript.sighash()'],
    'bounded exhaustive enumeration against a reference signature-hash model',
    'Exhaustive within bounds on the real code; reference model written from the Elements rules.')

P['C07'] = (
    'Legacy signature hashes commit to exactly the prescribed fields',
    'For every transaction, input index, standard hash type and well-formed script, the pre-segwit signature '
    'hash equals the one the Elements rules define: issuances, peg-in flags, code separator removal and the '
    'out-of-range cases included. The transaction being hashed is never modified, and the result does not '
    'depend on the network parameters that are active.',
    ['inputs', 'histories', 'configurations'],
    'All shapes of 1..3 inputs and 0..3 outputs and their one-field (two-field) neighbours, all indices '
    'including one beyond the end, 6 hash types, scripts with code separators in every position, 3 active networks.',
    'The tests sign with one hash type inside one network context.',
    [S], [('legacy branch of the signature hash', S + ':RawElementsSignatureHash')], [],
    ['RawElementsSignatureHash', 'CElementsScript.sighash()'],
    'bounded exhaustive enumeration against a reference signature-hash model',
    'Exhaustive within bounds on the real code; well-formed scripts only.')

P['C08'] = (
    'Taproot and tapscript signature hashes commit to exactly the prescribed fields',
    'For every transaction, input index, hash type (default included), set of spent outputs, genesis hash, '
    'optional annex, and optional script path with code separator position, the taproot signature hash '
    'equals the one the Elements rules define; inputs out of range and a missing matching output are '
    'refused. The result does not depend on mutability or on the active network parameters.',
    ['inputs', 'histories', 'configurations'],
    'All shapes of 1..3 inputs and 0..3 outputs with and without witness entries, one-field neighbours of '
    'transactions and of the spent outputs, all indices, 7 hash types, key and script path, with and '
    'without annex.',
    'The existing tests never check a taproot signature hash against an expected value.',
    [S], [('taproot signature hash', S + ':ElementsSignatureHashSchnorr'),
          ('method form', S + ':CElementsScript.sighash_schnorr')], [],
    ['ElementsSignatureHashSchnorr', 'CElementsScript.sighash_schnorr()'],
    'bounded exhaustive enumeration against a reference signature-hash model',
    'Exhaustive within bounds on the real code; reference model written from the Elements taproot rules.')

P['C09'] = (
    'Issued asset and reissuance token ids are derived as in Elements',
    'For every spent outpoint and contract hash, the derived asset entropy, asset id and reissuance token '
    'id equal those of the Elements merkle construction, the token id depends on whether the issuance is '
    'confidential, and distinct inputs give distinct ids. The number of issuances of a transaction counts '
    'every issued asset amount and every issued token amount.',
    ['inputs'],
    'All combinations of txids, output indices and contract hashes of an alphabet with single-bit '
    'neighbours; all issuance combinations on up to 2 (3) inputs.',
    'Tests check one issuance of a recorded transaction.',
    [C], [('derivation', C + ':generate_asset_entropy, calculate_asset, calculate_reissuance_token'),
          ('counting', C + ':CElementsTransaction.num_issuances')], [],
    ['generate_asset_entropy', 'calculate_asset', 'calculate_reissuance_token', 'num_issuances'],
    'bounded exhaustive enumeration against an independent SHA-256 midstate model',
    'Exhaustive over the alphabet; replayed on every issuance of the Elements Core transactions.')

P['C10'] = (
    'Blinding conserves value: commitments open, balance, and carry valid proofs',
    'Whenever blinding reports success, every output or issuance amount it blinded becomes commitments that '
    'open to the original asset and amount under the reported blinding factors, each with a valid range '
    'proof bound to its output script and a surjection proof for an asset among the inputs and issuances. '
    'When everything requested was blinded, the blinding factors of the whole transaction sum to zero, so '
    'that it is accepted as balanced, also when several parties blind their own parts in turn or when '
    'outputs of one blinded transaction are spent in the next.',
    ['inputs', 'histories'],
    'All combinations of up to 2 inputs with every blinding state, issuance variants, up to 3 outputs of '
    'every kind, extra asset generators and proof parameters; chains and two-party blinding.',
    'The tests that check blinding need a library that is rarely installed and cover one recorded '
    'transaction each.',
    [C, SE], [('blinding', C + ':CElementsMutableTransaction.blind'),
              ('issuance blinding', C + ':blind_issuances (inner), generate_rangeproof'),
              ('value blinding factor balance', C + ':secp256k1_pedersen_blind_generator_blind_sum')], [],
    ['CElementsMutableTransaction.blind()', 'outputs, witnesses and the returned result'],
    'bounded exhaustive enumeration of blinding scenarios on the real code over a stand-in proof library, algebraic checks',
    'Real blinding code over a stand-in with real curve arithmetic (bound to Elements Core vectors bit for '
    'bit for commitments); proofs are those of the stand-in.')

P['C11'] = (
    'Exactly the holder of the blinding key can unblind an output',
    'Every output (or issuance) that was blinded for a key is unblinded by that key to the original asset, amount '
    'and the reported blinding factors, and the result can be used to spend that output in another blinded '
    'transaction. With a different key, a different script, or a different nonce, unblinding reports failure and '
    'never returns wrong values.',
    ['inputs', 'histories'],
    'Every blinded output of all enumerated scenarios with the right key and with every single wrong '
    'ingredient; chains of spend and re-blind.',
    'Tests unblind a few recorded outputs with the right key.',
    [C], [('unblinding', C + ':unblind_confidential_pair'), ('methods', C + ':CElementsTxOut.unblind_txout')], [],
    ['unblind_confidential_pair', 'CElementsTxOut.unblind_txout()', 'get_descriptor()'],
    'bounded exhaustive enumeration of blind/unblind histories on the real code over a stand-in proof library',
    'Exhaustive within the scenario bounds; rewinding is that of the stand-in library.')

P['C12'] = (
    'Blinding is exact about what it changed: counts, frame and failures',
    'Blinding changes nothing but the requested outputs and issuances: all other fields and outputs keep '
    'their values, and the reported counts and lists of blinding factors describe exactly what was blinded. '
    'A request that violates a precondition (mismatching list lengths, a fee output, an already blinded '
    'output, a missing key) is refused with an error result or exception before anything is modified; '
    'a transaction of which something requested could not be blinded is reported as a failure unless the '
    'caller opted out of that, in which case the counts say what was left; and no failure of the underlying '
    'cryptographic library is ever reported as success.',
    ['inputs', 'fault_sequences'],
    'All enumerated scenarios with every precondition violated in turn, and every call into the '
    'cryptographic library failing once.',
    'Failure paths depend on scenario combinations and on library failures that no test provokes.',
    [C], [('precondition checks', C + ':CElementsMutableTransaction.blind'),
          ('result types', C + ':BlindingSuccess, BlindingFailure')], [],
    ['CElementsMutableTransaction.blind()', 'BlindingSuccess', 'BlindingFailure'],
    'bounded exhaustive enumeration of scenarios x failure points on the real code with a fault-injecting library',
    'Exhaustive within the bounds, single faults.')

P['C13'] = (
    'Unblinding never accepts tampered or inconsistent data',
    'Unblinding reports success only if the asset and amount it returns really are the ones committed to: '
    'any change to the commitments, nonce, script, proof or key, and any proof made by a lying sender '
    '(wrong asset, wrong factors, amounts out of range, short messages) leads to a reported failure.',
    ['inputs'],
    'Every single-component tampering and every lying proof over an alphabet, for every kind of blinded output.',
    'Tests only unblind honest outputs.',
    [C], [('checks after rewinding', C + ':unblind_confidential_pair')], [],
    ['unblind_confidential_pair', 'CElementsTxOut.unblind_txout()'],
    'bounded exhaustive enumeration of adversarial proofs and tamperings on the real code over a stand-in proof library',
    'Exhaustive within the alphabet; proof system is a stand-in that signs arbitrary (also lying) contents.')

P['C14'] = (
    'Addresses round-trip, stay in their network, and typos are refused',
    'Every address of every kind, confidential or not, converts to its text form as Elements/Liquid defines '
    'it, parses back to an equal address of the same kind with the same script and blinding key, and is '
    'refused by every other network and by classes of other kinds. A text with any single character '
    'changed, inserted, removed or swapped, or with a wrong length or version, does not parse.',
    ['inputs', 'configurations'],
    '2 networks x 5 kinds x confidential or not x payloads x 3 active networks x all address classes; every '
    'single-edit neighbour of the texts; every version prefix.',
    'Tests parse a few fixed addresses.',
    [W, I, L, B], [('address classes and dispatch', W), ('confidential forms', W + ':CCoinConfidentialAddress and subclasses'),
                   ('network prefixes', I)], [],
    ['CCoinAddress(str)', 'str(address)', 'to_scriptPubKey()', 'from_scriptPubKey()'],
    'bounded exhaustive enumeration of addresses, classes, networks and edit neighbourhoods against reference codecs',
    'Exhaustive within the alphabets on the real code.')

P['C15'] = (
    'The confidential segwit address codec matches its specification',
    'Encoding any witness version and program with a blinding key gives the string that the blech32 / '
    'blech32m specification defines, with the checksum constant that belongs to the version; decoding '
    'accepts exactly the valid strings and returns exactly the encoded data. Strings with any one '
    'character error, or with two errors or mixed case, wrong prefix, bad padding or bad '
    'lengths are refused.',
    ['inputs'],
    'All versions and program lengths for several prefixes, every padding value, both checksum constants, every '
    'single edit, and all pairs of substitutions of the shortest strings.',
    'Tests check a few vectors.',
    [L, B], [('codec', L), ('data class', B + ':CBlech32Data')], [],
    ['liquid_addr.encode/decode', 'CBlech32Data'],
    'bounded exhaustive enumeration of codewords and their error neighbourhoods against a reference codec',
    'Exhaustive within bounds on the real code.')

P['C16'] = (
    'Confidential and unconfidential addresses convert into each other faithfully',
    'Adding a blinding key to any unconfidential address and removing it again gives back an equal address '
    'of the same kind and network, with the same script, and the blinding key is the one that was given. '
    'A confidential address counts as an instance of its own unconfidential class, and of those of no other '
    'kind or network. Invalid or missing blinding keys, and addresses of another network or kind than the class asked for, '
    'are refused.',
    ['inputs', 'histories', 'configurations'],
    'All address kinds, hashes, keys, active networks and confidential address classes; conversion chains '
    'up to length 4.',
    'Tests convert one address per kind in its own network.',
    [W], [('conversions', W + ':CCoinConfidentialAddress.from_unconfidential, to_unconfidential')], [],
    ['from_unconfidential()', 'to_unconfidential()', 'blinding_pubkey', 'to_redeemScript()'],
    'bounded exhaustive enumeration of conversion histories against a reference model',
    'Exhaustive within the alphabets on the real code.')

P['C17'] = (
    'Network selection is scoped and the classes in use follow it',
    'After any sequence of entering and leaving (normally or by an exception) network contexts, selecting '
    'networks, and calling library functions that succeed or fail, the active network is the one that the '
    'nesting of contexts says, and transactions, scripts, addresses and keys made through the generic '
    'classes are of that network. No library call changes the active network, and what one thread selects does '
    'not affect another thread.',
    ['histories', 'schedules'],
    'All histories of bounded depth over {enter, leave, leave by exception, select, successful call, failing '
    'call} with three networks; all operation-level interleavings of two threads.',
    'Tests set one network for a whole test case.',
    [I, C, W, S], [('network parameter classes', I), ('class dispatchers', C + ':CoreElementsClassDispatcher'),
                   ('temporary parameters', C + ', ' + S + ', ' + W)], [],
    ['get_current_chain_params()', 'CTransaction', 'CScript', 'CCoinAddress', 'CCoinKey'],
    'explicit-state exploration of operation histories and thread interleavings on the real code against a stack model',
    'Every history within the depth bound, every interleaving of two bounded threads at operation granularity.')

P['C18'] = (
    'Fee outputs, peg-out scripts and unspendable scripts are recognised exactly',
    'An output is a fee output exactly when its script is empty and both its amount and asset are '
    'explicit; a script is unspendable exactly when it is empty, starts with the return opcode or exceeds the '
    'size limit; a script is recognised as a peg-out, with its genesis hash and destination script, exactly when it has '
    'the peg-out form, however the data is pushed. No byte string makes these tests raise.',
    ['inputs'],
    'All token sequences up to length 4 (5) with all push encodings and truncations, single-byte neighbours '
    'of peg-out scripts, sizes around the limit, all combinations of output field values.',
    'Tests look at no peg-out script at all.',
    [C, S], [('fee test', C + ':CElementsTxOut.is_fee'), ('script tests', S + ':CElementsScript.is_unspendable, get_pegout_data, is_pegout')], [],
    ['is_fee()', 'is_unspendable()', 'is_pegout()', 'get_pegout_data()'],
    'bounded exhaustive enumeration of scripts and outputs against a reference parser',
    'Exhaustive within bounds on the real code.')

P['C19'] = (
    'Blinding keys are derived from the script as Elements defines',
    'For every derivation key and output script, the derived blinding key is the HMAC-SHA256 of the script '
    'under the derivation key as a compressed private key; the function and the script method agree and do '
    'not depend on the key class or active network.',
    ['inputs', 'configurations'],
    'Several keys x all script lengths up to 130 (1000) and every one-byte script x argument and key types '
    'x 3 networks.',
    'Tests check one recorded derivation.',
    [C, S], [('derivation', C + ':derive_blinding_key'), ('method', S + ':CElementsScript.derive_blinding_key')], [],
    ['derive_blinding_key'],
    'bounded exhaustive enumeration against HMAC-SHA256 of the standard library',
    'Exhaustive within bounds on the real code.')

P['C20'] = (
    'The cryptographic library is loaded completely, once asked for, from any thread',
    'Whichever threads ask first, and in whatever order, every caller gets a fully set-up library handle '
    'whose advertised capabilities match what it can do. Choosing a custom library path takes effect before '
    'first use, a bad path is refused without changing anything, and with a library that lacks confidential '
    'transaction support the operations that need it fail cleanly while everything else works.',
    ['schedules', 'histories', 'configurations'],
    'All interleavings of two threads with up to 2 preemptions at line granularity; all histories of bounded '
    'depth of path changes and uses with full, plain and bad libraries.',
    'A race on the first use cannot be hit by a test in one thread.',
    [SE, C], [('lazy initialisation', SE + ':get_secp256k1'), ('path selection', SE + ':set_custom_secp256k1_path'),
              ('function setup', SE + ':secp256k1_setup / _add_zkp_func_types')],
    [('library handle', 'process-wide, created on first use', SE + ':_secp256k1')],
    ['get_secp256k1()', 'set_custom_secp256k1_path()', 'secp256k1_has_zkp'],
    'systematic exploration of thread interleavings of the real code under a controlled scheduler; operation histories',
    'All schedules up to the preemption bound at source-line granularity.')

P['C21'] = (
    'Network constants and opcodes are those of Elements and Liquid',
    'Each supported network has the address prefixes, key formats, extended key versions, ports, coin limits, '
    'fee asset and data directory names of the real network, and every Elements-specific opcode has its real '
    'code and name in both directions, so that scripts print and parse consistently.',
    ['configurations', 'inputs'],
    'Every network name and alias, every constant; all opcodes in every position of scripts up to 3 opcodes.',
    'No test looks at most constants; one opcode was wrong.',
    [I, S, W, C], [('network parameters', I), ('opcodes', S), ('key and address prefixes', W)], [],
    ['ChainParams', 'CCoinAddress', 'CCoinKey', 'CElementsScript'],
    'exhaustive enumeration of the configuration space against tables from Elements Core',
    'Exhaustive over constants; one recorded finding (liquidv1 WIF prefix).')

P['C22'] = (
    'Taproot script trees follow Elements rules under any active network',
    'For every script tree, the merkle root, tweaked output key, parity, leaf versions and control blocks '
    'are those of the Elements taproot rules, every script can be found with a control block that proves '
    'it against the output key, and the address made from the tree pays to that key. The results do not '
    'depend on which network is active.',
    ['inputs', 'configurations'],
    'All tree shapes with up to 5 (6) scripts, leaf versions, several internal keys, 3 active networks.',
    'Tests build one tree.',
    [S, W], [('script tree', S + ':TaprootElementsScriptTree'), ('addresses', W + ':P2TRElementsAddress')], [],
    ['TaprootElementsScriptTree', 'P2TRElementsAddress.from_script_tree()'],
    'bounded exhaustive enumeration of tree shapes against a reference taproot model',
    'Exhaustive within bounds on the real code.')

P['C23'] = (
    'Range proof parameters follow the request and the coin rules',
    'Each range proof made while blinding uses the requested exponent and bit count (or the documented '
    'defaults), covers the real amount, and allows a zero amount only for unspendable outputs; the reported '
    'information about any range proof agrees with the proof, and malformed proofs are refused rather than '
    'misreported.',
    ['inputs', 'configurations'],
    'All combinations of exponents, bit counts, amounts around powers of two and ten and output kinds; every '
    'single-byte change of proof headers.',
    'Tests only read proof information of recorded transactions.',
    [C], [('proof creation', C + ':generate_rangeproof'), ('proof information', C + ':get_rangeproof_info')], [],
    ['get_rangeproof_info()', 'custom_ct_exponent/custom_ct_bits of blind()'],
    'bounded exhaustive enumeration of parameters on the real code over a stand-in proof library',
    'Exhaustive within the grid; proof format is that of libsecp256k1-zkp, written independently.')

P['C24'] = (
    'Independent operations in different threads do not disturb each other',
    'Two threads working at the same time on different transactions, scripts and addresses, possibly under '
    'different networks, get the results that each would get alone, for every interleaving.',
    ['schedules'],
    'All interleavings with up to 1 (2) preemptions at line granularity of pairs of operations.',
    'Tests are single-threaded.',
    [C, S, W, I], [('context-local network selection', C + ':CoreElementsClassDispatcher'), ('temporary parameters', S)], [],
    ['sighash', 'serialize', 'blind', 'addresses'],
    'systematic exploration of thread interleavings of the real code under a controlled scheduler',
    'All schedules up to the preemption bound at source-line granularity.')

P['C25'] = (
    'The separate building blocks of blinding are each correct and fit together',
    'The public steps of blinding, used on their own, agree with the Elements rules and with each other: for every '
    'asset, blinding factor, amount, script, key and proof parameter, the asset and value commitments are the '
    'prescribed ones, sender and receiver arrive at the same nonce, the range proof covers the amount, is bound to '
    'the script and carries asset and factor to the holder of the key, and a surjection proof is made exactly when '
    'the asset is among the targets and is then valid. Factors, sizes, amounts and parameters that cannot be '
    'committed to are refused. The results do not depend on which Elements network is active.',
    ['inputs'],
    'All combinations of boundary assets, factors (0, 1, N-1, N, 2^256-1), amounts (0 to 2^64-1), scripts, exponents '
    'and bit counts in the stated alphabets, and all target lists up to 4 (6).',
    'Wallets assemble outputs by hand from these; the values are points on a curve and only a second implementation '
    'can say what they must be, for every boundary value of each argument.',
    [C], [('commitments, nonces and proofs', C + ':blinded_asset, create_value_commitment, generate_rangeproof, '
           'generate_output_rangeproof_nonce, generate_surjectionproof')], [],
    ['blinded_asset', 'create_value_commitment', 'generate_rangeproof', 'generate_output_rangeproof_nonce',
     'generate_surjectionproof', 'unblind_confidential_pair'],
    'bounded exhaustive enumeration of argument states on the real code against a reference model of the algebra',
    'Exhaustive within the alphabets; the proof library is a stand-in validated against the model.')

P['C26'] = (
    'Printed forms are complete and can be read back',
    'The printed form (repr) of every transaction, input, output, outpoint, issuance, witness and confidential field '
    'shows all of its fields in the order of the constructor, so that reading it back gives an equal object of the '
    'same class, whatever fields are empty. The short form (str) shows the amounts and assets that are explicit, and '
    'says of the others that they are confidential. Printing never fails, whatever the scripts contain.',
    ['inputs'],
    'All transactions that differ from five base transactions in one (two) fields, all subsets of issuance fields, '
    'mutable and immutable, under three networks.',
    'An omitted or misplaced field shows only for particular combinations of empty and non-empty fields.',
    [C], [('printed forms', C + ':_repr_or_str, __repr__, __str__')], [],
    ['repr', 'str'],
    'bounded exhaustive enumeration of transaction states on the real code, read back and compared with the model',
    'Exhaustive within the deviation bound.')

P['C27'] = (
    'Signed inputs pass script verification, and altered ones do not',
    'For every usual kind of output (public key, public key hash, multisig, script hash, witness key hash, witness '
    'script hash, nested witness, with code separators), every hash type, explicit and confidential amounts, and every '
    'input of a transaction: an input that carries signatures over the hashes that Elements prescribes is accepted by '
    'script verification under any Elements network, mutable or not; and after any alteration of the transaction, the '
    'amount, the hash type or the position it is accepted exactly when the prescribed hashes are still the same.',
    ['inputs', 'histories'],
    'All one-field (thorough: also two-field) alterations of signed transactions of the stated shapes, all other '
    'amounts, hash types and inputs, for 10 kinds of outputs and 6 hash types.',
    'A signature that covers too little lets others alter the transaction, and one that covers too much is invalid on '
    'the network; both show only for particular combinations of hash type, position and altered field.',
    [C, S], [('sighash dispatch', S + ':RawElementsSignatureHash, CElementsScript.raw_sighash'),
             ('input encoding for signatures', C + ':CElementsTxIn.stream_serialize')], [],
    ['VerifyScript', 'VerifySignature'],
    'bounded exhaustive enumeration of sign-alter-verify histories on the real code against a reference model',
    'Exhaustive within the alteration bound; ECDSA and the interpreter of python-bitcointx are executed, not modelled.')

P['C28'] = (
    'Calls into the native library are well-formed, whatever the arguments',
    'Whatever is asked of the blinding functions, valid or not, every call that reaches the native library is '
    'well-formed: declared argument types, live handles, output buffers that are writable and have room for all that '
    'is written, inputs as long as what is read, counts that match the arrays, numbers that fit their C types. '
    'Arguments that would violate this (short factors, generators or commitments, negative or oversized amounts, '
    'exponents and bit counts) are refused instead of being truncated or read out of bounds.',
    ['inputs', 'histories'],
    'Every native call of all explored blinding and unblinding scenarios, and of the building blocks with factors and '
    'generators of 9 lengths, 15 amounts, 15 exponents and bit counts, and all target lists up to 4.',
    'A buffer that is too short or a truncated number usually goes unnoticed: nothing fails, memory is corrupted or '
    'another amount is committed to.',
    [C, 'elementstx/core/secp256k1.py'],
    [('native calls', C + ':blind_transaction, unblind_confidential_pair, generate_rangeproof, '
      'create_value_commitment, generate_surjectionproof, blinded_asset'),
     ('declared types', 'elementstx/core/secp256k1.py:_set_zkp_func_types')], [],
    ['blind_transaction', 'unblind_confidential_pair', 'generate_rangeproof', 'create_value_commitment',
     'generate_surjectionproof'],
    'bounded exhaustive enumeration of scenarios and arguments on the real code, every native call checked by a monitor',
    'Exhaustive within the alphabets; the sizes are those of the headers of the library.')

P['C29'] = (
    'The atomic-swap examples never cost an honest participant its funds',
    'When the example programs examples/asset-atomic-swap.py and examples/confidential-cross-chain-atomic-swap.py are '
    'run, a participant that follows the program and is not itself delayed ends either with what it was promised or '
    'with its own assets, less fees, whatever the other participant does: stop, fail, hang up, pause, act on an outdated '
    'view, pay wrongly, or send any altered message, at any point. When nothing goes wrong, both swaps complete.',
    ['fault_sequences', 'schedules', 'inputs'],
    'Every single fault of one participant at every call, wrong payment and variant of every field of every message, '
    'for wallets of 3 address types; thorough: every two faults of the cross-chain swap.',
    'The examples need two daemons and two participants; no test runs them, and a loss needs a fault of one participant '
    'at one particular point of the protocol.',
    ['examples/asset-atomic-swap.py', 'examples/confidential-cross-chain-atomic-swap.py', C, 'elementstx/wallet.py'],
    [('asset swap', 'examples/asset-atomic-swap.py:alice, bob'),
     ('cross-chain swap', 'examples/confidential-cross-chain-atomic-swap.py:alice, bob, wait_spend_reveal_transaction'),
     ('blinding of the claim and swap transactions', C + ':CElementsMutableTransaction.blind, unblind_confidential_pair'),
     ('addresses of the participants', 'elementstx/wallet.py:CElementsAddress, CCoinConfidentialAddress')],
    [('funds of a participant', 'coins of the block chain model that its wallet or script keys can spend',
      'mc/world.py in the harness')],
    ['sendrawtransaction', 'final holdings of both wallets'],
    'exhaustive exploration of all single faults (thorough: pairs) of a two-party protocol, real programs on a model of '
    'the block chains under a controlled scheduler with a logical clock',
    'Exhaustive within the alphabets of faults; block chains and wallets are a model.')

P['C30'] = (
    'Command line examples print exactly what a transaction holds, or refuse',
    'examples/unblind.py shows, for every output of a transaction, the amount, asset, blinding factors and address that '
    'it has if the key unblinds it, and never claims more about the others; '
    'examples/spend-to-confidential-address.py prints a valid transaction which spends the first output of the key, '
    'pays the fee of the funding transaction and all the rest to the given address, blinded for it if it is '
    'confidential, or prints nothing and fails.',
    ['inputs', 'configurations'],
    'All sequences of up to 3 (thorough: 4) outputs of 7 (10) kinds, to addresses of all types, in 4 networks; unblinding '
    'of all sets of up to 2 (3) outputs of 17 kinds.',
    'No test runs the examples; a wrong amount or receiver shows only for particular combinations of outputs, addresses and '
    'networks.',
    ['examples/unblind.py', 'examples/spend-to-confidential-address.py', C, 'elementstx/wallet.py'],
    [('unblinding', C + ':CElementsTransaction, CElementsTxOut.unblind_confidential_pair'),
     ('spending', C + ':CElementsMutableTransaction.blind'),
     ('addresses', 'elementstx/wallet.py:CElementsAddress.from_scriptPubKey, CCoinConfidentialAddress.from_unconfidential')],
    [], ['standard output and exit status of the programs'],
    'bounded exhaustive enumeration of transactions, addresses and networks, real programs, output compared with the '
    'reference model and judged by a block chain model',
    'Exhaustive within the alphabets.')

P['C31'] = (
    'Funds survive any history: what one transaction creates, the next can spend',
    'In every history of payments (blinded and explicit, to oneself and others), merges, splits, issuances, '
    'reissuances, burns, peg-ins and peg-outs which are built, blinded and signed with the library, every transaction '
    'is valid, and each owner finds, from its serialised form and its keys alone, exactly the coins that were meant for '
    'it, with factors and ids that suffice to spend or reissue from them in the next one. No asset is created, lost or '
    'locked.',
    ['histories', 'inputs'],
    'All histories of up to 3 (thorough: 4) transactions of 21 kinds from 4 initial wallets with coins of 3 script types.',
    'Tests replay single recorded transactions; a factor, id or order that is wrong in a way that the transaction itself '
    'does not show makes a later one impossible.',
    [C, 'elementstx/core/script.py', 'elementstx/wallet.py'],
    [('blinding', C + ':CElementsMutableTransaction.blind, unblind_confidential_pair'),
     ('issuance', C + ':generate_asset_entropy, calculate_asset, calculate_reissuance_token, CAssetIssuance'),
     ('signature hashes', 'elementstx/core/script.py:RawElementsSignatureHash'),
     ('addresses', 'elementstx/wallet.py:CCoinConfidentialAddress')],
    [('coins', 'outpoints with asset, amount and factors, as found by their owner', 'mc/checks/c31.py in the harness')],
    ['serialize', 'deserialize', 'blind', 'unblind_confidential_pair', 'sighash'],
    'exhaustive exploration of all operation histories up to a depth on the real code, every transaction judged by a '
    'block chain model',
    'Exhaustive within depth and alphabet; the chain validates scripts, signatures, balance of commitments and proofs.')

P['C32'] = (
    'Blinding hides: fresh secrets, and nothing visible depends on hidden values',
    'Every secret that blinding chooses (asset and value blinding factors but the one that balances, ephemeral keys, '
    'seeds of surjection proofs) is one 32-byte draw of the random source that was supplied (os.urandom if none), and no '
    'draw is used for two things. Two requests that differ only in what is hidden (amounts, hidden assets, blinding '
    'factors of the inputs) give transactions whose visible parts are equal: explicit fields, nonces, layout of the '
    'witness, parameters and sizes of the proofs, results and the number of draws.',
    ['inputs'],
    'All scenarios of C10 (1..2, thorough 1..3 inputs and outputs; 11 forms of issuance; options), and for each its twins.',
    'A reused or constant factor gives a valid transaction that unblinds correctly; only the relation between secrets, '
    'draws and pairs of executions shows it.',
    [C],
    [('blinding', C + ':CElementsMutableTransaction.blind'),
     ('nonces', C + ':generate_output_rangeproof_nonce'),
     ('proofs', C + ':generate_rangeproof, generate_surjectionproof')],
    [('secrets', 'the draws of the random source and what each is used for', 'mc/checks/c32.py in the harness')],
    ['blind', 'generate_output_rangeproof_nonce', 'generate_surjectionproof'],
    'exhaustive enumeration of blinding scenarios on the real code, each with the twins that differ in hidden values '
    '(self-composition)',
    'Exhaustive within the scenario alphabet; non-interference is checked on pairs of executions.')

P['C33'] = (
    'An operation that is interrupted leaves nothing behind',
    'If any call that the library makes to other code while it works (python-bitcointx, the native library, hashing, '
    'streams, the random source) is ended by an exception that is no answer of that code (an interruption, lack of memory), '
    'the same exception reaches the caller, and what outlives the operation is as before: the active network and the '
    'classes it stands for, all immutable objects and the mutable ones that are only read, the arguments (a transaction '
    'being blinded may be partly blinded, but only in what was to be blinded), the native library (no proof is leaked or '
    'released twice, a handle is complete or is set up again). The operation then works as if it had never been tried.',
    ['crash_points', 'fault_sequences'],
    'Every call out of the library made by 49 operations, 19 operations on shared objects, and blinding scenarios with '
    'issuances and options; 2 (4) network states; first use of the native library; pairs of interruptions of short operations.',
    'Tests never interrupt anything; state that leaks shows only in a later operation.',
    [C, S, W, I, SE],
    [('handle', SE + ':get_secp256k1'), ('surjection proof released', C + ':generate_surjectionproof'),
     ('class dispatch', S + ':CElementsScript.sighash')],
    [],
    ['sighash', 'blind', 'get_secp256k1', 'addresses', 'serialize'],
    'exhaustive fault injection on the real code: every call out of the library is interrupted, in every operation',
    'Exhaustive over calls that leave the library, for each operation; not at arbitrary bytecodes, and not in the calls '
    'that restore or release something.')

NOT_APPLICABLE = []


def main():
    props, checks = [], []
    for pid in sorted(P):
        (title, st, over, qtext, why, files, mech, state, obs, tech, note) = P[pid]
        assert len(title) <= 80, pid
        if not os.path.exists(os.path.join(HERE, 'mc/checks', pid.lower() + '.py')):
            continue
        props.append({
            'id': pid, 'title': title, 'statement': st,
            'quantifier': {'over': over, 'text': qtext},
            'why_tests_cant': why,
            'anchors': {'files': files,
                        'mechanism': [{'name': n, 'where': w} for n, w in mech],
                        'state': [{'name': n, 'meaning': m, 'where': w} for n, m, w in state],
                        'observe_at': obs, 'hook_needed': None}})
        checks.append({
            'property': pid,
            'quick_cmd': './run.sh %s quick' % pid,
            'thorough_cmd': './run.sh %s thorough' % pid,
            'evidence_file': 'evidence/%s.json' % pid,
            'technique': tech, 'level': 'model_checking', 'level_note': note})
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in props:
            f.write(json.dumps(p) + '\n')
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump({'version': 1, 'setup_cmd': './setup.sh', 'checks': checks,
                   'not_applicable': [{'property': p, 'reason': r} for p, r in NOT_APPLICABLE],
                   'notes': 'Bounded exhaustive exploration of the real code against an '
                            'independent reference model; see DESIGN.md.'}, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
