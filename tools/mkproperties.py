"""writes properties.jsonl (kept as a program so that the lines stay readable)"""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech],
         'observe_at': observe, 'hook_needed': None}
    if state:
        a['state'] = [{'name': n, 'meaning': m} for n, m in state]
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why, 'anchors': a})


CORE = 'elementstx/core/__init__.py'
SCR = 'elementstx/core/script.py'
SEC = 'elementstx/core/secp256k1.py'
WAL = 'elementstx/wallet.py'
ADR = 'elementstx/liquid_addr.py'
BLE = 'elementstx/blech32.py'
INI = 'elementstx/__init__.py'

p('C01', 'Transactions survive the wire, storage, crashes and conversions',
  'Any transaction that is built, edited, converted, stored or sent is encoded exactly as the Elements wire format says, '
  'and reading those bytes back (from memory, from a stream that holds several records, or after a crash) gives a transaction '
  'whose every field, identifier, witness and re-encoding is the same. Synced records are never lost, a record that was torn by a '
  'crash is never returned, and every component (input, output, outpoint, witness, issuance, commitment) has the same guarantee on its own.',
  ['histories', 'crash_points', 'inputs'],
  'all histories of building, editing, converting, storing, sending, crashing and reloading transactions of any shape',
  'The tests round-trip a handful of recorded transactions; they never edit, mix witness shapes, issuances and peg-ins freely, '
  'store several records in one stream or stop in the middle of one.',
  [CORE], [('stream_serialize / stream_deserialize of every class', CORE), ('to_mutable / to_immutable / from_tx', CORE)],
  ['serialize()', 'stream_serialize()', 'stream_deserialize()', 'GetTxid()', 'GetHash()', 'num_issuances'],
  [('append-only wallet file', 'records appended through the stream interface; synced prefix survives a crash')])
p('C02', 'Damaged or cut-short data never passes for a transaction',
  'Bytes that the Elements wire format does not admit (cut short at any point, with unknown flag or commitment prefix, with non-canonical '
  'or excessive lengths, or with an all-empty witness) are refused with an error, and bytes that it admits are accepted with exactly the content and length the '
  'format assigns to them, whatever damage a disk or network did. An I/O error during reading or writing reaches the caller, '
  'what was written before it is a prefix of the right encoding, and the transaction being written does not change.',
  ['fault_sequences', 'inputs'],
  'all sequences of bit flips, insertions, deletions, splices, truncations, short reads, torn writes and I/O errors on valid records',
  'The tests only decode well-formed recorded transactions and inject no faults; the set of damaged inputs and fault points is unbounded.',
  [CORE], [('flag byte check, superfluous witness check', CORE), ('commitment prefix check', CORE), ('ser_read / VarInt limits', 'bitcointx.core.serialize')],
  ['deserialize()', 'stream_deserialize()', 'stream_serialize()'])
p('C03', 'Immutable objects never change and copies never share state',
  'The content, encoding, identifiers, equality and hash of an immutable transaction, or of any immutable part of one, never change after it was created, '
  'whatever is later done to the objects and buffers it was made from, and attempts to assign to its attributes are refused. Converting or copying gives an object that shares no mutable state '
  'with its source: editing one is never visible in the other, and identifiers of a mutable transaction always reflect its present content.',
  ['histories'],
  'all histories of building objects out of each other (from lists, byte buffers, mutable and immutable parts), converting, editing and observing',
  'Aliasing only shows in particular sequences of build, convert and edit steps; the tests contain a few fixed ones.',
  [CORE], [('constructors copy their arguments, to_immutable / from_instance', CORE), ('slots and setattr guards of ImmutableSerializable', 'bitcointx.core.serialize')],
  ['serialize()', '__eq__', '__hash__', 'GetTxid()', 'attributes'])
p('C04', 'Chain selection in one task or thread never disturbs another',
  'Under any interleaving of tasks and threads, each of which selects Elements, Liquid or Bitcoin parameters (temporarily or for itself), every operation '
  'uses the parameters of the task or thread that asked for it: addresses, transactions, scripts and keys made there belong to its chain. When a temporary selection ends, by normal exit, '
  'by an exception or by cancellation, the previous selection is in force again.',
  ['schedules', 'fault_sequences'],
  'all interleavings of concurrent tasks and threads switching chains, with exceptions and cancellations at any point',
  'The tests run one thread and switch parameters in straight-line code.',
  [INI, CORE, WAL, SCR], [('class dispatchers of each chain, context variables', 'bitcointx.util, ' + WAL), ('chain parameter classes', INI)],
  ['get_current_chain_params()', 'CCoinAddress(...)', 'CTransaction(...)', 'CScript(...)'],
  [('current chain parameters and class dispatch context', 'per thread and per task')])
p('C05', 'Concurrent first use always gets a complete cryptography library',
  'Whichever threads use the confidential operations first and however they interleave, each gets a library handle with all functions declared, all contexts '
  'created and all capabilities reported, never a partial one, and the operation works; the path set by the user is the one that is loaded. If loading or initialisation fails at any step, every caller gets an error, '
  'no partial state is kept and a later attempt succeeds; with a library that lacks the confidential functions the handle says so.',
  ['schedules', 'fault_sequences', 'configurations'],
  'all interleavings of concurrent first uses, with failure of any load or initialisation step, with full, partial and missing libraries',
  'The tests initialise the library once, in one thread, and nothing fails.',
  [SEC, INI], [('lazy initialisation in get_secp256k1', SEC), ('custom library path', INI + ', elementstx/util.py')],
  ['get_secp256k1()', 'set_custom_secp256k1_path()', 'native call log'],
  [('process-wide library handle', 'set once, after everything is initialised')])
p('C06', 'A successfully blinded transaction is valid for the network',
  'When blinding in the default strict mode reports success for a balanced transaction, the resulting transaction is accepted by the network rules: amounts of each asset balance in committed form, every '
  'range proof verifies against its commitment, asset and script, every surjection proof verifies against the inputs and issuances of the transaction, and issued assets and tokens '
  'have the identifiers the network computes. The transaction can also be encoded, sent and read back unchanged.',
  ['inputs', 'histories', 'configurations'],
  'all balanced transactions with any mix of explicit and confidential inputs and outputs, several assets, issuances, reissuances, fees, proof parameters and randomness, in chains of transactions on a ledger',
  'The tests need secp256k1-zkp, blind a few recorded transactions and check neither proofs nor balance.',
  [CORE], [('blind_transaction', CORE), ('generate_rangeproof, generate_surjectionproof, create_value_commitment, blinded_asset', CORE)],
  ['blind()', 'reference node: amounts, range proofs, surjection proofs'])
p('C07', 'The report of a successful blinding is truthful',
  'The number of blinded outputs and issuances, and the blinding factors returned for each output, are those of the transaction: each pair opens the commitments of its output '
  'to the original amount and asset, outputs that were not blinded have zero factors and keep their content, and in strict mode everything that was asked for was blinded. Inputs, scripts, sequence numbers, '
  'lock time, version and existing witnesses are untouched, and the proofs carry the requested range parameters.',
  ['inputs', 'configurations'],
  'all blinding requests in strict and lenient mode, with any subset of outputs and issuances selected and any proof parameters',
  'The tests check the returned factors of a few transactions by spending them; nothing is said about untouched parts or counts.',
  [CORE], [('blinding_result', CORE), ('output_blinding_factors', CORE), ('get_rangeproof_info', CORE)],
  ['BlindingSuccess', 'commitments of the transaction', 'get_rangeproof_info()'])
p('C08', 'A refused blinding request leaves the transaction as it was',
  'A blinding request that is malformed or impossible (wrong counts or types, unknown input asset, invalid keys, already confidential or already proven targets, keys for missing '
  'issuances, bad auxiliary generators, fee outputs) is refused with an error or a failure result that names a reason, and the transaction is then byte for byte what it was before the request. '
  'The caller can correct the request and blind the same object successfully.',
  ['inputs', 'histories'],
  'all malformed or impossible requests, one or several defects at a time, at any position, in histories of refused and corrected requests',
  'The tests contain no failing blinding request.',
  [CORE], [('argument validation and early BlindingFailure returns', CORE)],
  ['blind()', 'serialize() before and after'])
p('C09', 'Failures of the native library or of randomness are never taken for success',
  'If any native cryptographic call fails, or the source of randomness raises, at any point during strict blinding or unblinding, the caller gets an exception or a failure result and never a success whose transaction is not valid. '
  'Native proof objects are released exactly once on every path, and a new attempt on a fresh copy succeeds.',
  ['fault_sequences', 'crash_points'],
  'every native call and every request of randomness made during blinding and unblinding, failing at any occurrence, alone or in sequence',
  'No native call fails during the tests.',
  [CORE, SEC], [('checks of return values', CORE), ('try/finally around the surjection proof', CORE)],
  ['blind()', 'unblind_confidential_pair()', 'native allocation counters'])
p('C10', 'Only the owner can unblind an output, and is never deceived',
  'The holder of the blinding key of an output recovers exactly its amount, asset and blinding factors; anybody else, and anybody given altered, swapped or cut-short commitments, nonce, script or proof, gets a failure result. '
  'A success result always opens the commitments it was given, also when the sender is malicious, and its amount is within the money range.',
  ['inputs', 'fault_sequences'],
  'all outputs and issuances made by honest or malicious senders, seen by any receiver, through a network that alters, swaps and truncates data',
  'The tests unblind a few recorded outputs with the right keys.',
  [CORE], [('unblind_confidential_pair', CORE), ('generator comparison after rewind', CORE)],
  ['unblind_confidential_pair()', 'UnblindingSuccess.get_descriptor()'])
p('C11', 'A wallet restored from its seed finds all its confidential coins',
  'Blinding keys derived from a master blinding key and a script depend on nothing else, agree with the standard derivation (HMAC-SHA256 of the script) and are reproduced by a restored wallet, on any chain and in any process. '
  'Given the master key and the public ledger alone, a wallet that lost all other state recovers every coin sent to its confidential addresses, with the amount, asset and factors that it can spend, and none that belongs to others. The text forms of keys are those of the network: a backup written by this or by other software of the network is read as what it is, and a mistyped one, or one with the version bytes of another network, is refused.',
  ['histories', 'crash_points'],
  'all histories of wallets that receive, spend, crash and restore from seed over a shared ledger',
  'The tests check one derivation vector.',
  [CORE, SCR, WAL], [('derive_blinding_key', CORE), ('CElementsScript.derive_blinding_key', SCR)],
  ['derive_blinding_key()', 'unblind_confidential_pair()', 'blind()'])
p('C12', 'Parties that do not trust each other can blind one transaction together',
  'Several parties, each of which knows only its own inputs and supplies public asset commitments for the inputs of the others, can blind their own outputs of one transaction in turn, with messages lost, repeated, '
  'delayed or reordered and parties restarting; no step disturbs outputs that others have blinded. When all have succeeded, the transaction is valid for the network and every owner can unblind and later spend its outputs.',
  ['schedules', 'fault_sequences', 'histories'],
  'all schedules of multi-party blinding protocols with message and crash faults, with any division of inputs, outputs and assets among the parties',
  'The tests have a single blinding party.',
  [CORE], [('auxiliary_generators', CORE), ('targets that were not supplied by the caller', CORE)],
  ['blind()', 'reference node', 'unblind_confidential_pair()'])
p('C13', 'Signatures commit to what the Elements rules say (legacy and segwit)',
  'The hash that is signed for a legacy or segwit version 0 input is the one the network computes, for every hash type, script, input position, confidential or explicit amount, issuance and peg-in, also while parties edit, exchange and re-read the transaction. '
  'A signature therefore stays valid exactly as long as the parts it commits to stay as they were; computing a hash changes nothing, and a hash type without a matching output is refused by the checked form.',
  ['histories', 'inputs'],
  'all multi-party histories of editing, signing, exchanging and verifying, for all hash types and transaction shapes',
  'The tests contain fixed vectors for few hash types; they do not cover issuances, peg-ins, high lock times or combinations.',
  [SCR, CORE], [('RawElementsSignatureHash', SCR), ('serialization for sighash', CORE)],
  ['sighash()', 'raw_sighash()', 'sign / verify'])
p('C14', 'Signatures commit to what the Elements rules say (taproot)',
  'The hash that is signed for a taproot key spend or script spend is the one the network computes, for every hash type, genesis block, annex, leaf script, code separator position, spent outputs, issuances, peg-ins and proofs, also while parties edit, exchange and re-read the transaction. '
  'A signature therefore stays valid exactly as long as the parts it commits to stay as they were, and requests that the rules do not define are refused.',
  ['histories', 'inputs'],
  'all multi-party histories of editing, signing, exchanging and verifying, for all hash types and transaction shapes',
  'The tests contain no taproot signature of an Elements transaction.',
  [SCR], [('ElementsSignatureHashSchnorr', SCR), ('CElementsScript.sighash_schnorr', SCR)],
  ['ElementsSignatureHashSchnorr()', 'sighash_schnorr()'])
p('C15', 'Issued assets and tokens keep one identity through their life',
  'The asset and reissuance token identifiers that the library computes for an issuance are those of the network, distinct for distinct issuing outpoints or contracts, and stay the same for blinded and unblinded issuance of the asset, for reissuance, and in every later transaction; the token '
  'identifier differs between confidential and explicit issuance as the network requires. Amounts of each asset on the ledger are conserved except through issuance and destruction.',
  ['histories', 'crash_points'],
  'all ledger histories with issuances, reissuances by token holders, transfers, re-sent and reordered transactions and restarts',
  'The tests compute identifiers of a few recorded issuances.',
  [CORE], [('generate_asset_entropy, calculate_asset, calculate_reissuance_token', CORE), ('issuance targets in blind_transaction', CORE)],
  ['blind()', 'calculate_asset()', 'reference ledger'])
p('C16', 'A mistyped or foreign confidential address is refused',
  'A confidential address string is accepted only if it is, character for character and up to letter case where the encoding allows, the encoding of a 33-byte blinding key field and a program for the chain in use; any other string, damaged by a user or channel or taken from another chain or '
  'encoding (wrong checksum kind, version, length, padding, prefix, mixed case), is refused with an address error. An accepted string is reproduced exactly when printed.',
  ['inputs', 'fault_sequences'],
  'all strings produced by any sequence of typing and transmission faults from valid addresses, and crafted strings with valid checksums, under any chain',
  'The tests try a few fixed valid and invalid addresses.',
  [WAL, BLE, ADR], [('blech32 decode and checksum', ADR), ('prefix, version and length matching', WAL + ', ' + BLE)],
  ['CCoinAddress(str)', 'CCoinConfidentialAddress(str)', 'str(address)'])
p('C17', 'Confidential and plain forms of an address always denote the same destination',
  'Converting a plain address to a confidential one and back returns the same address; blinding key, script, redeem script, type and chain are preserved through printing, parsing and conversion in any order, also while the program switches chains. '
  'The advertised output size is the size of a real output (for plain addresses: of an output with no asset set, as documented by the tests), and conversions across chains or with invalid blinding keys are refused.',
  ['histories', 'configurations'],
  'all histories of creating, converting, printing, parsing and switching chains, for every address type',
  'The tests check two or three addresses per type without switching chains in between.',
  [WAL, BLE], [('from_unconfidential / to_unconfidential', WAL), ('get_output_size', WAL), ('address class maps', WAL)],
  ['from_unconfidential()', 'to_unconfidential()', 'to_scriptPubKey()', 'get_output_size()', 'from_scriptPubKey()'])
p('C18', 'Threads that share the library work as if each were alone',
  'Threads that blind, unblind, serialize, hash, sign and decode their own transactions and addresses at the same time get exactly the results they would get alone, under every interleaving. '
  'Reading one immutable object from several threads is safe as well.',
  ['schedules'],
  'all interleavings of threads at the granularity of source lines or bytecodes, with any work in each',
  'The tests are single-threaded.',
  [CORE, SCR, WAL, SEC], [('no shared mutable state outside of the library handle', CORE)],
  ['results of all public operations in each thread'])
p('C19', 'Blinding secrets are fresh, and reproducible only by choice',
  'Every blinding factor, asset blinding factor and ephemeral key comes from its own request to the source of randomness and none is used twice, within a transaction and across any history of blindings, retries and failures; without an explicit source the operating system is asked. '
  'With the same explicit source and arguments, blinding gives the same bytes whatever the process did before.',
  ['histories', 'inputs'],
  'all histories of blindings, refused and failing attempts and retries, with default and explicit sources of randomness',
  'Randomness is not controlled in the tests, so reuse and hidden dependence on history are invisible.',
  [CORE], [('_rand_func', CORE), ('generate_output_rangeproof_nonce', CORE)],
  ['blind()', 'log of requests of randomness'])

p('C20', 'Peg-out outputs are recognised as the network does',
  'A script is reported as a peg-out exactly if it has the form the network recognises (OP_RETURN, a 32-byte push, a push that is not empty, whatever follows), and the reported genesis hash and destination script are those in the script. '
  'Watchmen who read the same blocks, over any faulty network and after any crash, see the same peg-outs, and each honest one once with its destination.',
  ['histories', 'fault_sequences', 'inputs'], 'all scripts, made with the library, made by others, or damaged, in all histories of reading blocks',
  'The tests cover a few scripts.', [SCR], [('get_pegout_data', SCR)], ['get_pegout_data()', 'is_pegout()'])
p('C21', 'Conditions written with Elements opcodes bind the spender as they say',
  'A tapscript that is written with the Elements opcodes the library names (introspection of inputs, outputs and the transaction, 64-bit arithmetic, conversions, streaming hashes, signatures of data, curve operations) means to the network what the names say: '
  'a transaction made and signed with the library can spend a coin under such conditions exactly if it meets them, however it was edited since they were written, and the script reads back as it was written.',
  ['histories', 'inputs'],
  'all combinations of conditions on a spending transaction, all edits of it after they were written, all histories of passing it on',
  'The tests neither use these opcodes nor execute scripts.',
  [SCR], [('OP_* constants', SCR), ('CElementsScript', SCR), ('sighash_schnorr', SCR)],
  ['bytes(CElementsScript([...]))', 'raw_iter()', 'sighash_schnorr()', 'verdict of the node'])

p('C22', 'Programs on the library trade and pay without robbing an honest user',
  'A participant who swaps assets with the program of examples/, on one chain or across chains, ends with what was agreed or with what it had (less fees and less what it reports as lost to its own crash), '
  'whatever the counterparty sends, withholds or delays, and whenever messages, blocks and RPC calls are late or fail; when both are honest and nothing fails the swap completes and every transaction is accepted by the network. '
  'The spending program pays the given address the amount it says with a transaction the network accepts, and the unblinding programs show exactly the amounts, assets and blinding factors that are in the outputs of the key given, and none for others.',
  ['schedules', 'fault_sequences', 'crash_points', 'histories'],
  'all schedules of both participants, daemons and blocks, all faults of pipes, RPC and processes, all lies of a counterparty, all kinds of coins and addresses',
  'No test runs these programs: they need two nodes, two processes and an adversary; what they promise depends on the whole library working together.',
  ['examples/asset-atomic-swap.py', 'examples/confidential-cross-chain-atomic-swap.py', 'examples/spend-to-confidential-address.py', CORE, WAL, SCR],
  [('checks of offers and transactions in alice() and bob()', 'examples/asset-atomic-swap.py'), ('timeouts and confirmations', 'examples/confidential-cross-chain-atomic-swap.py'),
   ('blind, unblind_confidential_pair, sighash, addresses', CORE + ', ' + SCR + ', ' + WAL)],
  ['transactions sent to the daemons', 'messages between the participants', 'printed output', 'coins on both ledgers'])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, x['title']
        f.write(json.dumps(x) + '\n')
