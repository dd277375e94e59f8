# Source of properties.jsonl, MANIFEST.json and the per-property section of DESIGN.md (python3 gen.py).
# P(id, title, statement, over, quantifier text, why tests cannot, anchor files, [(mechanism, where)], how it is decided, bounds, assumptions/level note[, na=reason])
PROPS = []
def P(id, title, statement, over, qtext, why, files, mech, how, bounds, note, na=None, **kw):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, how=how, bounds=bounds, note=note, na=na, **kw))
CC = 'src/CryptoNoteCore/'
P('C01', 'Block reward follows the emission schedule and size penalty',
  'For every height, amount of coins already generated, median size, block size and fee total, a block is refused a reward exactly when it is larger than twice the effective median size (never less than 100,000 bytes), and otherwise its miner may claim exactly the scheduled base reward plus fees, each reduced by the quadratic size penalty floor(x*s*(2m-s)/m^2) when the block is larger than the median. The base reward is 12,000,000 coins at height 1, then 5 plus 0.25 coins per 21,900 blocks up to height 661,300, 6 coins from then on, never more than 15 coins nor than the part of the 200,000,000-coin money supply not yet generated. The reported emission change plus the fees equals the reward.',
  ['inputs'], 'every height, generated amount up to the supply, median up to 2^31, size below 2^32, fee total up to the supply',
  'The tests sample a few medians and sizes with exact penalties; 128-bit arithmetic boundaries (rounding, overflow, height steps, exhausted supply) are a property of all inputs.',
  [CC + 'Currency.cpp', CC + 'CryptoNoteBasicImpl.cpp', 'src/CryptoNoteConfig.h', 'src/Common/int-util.h'], [('getBlockReward', CC + 'Currency.cpp'), ('getPenalizedAmount', CC + 'CryptoNoteBasicImpl.cpp')],
  'Currency::getBlockReward and everything it calls is executed on symbolic arguments and compared with the rule written from the consensus parameters; the 128-bit helpers mul128/div128_32 are replaced by wide arithmetic and proved equal to it for all operands in the same check (lemma_mul128, lemma_div128).',
  'no loops: all values in the quantifier; lemmas over all 64/128-bit operands', 'complete for the stated ranges; trusts the IR executor and Z3/cvc5')
P('C02', 'Constructed miner transactions pay exactly the block reward',
  'A miner transaction built for a block template has one base input carrying the block height, is unsigned, version 1 and locked for 10 blocks, and its outputs are non-zero key outputs, no more than the requested number, adding up exactly to the block reward including fees. Construction fails when zero outputs are requested.',
  ['inputs'], 'every height from 661,301 to 2^30, generated amounts leaving at least one full reward, every fee total up to the digit bound, 0 to 4 outputs',
  'Tests build a few miner transactions with fixed amounts; that merging of decomposed parts never loses or duplicates value depends on every digit pattern.',
  [CC + 'Currency.cpp', CC + 'CryptoNoteFormatUtils.h'], [('constructMinerTx', CC + 'Currency.cpp'), ('decompose_amount_into_digits', CC + 'CryptoNoteFormatUtils.h')],
  'Currency::constructMinerTx is executed with symbolic height, generated amount and fees; key derivation is an opaque stand-in (it does not affect amounts).',
  'fees below 1000 atomic units (quick), block unpenalised, at most 4 outputs', 'key derivation is stubbed; amounts exact')
P('C03', 'Deposit interest and deposit output rules follow the published terms',
  'For every amount, term and height, the interest a deposit input earns follows the published schedule of its era (monthly deposits by tier and months, quarterly investments and weekly deposits by the deployed table, earlier deposits linear in amount and term with the early-lock multiplier), a term of zero or beyond the legal maximum earns nothing, and one-year interest of a monthly deposit stays below 1/14 of the amount. A multisignature output with a term is a valid deposit exactly when its amount is at least the minimum and its term is legal at that height (a whole number of months, 1 to 12, in the present era).',
  ['inputs'], 'every amount up to the money supply, every height, every term of each era (all legal monthly, quarterly and weekly terms; all 32-bit terms for legacy rule and validity)',
  'Tests check interest for a handful of amounts and terms; every mismatch by one atomic unit is a consensus split.',
  [CC + 'Currency.cpp', 'src/CryptoNoteConfig.h'], [('calculateInterest/V2/V3, getInterestForInput, validateOutput', CC + 'Currency.cpp')],
  'the interest functions are executed symbolically including their float arithmetic (Z3 FP theory plus term matching) against rate tables written in the harness.',
  'legal terms enumerated by forking (59 months, 20 quarters, 52 weeks), amount and height symbolic', 'float arithmetic as IEEE binary32 (x86-64 SSE)')
P('C04', 'Transaction fees conserve money and overflow is refused',
  'For every combination of input and output amounts, a transaction whose input or output amounts add up beyond 64 bits is refused by the overflow check, a transaction spending more than its inputs hold is refused by the fee computation, and otherwise fee plus outputs equals inputs exactly. For a deposit withdrawal the interest earned at the given height counts as part of its inputs.',
  ['inputs'], 'all 64-bit amounts, up to 3 inputs of both kinds and 3 outputs; one deposit input plus one key input with every legal monthly term',
  'Tests use small amounts; wrap-around needs particular sums near 2^64 that sampling does not meet.',
  [CC + 'Currency.cpp', CC + 'CryptoNoteFormatUtils.cpp'], [('getTransactionFee, getTransactionAllInputsAmount', CC + 'Currency.cpp'), ('check_money_overflow', CC + 'CryptoNoteFormatUtils.cpp')],
  'check_money_overflow and getTransactionFee are executed on a transaction with symbolic amounts; the oracle adds in 128 bits.',
  '1-3 inputs, 0-3 outputs', 'legacy leniency for withdrawals whose outputs exceed inputs plus interest is not asserted')
P('C05', 'Block size limit growth and amount decomposition',
  'The block size limit at every height is 1,000,000 bytes plus 102,400 bytes per 262,800 blocks, rounded down, and never shrinks as height grows. Decomposing any amount yields non-zero parts that add up exactly to the amount.',
  ['inputs'], 'all heights up to 500,000,000; all amounts within the digit bound with every dust threshold up to 1000',
  'Tests sample isolated heights and amounts.', [CC + 'Currency.cpp', CC + 'CryptoNoteFormatUtils.cpp', CC + 'CryptoNoteFormatUtils.h'], [('maxBlockCumulativeSize', CC + 'Currency.cpp'), ('decomposeAmount', CC + 'CryptoNoteFormatUtils.cpp')],
  'both functions executed symbolically against arithmetic oracles.', 'amounts up to 99,999 for decomposition', 'complete within the bounds')
P('C06', 'Variable-length integers have exactly one encoding',
  'Every 64-bit value is written as the unique minimal base-128 sequence and reading it back gives the value. From any bytes, reading a variable-length integer from a stream accepts exactly the minimal encodings of values that fit the target type, returns that value and consumes exactly its bytes; truncated, overlong (trailing zero group) and overflowing encodings are refused.',
  ['inputs'], 'all 64-bit values; every byte sequence up to 10 bytes for the stream reader (8-, 16-, 32- and 64-bit targets)',
  'Tests round-trip a few values; malleability needs particular overlong or overflowing byte sequences.',
  ['src/Common/Varint.h', 'src/Common/StreamTools.cpp'], [('write_varint/read_varint', 'src/Common/Varint.h'), ('readVarint/writeVarint', 'src/Common/StreamTools.cpp')],
  'readers and writers are executed on symbolic values/bytes and compared with a reference decoder.', 'the longest encoding (10 bytes) is covered completely', 'complete')
P('C07', 'Transactions and blocks serialise canonically and round-trip',
  'Serialising any transaction or block and parsing the result gives back the same fields, and the transaction hash and transaction prefix hash cover every field: two encodings of different field values differ. Whatever byte sequence is accepted as a transaction re-serialises to exactly the same bytes (no two byte sequences mean the same transaction), and trailing bytes, truncated data, unknown input or output kinds are refused.',
  ['inputs'], 'transactions with up to 1 (2 in the thorough tier) input of each kind and 1 (2) output, symbolic amounts, keys, terms, indexes, extra; blocks with symbolic headers, up to 4 (5) transaction hashes; all byte strings of up to 9 (14) bytes for parsing',
  'Tests round-trip fixed objects; canonicity is a claim about all byte strings.',
  [CC + 'CryptoNoteSerialization.cpp', 'src/Serialization/BinaryInputStreamSerializer.cpp', 'src/Serialization/BinaryOutputStreamSerializer.cpp', CC + 'CryptoNoteTools.h'], [('serialize overloads', CC + 'CryptoNoteSerialization.cpp'), ('parseAndValidateTransactionFromBlob, getObjectHash', CC + 'CryptoNoteFormatUtils.cpp')],
  'toBinaryArray/fromBinaryArray and the hashing helpers are executed on symbolic objects and on symbolic byte strings; hashing is an ideal injective function.', 'sizes as in the quantifier', 'varint-coded fields are symbolic one at a time over their full range and narrow otherwise')
P('C08', 'The block identifier commits to the header and to every transaction in order',
  'Two blocks with the same identifier have the same header fields, the same miner transaction, the same number of transactions and the same transaction hashes in the same order. The transaction tree hash equals the CryptoNote reference tree hash for every number of leaves within the bound.',
  ['inputs'], 'symbolic header fields, 0 to 4 (5) transaction hashes; tree hash up to 7 (9) leaves',
  'Tests compare fixed vectors; that no field or leaf is left out of the hash is a statement about all pairs of blocks.',
  [CC + 'CryptoNoteFormatUtils.cpp', 'src/crypto/tree-hash.c', CC + 'CryptoNoteSerialization.cpp'], [('get_block_hashing_blob, get_tx_tree_hash', CC + 'CryptoNoteFormatUtils.cpp'), ('tree_hash', 'src/crypto/tree-hash.c')],
  'block hashing is executed on pairs of symbolic blocks with an ideal collision-free hash function; equality of identifiers must force equality of contents.', 'as in the quantifier', 'the hash function is modelled as injective')
P('C09', 'Transaction extra fields and encrypted messages are parsed, limited and round-tripped exactly',
  'Parsing a transaction extra accepts exactly what the field grammar allows (padding, public key, nonce, merge mining tag, message, time-to-live) and returns exactly those fields; writing any list of fields and parsing it gives the fields back. Public key, payment id (in a nonce) and time-to-live are found exactly where the grammar puts them, padding and nonces longer than 255 bytes are refused, and malformed extra yields failure rather than fields. An encrypted message is recovered exactly by its recipient, and a wrong checksum is never reported as a message.',
  ['inputs'], 'all byte strings of up to 6 (9) bytes, plus full-length public key and merge-mining fields; up to 2 (3) written fields with symbolic contents',
  'Tests parse a handful of fixed extras; the parser reads attacker-controlled bytes.',
  [CC + 'TransactionExtra.cpp', 'src/crypto/chacha8.c'], [('parseTransactionExtra, writeTransactionExtra', CC + 'TransactionExtra.cpp'), ('tx_extra_message::encrypt/decrypt', CC + 'TransactionExtra.cpp')],
  'parser and writer are executed on symbolic bytes and fields and compared with a reference parser; key derivation and hash are stand-ins, chacha8 is the real code.', 'as in the quantifier', 'message sizes up to 8 bytes')
P('C10', 'Base58 text and account addresses are unambiguous and checksummed',
  'Encoding any block of bytes gives its base-58 number with the fixed padded length, and a text is accepted exactly when its length exists, every symbol belongs to the alphabet and no block overflows, in which case encoding the result gives the text back. An address text is accepted exactly when its checksum matches, its prefix is minimal and equal to this network\'s, its payload is exactly two keys and both keys are valid; every address starts with ccx7, has 98 characters and gives back the same keys.',
  ['inputs'], 'every block of 1 to 8 bytes and every block text of 1 to 11 symbols; one arbitrary byte at any position of texts up to 24 characters; every address with one symbolic block at a time; prefixes and payload sizes around the legal ones',
  'Tests decode fixed strings; overflow, padding and checksum mistakes need specific values.',
  ['src/Common/Base58.cpp', CC + 'CryptoNoteBasicImpl.cpp', CC + 'Currency.cpp'], [('encode/decode, encode_addr/decode_addr', 'src/Common/Base58.cpp'), ('parseAccountAddressString', CC + 'Currency.cpp')],
  'the codec is executed on blocks given by symbolic base-58 digits (every 64-bit number has exactly one such form) and on arbitrary symbols; the checksum hash is an ideal function and key validity a symbolic verdict.', 'one symbolic block at a time', 'check_key is a stand-in')
P('C11', 'Hexadecimal and coin amounts parse exactly what they mean',
  'Hex text is accepted exactly when it has an even number of hexadecimal digits and decodes to those bytes. Formatting any amount gives its decimal value with exactly six decimals; parsing an amount text accepts exactly decimal numbers with at most six significant decimals that fit 64 bits, and returns that value.',
  ['inputs'], 'all texts up to 5 bytes for hex; all 64-bit amounts for formatting; all texts over the digits, point, minus, blank and a letter up to 4 (9) characters, plus 19-20 digit numbers around 2^64',
  'Tests try a list of strings; silent truncation or wrap-around needs particular ones.',
  ['src/Common/StringTools.cpp', CC + 'Currency.cpp'], [('fromHex, toHex', 'src/Common/StringTools.cpp'), ('formatAmount, parseAmount', CC + 'Currency.cpp')],
  'the functions are executed on symbolic bytes and amounts and compared with references.', 'as in the quantifier', 'complete within the bounds')
P('C12', 'A hash meets a difficulty exactly when hash times difficulty stays below 2^256',
  'For every 256-bit hash, read as a little-endian number, and every 64-bit difficulty, the proof-of-work check succeeds exactly when the product of the two is smaller than 2^256.',
  ['inputs'], 'all 2^256 hashes and all 2^64 difficulties',
  'Tests compare a table of hashes; a wrong carry or limb shows only for special values.',
  [CC + 'Difficulty.cpp'], [('check_hash', CC + 'Difficulty.cpp')],
  'check_hash is executed on four symbolic words and a symbolic difficulty and compared with a 256-bit reference product.', 'none: the domain is complete', 'a second entry varies one word at a time with concrete difficulties')
P('C13', 'Difficulty retargeting follows the LWMA and original rules for every work and every manipulated time stamp',
  'The next difficulty is the linearly weighted average rule of the block version: LWMA-1 (solve times clamped to six targets, never negative, sum at least N*N*T/20, scaled by 99/100 and rounded as documented), LWMA-3 (limits of 67% and 150% of the previous difficulty and the jump rule for three fast blocks) or the original cut-and-sorted window rule (work over time span, rounded up, rounded down from block version 2), with the fixed difficulties after forks. No time stamp or work value makes the result differ from the rule; if the original rule overflows it reports zero.',
  ['inputs'], '61-block windows with six time stamp patterns in which one stamp is symbolic at one of 2 (8) positions, symbolic work; original rule with all of up to 4 (5) stamps symbolic and windows of 600 to 722 blocks with symbolic work',
  'Difficulty bugs show for particular time stamp manipulations and extreme work; tests replay recorded data.',
  [CC + 'Currency.cpp'], [('nextDifficultyLWMA1, nextDifficultyLWMA3, nextDifficulty', CC + 'Currency.cpp')],
  'the retargeting functions are executed on symbolic work and time stamps and compared with reference formulas over wide integers.', 'as in the quantifier', 'LWMA-1 averages between 4.0e11 and 8.64e11, where the product in the code exceeds 64 bits, are outside the assumption')
P('C14', 'Deposit totals per height equal the sum of all changes, under any sequence of additions and rollbacks',
  'After any sequence of adding blocks, removing the last block and removing all blocks from a height, the deposit index reports for every height the sum of the deposit changes and the sum of the interest of all blocks up to that height, and the totals; storing and loading it changes nothing.',
  ['inputs', 'histories'], 'all sequences of up to 4 (5) operations with symbolic amounts and interest, query at any 32-bit height',
  'Unit tests push and pop a few fixed amounts; which entries are kept depends on the sequence.',
  [CC + 'DepositIndex.cpp'], [('pushBlock, popBlock, popBlocks, depositAmountAtHeight, depositInterestAtHeight, serialize', CC + 'DepositIndex.cpp')],
  'the operations are executed with symbolic amounts and compared with prefix sums.', 'as in the quantifier', 'amounts below 2^57')
P('C15', 'The block id index maps heights and ids to each other exactly',
  'Pushing an id succeeds exactly when it is not present; an id is found exactly when it was pushed and not popped, with its height; listing ids returns the requested range; the sparse chain is the start, then distances doubling backwards, then the first block; and the supplement starts at the first listed id that is known.',
  ['inputs', 'histories'], 'all sequences of up to 3 (4) pushes and pops of 32-byte symbolic ids, any query id and range; sparse chains of up to 18 (40) blocks from any start',
  'Id collisions and boundary heights are not in the tests.',
  [CC + 'BlockIndex.cpp', CC + 'BlockIndex.h'], [('push, pop, getBlockHeight, getBlockIds', CC + 'BlockIndex.h'), ('buildSparseChain, findSupplement', CC + 'BlockIndex.cpp')],
  'the index is executed on symbolic ids and compared with a list.', 'as in the quantifier', 'sparse chains use concrete ids and every length and start in the bound')
P('C16', 'Checkpoints are enforced at their height and bound how deep a fork may be',
  'A block at a checkpoint height is accepted exactly when its id equals the checkpoint; each height holds one checkpoint and malformed hashes are refused; a height is in the checkpoint zone exactly up to the last checkpoint; an alternative block is allowed exactly when it is not the genesis height, lies above every checkpoint already passed, and is not more than ten blocks deep unless in the checkpoint zone. Records from DNS never replace a known checkpoint and malformed ones are ignored.',
  ['inputs'], 'up to 3 checkpoints at symbolic heights, any query height, chain height and block id',
  'The decision depends on relations between three heights; tests use a few fixed ones.',
  [CC + 'Checkpoints.cpp'], [('add_checkpoint, check_block, is_in_checkpoint_zone, is_alternative_block_allowed, load_checkpoints_from_dns', CC + 'Checkpoints.cpp')],
  'the checkpoint functions are executed on symbolic heights and ids and compared with their definition.', 'as in the quantifier', 'DNS answers are a stand-in with six kinds of record')
P('C17', 'Upgrade voting gives the same upgrade height in every node and after every restart',
  'After any history of added and removed blocks, the voting-complete height is the first height whose voting window holds enough votes, the upgrade height follows from it, and a detector newly initialised on the same chain finds the same height. With a fixed upgrade height, a stored chain whose block versions contradict it is refused at start-up.',
  ['histories'], 'all sequences of up to 5 (7) pushes and pops with symbolic votes, windows of 2 and 3, thresholds of 60% and 100%; stored chains of up to 6 blocks with symbolic versions',
  'The detector updates incrementally; only particular push/pop histories distinguish it from a recount.',
  [CC + 'UpgradeDetector.h'], [('blockPushed, blockPopped, init', CC + 'UpgradeDetector.h')],
  'the detector is executed on all histories with symbolic votes and compared with a recount.', 'as in the quantifier', 'small voting windows')
P('C18', 'Undoing, rolling back or rebuilding the chain restores exactly the state of the remaining blocks',
  'Removing a block (by chain switch or rollback) restores the spent key images, the spendable outputs and their order, the multisignature outputs and their used marks, the transaction index, the block ids, the deposit totals and the time stamp index to what they were before the block was added; transactions of a block undone by a chain switch return to the pool. Rebuilding the caches from the stored blocks gives the state that was kept while adding them, and resetting the chain leaves only the genesis block.',
  ['inputs', 'histories'], 'a chain of two blocks plus up to 2 further blocks with up to 2 transactions mixing key and multisignature inputs and outputs; symbolic amounts, key images, deposit terms and time stamps',
  'Corruption shows only for particular combinations of shared amounts, deposits and inputs across blocks; tests do not compare internal state after undo.',
  [CC + 'Blockchain.cpp', CC + 'BlockchainIndices.cpp', CC + 'DepositIndex.cpp'], [('pushTransaction, popTransaction, popBlock, removeLastBlock, rollbackBlockchainTo, rebuildCache', CC + 'Blockchain.cpp')],
  'Blockchain.cpp itself is executed (block storage in memory, hash tables as association lists, hash function ideal) and complete states are compared.', 'as in the quantifier', 'signatures and keys are stand-ins here')
P('C19', 'A refused block leaves no trace',
  'When a block is refused, for whatever reason and however late the flaw is found (size limit, coinbase amount, invalid or premature spending, short deposit term, spending an output of the same block, a transaction missing from the pool), the chain state (blocks, spent key images, outputs and their order, multisignature usage marks, transaction index, deposit totals, explorer indexes) is what it was before, its transactions are in the pool again and the block is not reported as added. The same block without the flaw is accepted, becomes the tip and its transactions are indexed. A block is accepted only if its size is within the limit.',
  ['inputs'], 'chains of 12 blocks and a block of two or three transactions with one of six kinds of flaw; symbolic size limit, amounts paid, output indexes, key images and terms',
  'A leftover after a refusal shows only in later behaviour; tests check the verdict, not the state.',
  [CC + 'Blockchain.cpp', CC + 'Blockchain.h'], [('pushBlock, popTransactions, loadTransactions, saveTransactions', CC + 'Blockchain.cpp')],
  'Blockchain::pushBlock is executed on the offered block with symbolic flaw parameters; complete states before and after are compared.', 'as in the quantifier', 'pool and signatures are stand-ins; hash tables are association lists')
P('C20', 'No output is spent twice',
  'A key image or multisignature output that was spent by an earlier block, or by an earlier transaction of the same block, is never accepted again; spends of different outputs are accepted, in one block or in two.',
  ['inputs', 'histories'], 'three spends (chain, first and second new transaction) with symbolic key images or symbolic multisignature output indexes, in one block or two',
  'Equality of key images is over 2^256 values and across histories; tests use two or three.',
  [CC + 'Blockchain.cpp'], [('checkTransactionInputs, validateInput, pushTransaction', CC + 'Blockchain.cpp')],
  'pushBlock is executed with symbolic images and indexes; acceptance must coincide with the three being different.', '24 symbolic bits per key image', 'duplicates within one transaction are refused by the semantic check of the core (another property)')
P('C21', 'An output is spent only when it exists, is unlocked and mature, and with the right signatures',
  'A key input is accepted exactly when all outputs of its ring exist in the chain before the block, the transactions holding them are unlocked (block height or time), its key image is new and in the right group, and its ring signature over the whole transaction prefix and exactly the referenced outputs is valid. A multisignature input is accepted exactly when its output exists, is unspent and unlocked, the stated term is the term of the output, the term has passed, and the required number of signatures match keys of the output in order. Inside the checkpoint zone only the signature checks are skipped. Spending marks the output as spent and a withdrawn deposit leaves the locked total.',
  ['inputs'], 'rings of one or two symbolic offsets, symbolic amounts, unlock heights and times, key images, terms, maturity of every small term, signer sets; chains of 4 to 12 blocks',
  'The rules are conjunctions over many fields; tests exercise a few failing ones.',
  [CC + 'Blockchain.cpp', CC + 'Blockchain.h'], [('check_tx_input, scanOutputKeysForIndexes, is_tx_spendtime_unlocked, validateInput', CC + 'Blockchain.cpp')],
  'pushBlock is executed on blocks with one symbolic spend and the verdict compared with the definition.', 'as in the quantifier', 'signature primitives are stand-ins that record what they were asked')
P('C22', 'Block header and coinbase rules are enforced exactly',
  'A block is accepted only if its version is the one of its height, it builds on the tip, its hash meets the required difficulty, its time stamp is at most two hours ahead of the clock and not older than the median of the last 30 blocks, and its coinbase has exactly one base input with the block height, unlock time ten blocks later, valid outputs, and pays the block reward (never less, and at most 10 units more); a block that satisfies all of this is accepted, and the generated coins grow by the reward.',
  ['inputs'], 'symbolic version, time stamp, parent, hash word, coinbase height, unlock time and one or two amounts; median windows of 5 blocks with all stamps symbolic and of 30 blocks',
  'Each rule has a boundary; tests use mining helpers that always satisfy them.',
  [CC + 'Blockchain.cpp'], [('pushBlock, prevalidate_miner_transaction, validate_miner_transaction, check_block_timestamp_main, checkBlockVersion', CC + 'Blockchain.cpp')],
  'pushBlock and the time stamp check are executed on symbolic headers and coinbases and compared with the rules.', 'as in the quantifier', 'slow hashes are stand-ins with a symbolic result')
P('C23', 'The transaction pool admits exactly the transactions that follow its rules, and relays only what it should',
  'A transaction is admitted exactly when its input types are supported by its version, its outputs do not exceed its inputs (deposit interest included) and, unless it comes from a block, it conflicts with no key image of the pool and no multisignature output used by a pool transaction that did not come from a block, its inputs are valid in the chain, it is not too large, it did not recently expire from the pool, and if it has a time to live, that lies in the future but not beyond the pool life time plus the future limit and it pays no fee. A transaction already in the pool is not added again. An admitted transaction is to be relayed exactly when its inputs are valid and it pays the required fee (exactly 1000 atomic units from version 8 on, any fee before), withdraws a multisignature output (version 8), or has a time to live.',
  ['inputs'], 'one transaction in the pool and one offered: symbolic key images, output indexes, amounts, time to live, sizes, limits, versions, origins and chain verdicts, heights on both sides of version 8; withdrawals with symbolic payout',
  'Admission combines a dozen conditions and two origins; tests check a few one at a time.',
  [CC + 'TransactionPool.cpp'], [('add_tx, haveSpentInputs', CC + 'TransactionPool.cpp')],
  'add_tx is executed with the verdict of the chain as symbolic input and the outcome compared with the rule.', 'as in the quantifier', 'fusion transactions (at least twelve inputs) are not among the offered ones; the chain is a stand-in with symbolic verdicts')
P('C24', 'The pool bookkeeping always matches its contents',
  'After any history of adding, taking and expiring transactions, and after storing and loading the pool, the recorded key images, used multisignature outputs, times to live, payment ids and arrival times are exactly those of the transactions in the pool; a transaction expires exactly when it is older than the life time of its origin or its time to live has passed, and is not admitted again (except from a block) for seven life times; and the difference to a peer lists exactly the transactions valid now that the peer lacks, and those the peer has that are gone or invalid.',
  ['histories', 'inputs'], 'all histories of up to 4 (5) operations over three transactions with symbolic conflicts, origins, times to live and passing time; every known subset and verdict for the difference',
  'Stale entries show only after particular sequences, as lost or conflicting transactions.',
  [CC + 'TransactionPool.cpp', CC + 'TransactionPool.h', CC + 'BlockchainIndices.cpp'], [('add_tx, take_tx, removeExpiredTransactions, removeTransaction, serialize, buildIndices, get_difference', CC + 'TransactionPool.cpp')],
  'the pool is executed on all histories and every derived structure compared with one computed from the contents.', 'as in the quantifier', 'the chain is a stand-in with symbolic verdicts')
P('C25', 'Block templates contain only transactions that can be mined together, best paying first',
  'A block template contains only transactions of the pool that are valid now and have no time to live, no two of which share a key image or multisignature output; they fit the size limit (transactions without fee: the median size), come in order of fee per byte, the reported size and fees are their sums, and a transaction is left out only for one of these reasons.',
  ['inputs'], 'three transactions with symbolic conflicts, or symbolic fees and sizes and limits, or symbolic verdicts and times to live',
  'Which transactions fit depends on the order and sizes of all others; tests use uniform transactions.',
  [CC + 'TransactionPool.cpp', CC + 'TransactionPool.h'], [('fill_block_template, BlockTemplate, TransactionPriorityComparator', CC + 'TransactionPool.cpp')],
  'fill_block_template is executed on symbolic pools and the template compared with the rules.', 'fees of 6 (13) bits, sizes up to 4095 bytes, limits of the same order', 'median size not above the cumulative size limit, as the chain guarantees')
