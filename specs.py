CORE = ['src/CryptoNoteCore/Currency.cpp', 'src/CryptoNoteCore/CryptoNoteFormatUtils.cpp', 'src/CryptoNoteCore/CryptoNoteBasicImpl.cpp', 'src/CryptoNoteCore/CryptoNoteTools.cpp', 'src/CryptoNoteCore/TransactionExtra.cpp', 'src/CryptoNoteCore/CryptoNoteSerialization.cpp', 'src/Serialization/BinaryOutputStreamSerializer.cpp', 'src/Serialization/BinaryInputStreamSerializer.cpp', 'src/Serialization/SerializationOverloads.cpp', 'src/Common/StringView.cpp', 'src/Common/VectorOutputStream.cpp', 'src/Common/MemoryInputStream.cpp', 'src/Common/StreamTools.cpp', 'src/Common/IInputStream.cpp', 'src/Common/IOutputStream.cpp', 'src/Common/StringTools.cpp', 'src/Common/StringOutputStream.cpp']
def E(name, what='', bounds='', covers=(), **kw): return dict(name=name, what=what, bounds=bounds, covers=list(covers), **kw)
INTUTIL = dict(harness='harness/intutil.cpp', srcs=[], shadow=['base'], entries=[E('lemma_mul128', 'mul128 is the exact 128-bit product', 'all 64-bit operands'), E('lemma_div128', 'div128_32 is exact long division', 'all 128-bit dividends and non-zero 32-bit divisors')])
def CUR(*entries, **kw): return dict(harness='harness/currency.cpp', shadow=['base', 'intutil'], srcs=CORE, entries=list(entries), flags=['-DDIGMAX=99999', '-DWEEKS=52', '-DMFEE=999', '-DBOUNDM=1'], **kw)
def SER(*entries, **kw): return dict(harness='harness/serial.cpp', shadow=['base', 'intutil'], srcs=CORE + ['src/crypto/tree-hash.c'], rt=['rt/locale.cpp'], entries=list(entries), bounds=dict(quick=['NHASH=4', 'MERKLE=7'], thorough=['NHASH=5', 'MERKLE=9', 'MAXIN=2', 'MAXOUT=2', 'PARSEN=14']), **kw)
def EXTRA(*entries, **kw): return dict(harness='harness/extra.cpp', shadow=['base', 'intutil'], srcs=CORE + ['src/crypto/chacha8.c'], rt=['rt/locale.cpp'], entries=list(entries), bounds=dict(quick=['EXTN=6', 'NFIELDS=2'], thorough=['EXTN=9', 'NFIELDS=3']), **kw)
def CODEC(*entries, **kw): return dict(harness='harness/codec.cpp', shadow=['base', 'intutil'], srcs=CORE + ['src/Common/Base58.cpp'], rt=['rt/locale.cpp'], entries=list(entries), bounds=dict(quick=['HEADS=4', 'SYMN=14', 'AMDIG=20', 'AMN=6'], thorough=['HEADS=8', 'SYMN=25', 'AMDIG=20', 'AMN=9']), **kw)
def POW(*entries, **kw): return dict(harness='harness/pow.cpp', shadow=['base', 'intutil'], srcs=['src/CryptoNoteCore/Currency.cpp', 'src/CryptoNoteCore/Difficulty.cpp', 'src/Common/StringTools.cpp', 'src/Common/StringOutputStream.cpp', 'src/Common/StringView.cpp', 'src/Common/IOutputStream.cpp'], rt=['rt/locale.cpp'], entries=list(entries), bounds=dict(quick=['NPOS=2', 'LEGN=4'], thorough=['NPOS=8', 'LEGN=5']), **kw)
def IDX(*entries, **kw): return dict(harness='harness/indices.cpp', shadow=['base', 'intutil'], srcs=CORE + ['src/CryptoNoteCore/DepositIndex.cpp', 'src/CryptoNoteCore/BlockIndex.cpp', 'src/CryptoNoteCore/Checkpoints.cpp'], rt=['rt/locale.cpp'], entries=list(entries), bounds=dict(quick=['DEPOPS=4', 'BIN=3', 'SPARSE=18', 'VOTEOPS=5'], thorough=['DEPOPS=5', 'BIN=4', 'SPARSE=40', 'VOTEOPS=7']), **kw)
CHAINSRC = CORE + ['src/CryptoNoteCore/Blockchain.cpp', 'src/CryptoNoteCore/BlockchainIndices.cpp', 'src/CryptoNoteCore/Checkpoints.cpp', 'src/CryptoNoteCore/DepositIndex.cpp', 'src/CryptoNoteCore/BlockIndex.cpp', 'src/CryptoNoteCore/Difficulty.cpp', 'src/crypto/tree-hash.c', 'src/CryptoNoteCore/BlockchainMessages.cpp', 'src/BlockchainExplorer/BlockchainExplorerDataBuilder.cpp']
def PUSH(*entries, **kw): return dict(harness='harness/push.cpp', shadow=['base', 'intutil', 'chain'], srcs=CHAINSRC, rt=['rt/locale.cpp'], entries=list(entries), bounds=dict(quick=['PUSHN=2'], thorough=['PUSHN=3']), **kw)
def CHAIN(*entries, **kw): return dict(harness='harness/chain.cpp', shadow=['base', 'intutil', 'chain'], srcs=CHAINSRC, rt=['rt/locale.cpp'], entries=list(entries), bounds=dict(quick=['TXKINDS=8'], thorough=['TXKINDS=31']), **kw)
POOLSRC = CORE + ['src/CryptoNoteCore/TransactionPool.cpp', 'src/CryptoNoteCore/BlockchainIndices.cpp', 'src/BlockchainExplorer/BlockchainExplorerDataBuilder.cpp']
def POOL(*entries, **kw): return dict(harness='harness/pool.cpp', shadow=['base', 'intutil'], srcs=POOLSRC, rt=['rt/locale.cpp'], entries=list(entries), bounds=dict(quick=['POOLOPS=4', 'FEEB=6'], thorough=['POOLOPS=5', 'FEEB=13']), **kw)
SPECS = {
 'C01': dict(groups=[CUR(E('reward_nofee', covers=['oversized','foundation block','no penalty','penalty','supply exhausted']), E('reward_fee', covers=['oversized','negative emission'])), INTUTIL]),
 'C02': dict(groups=[CUR(E('miner_tx', covers=['four outputs','zero outs']))]),
 'C03': dict(groups=[CUR(E('interest_v3'),E('interest_v3_bound'),E('interest_v2'),E('interest_v1'),E('interest_input'),E('deposit_output'))]),
 'C04': dict(groups=[CUR(E('tx_fee'),E('tx_fee_deposit'))]),
 'C05': dict(groups=[CUR(E('max_size'),E('decompose'))]),
 'C06': dict(groups=[SER(E('varint_parse', covers=['accepted','rejected']), E('varint_write', covers=['ten bytes']), E('varint_iter'))]),
 'C07': dict(groups=[SER(E('tx_inputs', covers=['hash']), E('tx_outputs', covers=['hash']), E('block_rt', covers=['version']), E('parse_canonical', covers=['accepted','refused'], args=['--sym-alloc-limit', '64']))]),
 'C08': dict(groups=[SER(E('block_id', covers=['same','different']), E('merkle', covers=['five leaves']))]),
 'C09': dict(groups=[EXTRA(E('extra_parse', covers=['readable','unreadable'], args=['--sym-alloc-limit','32']), E('extra_parse_key', args=['--sym-alloc-limit','80']), E('extra_parse_mm', args=['--sym-alloc-limit','256']), E('extra_roundtrip', covers=['padding']), E('extra_limits'), E('payment_id', covers=['bad id']), E('nonce_id', covers=['id']), E('message', covers=['private','public']))]),
 'C10': dict(groups=[CODEC(E('b58_encode', time=90, covers=['full block']), E('b58_decode', time=90, covers=['accepted','refused']), E('b58_symbols', time=90, covers=['accepted','refused']), E('addr_encode', time=90, covers=['ok']), E('addr_decode', time=90, covers=['bad checksum','refused','accepted']), E('addr_short', time=60, covers=['short']), E('address', time=90, covers=['ok','bad key']), E('addr_foreign', time=90, covers=['ours','foreign']))]),
 'C11': dict(groups=[CODEC(E('hex', covers=['accepted','refused']), E('amount_format', covers=['formatted']), E('amount_parse', covers=['accepted','refused']), E('amount_big', covers=['fits','overflow']), E('amount_decimals', covers=['accepted','refused']))]),
 'C12': dict(groups=[POW(E('check_target', covers=['good','bad']), E('check_target_vals', covers=['good','bad']))]),
 'C13': dict(groups=[POW(E('lwma1_work', covers=['normal','large']), E('lwma1_time', covers=['time']), E('lwma1_fork', covers=['ok']), E('lwma3_work', covers=['short','work']), E('lwma3_time', covers=['time']), E('legacy', covers=['fixed','overflow','rule']), E('legacy_cut', covers=['cut']))]),
 'C14': dict(groups=[IDX(E('deposit_history', covers=['query','pop','pop many']), E('deposit_saved', covers=['loaded']))]),
 'C15': dict(groups=[IDX(E('block_index', covers=['pop','duplicate','found','absent']), E('sparse_chain', covers=['chain']))]),
 'C16': dict(groups=[IDX(E('checkpoint_rules', covers=['duplicate','free','match','mismatch','allowed','refused']), E('checkpoint_dns', covers=['added','ignored']))]),
 'C17': dict(groups=[IDX(E('upgrade_votes', covers=['pending','complete']), E('upgrade_fixed', covers=['ok','refused']))]),
 'C18': dict(groups=[CHAIN(E('undo_block', covers=['undone']), E('rollback', covers=['rolled back']), E('rebuild', covers=['rebuilt'])), PUSH(E('reset_chain', covers=['reset']))]),
 'C19': dict(groups=[PUSH(E('refuse_late', covers=['accepted','refused']))]),
 'C20': dict(groups=[PUSH(E('double_spend', covers=['accepted','refused']))]),
 'C21': dict(groups=[PUSH(E('spend_key', covers=['accepted','refused']), E('spend_msig', covers=['accepted','refused']))]),
 'C22': dict(groups=[PUSH(E('header_rules', covers=['accepted','refused']), E('old_stamp', covers=['accepted','refused']), E('old_stamp30', covers=['accepted','refused']), E('miner_rules', covers=['accepted','refused']))]),
 'C23': dict(groups=[POOL(E('pool_admit', covers=['admitted','refused']), E('pool_deposit', covers=['admitted','refused']), E('pool_duplicate', covers=['duplicate']))]),
 'C24': dict(groups=[POOL(E('pool_history', covers=['expired','taken','expired recently']), E('pool_saved', covers=['loaded']), E('pool_difference', covers=['compared']))]),
 'C25': dict(groups=[POOL(E('pool_template', covers=['left out','all chosen']))]),
}
