"""Which symbolic runs decide which property."""
from vt import Job

UTIL = ['util/util.cpp']
GCU = UTIL + ['garbled_circuit/garbled_circuit_util.cpp', 'tcpip/tcpip.cpp']
TP = GCU + ['garbled_circuit/garbled_circuit_high_mem.cpp', 'garbled_circuit/garbled_circuit_low_mem.cpp', 'crypto/BN.cpp', 'crypto/OT.cpp', 'crypto/OT_extension.cpp']
PROPS = {}
def TPJob(*a, **k):
    k.setdefault('src', TP); k.setdefault('generic', True); k.setdefault('opaque', True); k.setdefault('forkselect', 128); k.setdefault('bnw', 96)
    return Job(*a, **k)

def c07(tier):
    return [Job('truth', 'c07_gates.cpp', src=GCU, covers=['halfgate'], note='all 11 gate types; both input bits symbolic (complete)'),
            Job('known', 'c07_gates.cpp', entry='known_main', src=GCU, covers=['both secret', 'unforced', 'forced'],
                note='all 11 gate types; each input symbolic over {0,1,SECRET,SECRET_INV} (complete)')]
PROPS['C07'] = {'jobs': c07}

def c01(tier):
    d = 3 if tier == 'quick' else 4
    return [Job('onegate', 'c01_gate.cpp', src=GCU, shards=4, covers=['public output', 'secret output', 'table'],
                note='every gate type x {public,secret}^2 x {distinct,equal,inverse} x input bits x inversion flags; labels (128 bit), offset, 11 round keys, clock number (64 bit), gate number (<2^32-1) symbolic; AES round function uninterpreted'),
            Job('history', 'c01_gate.cpp', entry='chain_main', src=GCU, shards=8 if tier == 'quick' else 16, params={'depth': d}, covers=['public output', 'secret output'], time=300 if tier == 'quick' else 2400,
                note='every sequence of %d gates over two secret inputs: %d XOR/XNOR/NOT gates with any operands, then any gate type on any two wires; labels symbolic' % (d, d - 1))]
PROPS['C01'] = {'jobs': c01, 'assumptions': ['AES round function is an uninterpreted function (C20 decides the cipher itself)', 'gate number below 2^32-1 (GarbledTable stores 32 bits)', 'history job: the two input labels are non-zero, distinct and not related through the offset (C06)']}

RUN = ['protocol finished']
def run_families(tier, pre, **par):
    q = tier == 'quick'
    J = lambda n, e, note, sh=8, **p: TPJob(pre + n, 'c02_run.cpp', entry=e + '_main', shards=sh, covers=RUN, note=note, params=dict(par, **p), time=150 if q else 1500)
    return [J('comb1', 'comb1', '1 gate: all 11 types x all operands among one public/garbler/evaluator input and both constants x second output any wire; all input bits; all labels with point-and-permute bit 0', 1),
            J('comb1lsb', 'comb1', 'as comb1, point-and-permute bit 1', 1, lsb=1, mask=1),
            J('comb2', 'comb2', '2 gates of 6 representative types, the second reading the first', 8),
            J('drop', 'drop', 'AND gate + 3 gates AND/XOR over any earlier gate and a public/garbler wire'),
            J('dropseq', 'dropseq', '3 gates AND/XOR and a toggling public flip-flop, 3 clocks', cc=3),
            J('seq1', 'seq1', '1 flip-flop (any of 5 sources for I, 7 for D), 1 gate of 3 types, 2 clocks', cc=2, types=3, ot=1),
            J('seq2', 'seq2', '2 flip-flops, 2 gates, %d clocks' % (2 if q else 3), cc=2 if q else 3, types=2, ot=1),
            J('wide', 'wide', '2-3 init and input wires per owner, 7 flip-flops, free gates, 3 clocks; every wire an output', 4, ot=1)]
def c02(tier): return run_families(tier, '')
PROPS['C02'] = {'jobs': c02}
def c03(tier):
    q = tier == 'quick'
    L = lambda n, e, note, **p: TPJob(n, 'c02_run.cpp', entry=e + '_main', shards=8, covers=RUN, note=note, params=dict(low=1, **p), time=150 if q else 1500)
    return run_families(tier, 'low-', low=1) + [
        L('last-seq1', 'seq1', 'seq1 family, last_clock mode', mode=2, cc=2, types=2, ot=1),
        L('last-dropseq', 'dropseq', 'dropseq family, last_clock mode', mode=2, cc=3),
        L('last-wide', 'wide', 'wide family, last_clock mode', mode=2, ot=1)]
PROPS['C03'] = {'jobs': c03}

def c04(tier):
    q = tier == 'quick'
    J = lambda n, e, note, **p: TPJob(n, 'c04_mask.cpp', entry=e + '_main', shards=8, covers=RUN, note=note, params=p, time=150 if q else 1500)
    N = '4 outputs mixing public and secret wires, all 16 masks and two longer than the outputs, '
    return [J('mask', 'mask', N + '2 clocks, high-memory mode'), J('mask-low', 'mask', N + '2 clocks, low-memory mode, all clocks', low=1),
            J('mask-last', 'mask', N + '2 clocks, low-memory mode, last clock', low=1, mode=2),
            J('mask-term', 'mask', N + '2 clocks with early termination', term=1, shapes=2), J('mask-low-term', 'mask', N + 'low-memory, early termination, last clock', low=1, mode=2, term=1, shapes=2),
            J('long', 'longmask', '34 outputs, 4 masks as text'), J('long-low', 'longmask', '34 outputs, 4 masks as text, low-memory', low=1)]
PROPS['C04'] = {'jobs': c04}

def c05(tier):
    q = tier == 'quick'
    J = lambda n, e, note, **p: TPJob(n, 'c05_term.cpp', entry=e + '_main', shards=8, covers=RUN + (['stopped early', 'ran to the end'] if e == 'term' else []), note=note, params=p, time=150 if q else 1500)
    c = 3 if q else 4
    N = '7 kinds of terminate wire (public input, public flip-flop, garbler input, gate, secret flip-flop, gates dropped in some clocks), periods 0-3, %d clocks, ' % c
    return [J('term', 'term', N + 'high-memory', cc=c), J('term-low', 'term', N + 'low-memory', cc=c, low=1), J('term-last', 'term', N + 'low-memory, last clock', cc=c, low=1, mode=2), J('term-lsb', 'term', N + 'other point-and-permute bits', cc=c, lsb=1),
            J('noterm', 'noterm', 'period 0 or no terminate wire'), J('noterm-low', 'noterm', 'same, low-memory', low=1)]
PROPS['C05'] = {'jobs': c05}

def c06(tier):
    q = tier == 'quick'
    J = lambda n, ent, note, **p: TPJob(n, 'c06_labels.cpp', entry=ent + '_main', shards=4, covers=RUN, note=note, params=p, time=150 if q else 1500)
    js = []
    for low in (0, 1):
        s = '-low' if low else ''
        js += [J('labels' + s, 'labels', '2 garbler init, 1 evaluator init, 2+2 inputs, 2 clocks, OT on and off; every message inspected', low=low), J('short' + s, 'short', 'input words of 0..4 bits for 4-bit inputs', low=low)]
        js += [J('labels-lsb' + s, 'labels', '1 garbler init, 2 evaluator init, 3+1 inputs, %d clocks, other point-and-permute bits' % (2 if q else 4), low=low, lsb=1, gi=1, ei=2, g=3, e=1, cc=2 if q else 4)]
    return js
PROPS['C06'] = {'jobs': c06, 'assumptions': ['oblivious transfer is the ideal functionality here (C09, C10)', 'random labels are generic: two different random values, and a random value and a hash, are never equal']}

DONE = ['done']
def c11(tier):
    q = tier == 'quick'
    S = ['crypto/BN.cpp', 'tcpip/tcpip.cpp']
    J = lambda n, note, **p: Job(n, 'c11_bn.cpp', entry=n + '_main', src=S, covers=DONE, note=note, bnw=192, params=p, shards=2, time=150 if q else 1200)
    b = 3 if q else 12
    return [J('xor', 'all pairs of %d-byte numbers, every width up to %d bits, result fresh, old value or aliasing either operand' % (b, 8 * b + 2), bytes=b), J('invert', 'all %d-byte numbers, every width up to %d bits' % (b, 8 * b + 2), bytes=b),
            J('ones', 'every width up to 139 bits'), J('block', 'every 128-bit block (complete)'), J('numblock', 'every number of 0..18 bytes'),
            J('wire', 'two numbers, the first of 0..%d bytes incl. zero and leading zero bytes, whole or short reads' % (4 if q else 15), bytes=5 if q else 16), J('wirefail', 'every point at which the connection can break, 3-byte numbers')]
PROPS['C11'] = {'jobs': c11, 'assumptions': ['numbers are non-negative; OpenSSL big numbers are modelled as 192-bit integers']}

def c12(tier):
    n = 5 if tier == 'quick' else 7
    return [Job(e, 'c12_tcp.cpp', entry=e + '_main', src=['tcpip/tcpip.cpp'], covers=['all sent', 'failed', 'split', 'empty'], params={'n': n}, shards=2,
                note='requests of %d, ..., -1 and INT_MIN bytes; the operating system moves any part of each request, fails, or closes, at every call; data symbolic' % n) for e in ('send', 'recv')]
PROPS['C12'] = {'jobs': c12}

def c19(tier):
    q = tier == 'quick'
    J = lambda n, cov, note, **p: Job(n, 'c19_str2block.cpp', entry=n + '_main', src=UTIL, covers=cov, note=note, params=p, shards=4, time=200 if q else 1500)
    return [J('digits', DONE, ('12 lengths' if q else 'every length') + ' 0..32, every digit symbolic in either case, up to two separators at 4 places', all=0 if q else 1),
            J('bad', ['accepted', 'rejected'], '6 lengths, one or two adjacent arbitrary bytes at every position among digits'), J('long', DONE, '33..36 symbolic digits; null destination')]
PROPS['C19'] = {'jobs': c19}

def c20(tier):
    q = tier == 'quick'
    J = lambda ent, note, **p: Job(ent, 'c20_aes.cpp', entry=ent + '_main', src=UTIL, covers=DONE, note=note, params=p, time=200 if q else 1500)
    return [J('key', 'every 128-bit key (complete); S-box uninterpreted'), J('round', 'every state and key: instruction model equals the FIPS-197 round'), J('batch', 'batches of 0..%d blocks, every data and round-key value; round operation uninterpreted' % (9 if q else 15), n=10 if q else 16), J('cipher', 'whole cipher, every key, 2 blocks; S-box uninterpreted')]
PROPS['C20'] = {'jobs': c20, 'assumptions': ['the hardware AES instructions implement the FIPS-197 round (replays run them)']}

def c21(tier):
    q = tier == 'quick'
    J = lambda n, note, **p: TPJob(n, 'c21_tweak.cpp', entry='run_main', covers=RUN, note=note, params=p, time=150 if q else 1500)
    cc, g = (3, 3) if q else (5, 4)
    return [TPJob('gate', 'c21_tweak.cpp', entry='gate_main', src=TP, covers=['same', 'different'], note='all 8 table gate types; two gates with any 64-bit clock and 32-bit gate numbers')] + \
           [J('run' + s, '%d gates x %d clocks hashing the same labels; every transmitted row compared' % (g, cc), cc=cc, gates=g, **p) for s, p in (('', {}), ('-low', {'low': 1}), ('-lsb', {'lsb': 1}))]
PROPS['C21'] = {'jobs': c21}

def c08(tier):
    q = tier == 'quick'
    return [Job('count', 'c08_fanout.cpp', entry='count_main', src=GCU, shards=8, covers=['accepted', 'rejected'], params={'gates': 4 if q else 6, 'dffs': 2, 'outs': 2}, time=200 if q else 1500,
                note='every circuit of 1..%d gates, 1..3 inputs, 0..2 flip-flops, 1..2 outputs; operands, data, outputs and terminate wire symbolic over all wires and constants' % (4 if q else 6)),
            Job('nonxor', 'c08_fanout.cpp', entry='nonxor_main', src=GCU, covers=DONE, note='0..6 gates of any type'),
            Job('remove', 'c08_fanout.cpp', entry='remove_main', src=GCU, shards=8, covers=DONE, params={'gates': 4, 'steps': 2 if q else 4}, time=200 if q else 1500,
                note='4 gates over any earlier wires; every sequence of %d removals of a reader or of a whole gate' % (2 if q else 4)),
            Job('remove3', 'c08_fanout.cpp', entry='remove_main', src=GCU, shards=8, covers=DONE, params={'gates': 3, 'steps': 3 if q else 5}, time=200 if q else 1500,
                note='3 gates over any earlier wires; every sequence of %d removals of a reader or of a whole gate' % (3 if q else 5))]
PROPS['C08'] = {'jobs': c08}

SCD = ['scd/scd.cpp', 'util/util.cpp']
def c14(tier):
    q = tier == 'quick'
    J = lambda n, g, d: Job(n, 'c14_sort.cpp', entry='sort_main', src=['scd/scheduling.cpp', 'scd/parse_netlist.cpp', 'util/util.cpp'], shards=8, covers=['cyclic', 'sorted', 'done'], params={'gates': g, 'dffs': d}, time=250 if q else 2000,
                note='every circuit of %d gates in any order, cyclic ones included; which input or constant an operand reads, types, %d flip-flops, outputs and terminate wire symbolic' % (g, d))
    return [J('sort3', 3, 2), J('sort4', 4, 1)]
PROPS['C14'] = {'jobs': c14, 'assumptions': ['at least one input wire (wire 0 is not a gate)']}

def c15(tier):
    q = tier == 'quick'
    J = lambda ent, note, **p: Job(ent, 'c15_scd.cpp', entry=ent + '_main', src=SCD + ['garbled_circuit/garbled_circuit_util.cpp', 'tcpip/tcpip.cpp'], shards=4, covers=DONE, params=p, note=note, time=200 if q else 1500)
    n = 3 if q else 5
    return [J('trip', 'up to %d gates, flip-flops and outputs, gate list in several orders; every field any 64-bit value' % (n - 1), n=n), J('layout', 'the documented file layout, every field any 64-bit value', n=n), J('missing', 'missing file')]
PROPS['C15'] = {'jobs': c15, 'assumptions': ['decimal text of a number is kept as one token by the stream model; operator>> of libstdc++ is taken to read back what operator<< wrote when white space separates the numbers']}

def c16(tier):
    q = tier == 'quick'
    S = GCU + ['scd/scd.cpp', 'scd/scd_evaluator.cpp']
    return [Job('plain', 'c16_plain.cpp', entry='plain_main', src=S, shards=8, covers=DONE + ['stopped early'], params={'shapes': 7 if q else 12}, time=250 if q else 2500, bnw=96,
                note='6 size combinations of init/input groups x %d circuit shapes (0..3 flip-flops, 1..%d gates, 1..3 outputs, 1..%d clocks) x 6 terminate/period/trace modes; gate types, operands, flip-flop data and initial sources, outputs, terminate wire and all bits symbolic' % ((7, 2, 3) if q else (12, 4, 4)))]
PROPS['C16'] = {'jobs': c16}

def c17(tier):
    q = tier == 'quick'
    return [Job('print', 'c17_output.cpp', entry='print_main', src=UTIL, shards=8, covers=DONE, params={'widths': 8 if q else 10, 'cc': 3 if q else 4}, time=200 if q else 1500, bnw=96,
                note='%d output widths 1..%d, 1..%d clocks, three modes, both memory modes, every output value' % ((8, 9, 3) if q else (10, 17, 4)))]
PROPS['C17'] = {'jobs': c17}

def c18(tier):
    q = tier == 'quick'
    J = lambda ent, note, sh=4, **p: Job(ent, 'c18_convert.cpp', entry=ent + '_main', src=UTIL, shards=sh, covers=DONE, params=p, note=note, time=200 if q else 1500)
    return [J('hex2bin', '0..%d hexadecimal digits of either case' % (5 if q else 17), n=6 if q else 18), J('bin2hex', '0..%d bits' % (13 if q else 40), n=14 if q else 41),
            J('decbin', 'every 64-bit value, %s widths 1..64' % ('11' if q else 'all'), all=0 if q else 1), J('pack', '1..3 values of 4 length combinations'), J('unpack', '1..3 values, 4 length combinations, 4 offsets, text shorter, exact and longer'),
            J('long', '255, 256 and 300 values'), J('mask', 'shares 0..%d each' % (9 if q else 29), n=10 if q else 30)]
PROPS['C18'] = {'jobs': c18}

def c26(tier):
    q = tier == 'quick'
    J = lambda ent, note, sh=4, **p: Job(ent, 'c26_files.cpp', entry=ent + '_main', src=UTIL, shards=sh, covers=DONE, params=p, note=note, time=200 if q else 1500, native_libs=('-lboost_program_options', '-lcrypto'))
    n = 6 if q else 12
    return [J('file', '0..3 lines of 0..2 printable characters, with and without a final newline'), J('literal', 'literals of 0..5 digits'), J('bytes', 'numbers of 0..%d bytes, arrays of 0..%d bytes' % (n - 1, n + 1), n=n)]
PROPS['C26'] = {'jobs': c26}

def c22(tier):
    J = lambda ent, f, note: Job(ent, 'c22_arith.cpp', entry=ent + '_main', defs=['SRCFILE="a23/%s/%s.c"' % (f, f)], shards=2, covers=DONE, time=250, note=note + '; alone or after a call on other inputs')
    return [J('sum', 'sum', 'every pair of 1024-bit numbers'), J('mul', 'mul', 'every pair of words'), J('compare', 'compare', 'every pair of 1024-bit numbers'), J('hamming', 'hamming', 'every pair of words'),
            J('matrix', 'matrix-mul', 'every pair of 3x3 matrices'), J('mem', 'mem-test', 'every input')]
PROPS['C22'] = {'jobs': c22, 'assumptions': ['the host build of the A23 programs (the ARM assembly variants of sum and compare are not compiled here)', 'signed overflow wraps, as in the compiled binaries']}

def c23(tier):
    q = tier == 'quick'
    J = lambda n, ent, f, note, sh=8, **p: Job(n, 'c23_sort.cpp', entry=ent + '_main', defs=['SRCFILE="a23/%s/%s.c"' % (f, f)], shards=sh, covers=DONE, params=p, time=250 if q else 2500, note=note)
    js = []
    for n, f in (('bubble', 'bubble-sort'), ('merge', 'merge-sort')):
        js += [J(n, 'sort', f, '%d symbolic elements (all 32-bit values) at 13 sets of positions, the other elements all equal' % (3 if q else 4), k=3 if q else 4, backs=1 if q else 4),
               J(n + '-insert', 'insert', f, 'one symbolic element at each of the 32 positions among 31 fixed ones in %d arrangements' % (2 if q else 4), inserts=2 if q else 4)]
    return js + [J('paths', 'path', 'dijkstra', '8 families of %d symbolic edges (any weight 0..2^31-2^16) over 3 fixed backgrounds' % (4 if q else 6), k=4 if q else 6, merge=1)]
PROPS['C23'] = {'jobs': c23, 'assumptions': ['edge weights at most 2^31-2^16 (sums that overflow 32 bits are outside)']}

def c09(tier):
    q = tier == 'quick'
    S = ['crypto/OT.cpp', 'crypto/BN.cpp', 'tcpip/tcpip.cpp']
    J = lambda ent, note, **p: Job(ent, 'c09_ot.cpp', entry=ent + '_main', src=S, shards=8, covers=DONE, params=p, bnw=192, note=note, time=200 if q else 2500)
    return [J('number', '0..%d transfers of numbers of 0, 1, 2 or 17 bytes, every selection vector' % (2 if q else 3), n=3 if q else 4), J('block', '1..%d transfers of blocks, every selection vector' % (2 if q else 3), n=2 if q else 3),
            J('hide', '1..%d transfers, every pair of selection vectors' % (2 if q else 3), n=2 if q else 3), J('mask', '1..%d transfers, any byte as the receiver\'s message' % (2 if q else 3), n=2 if q else 3), J('length', '0..2 transfers expected against 0..2 offered')]
PROPS['C09'] = {'jobs': c09, 'assumptions': ['the generated key is replaced by RSA with modulus 33 (exponents as requested), on which every residue is covered exactly; the protocol code does not look at the modulus', 'random numbers are one byte; the pair of random numbers the sender draws for a transfer is not zero']}

def c10(tier):
    q = tier == 'quick'
    S = ['crypto/OT_extension.cpp', 'crypto/BN.cpp', 'tcpip/tcpip.cpp']
    J = lambda ent, note, **p: Job(ent, 'c10_ext.cpp', entry=ent + '_main', src=S, shards=8, covers=DONE, params=p, bnw=288, note=note, time=200 if q else 2500)
    return [J('block', '0..%d blocks, every selection vector' % (2 if q else 3), n=2 if q else 3), J('number', '1..%d numbers of %s bits' % ((1, '8, 64, 12 and 100') if q else (2, '10 widths of 1..256')), n=1 if q else 2, widths=4 if q else 10),
            J('long', '%s transfers; three symbolic pairs of numbers among fixed ones' % ('66' if q else '66 and 130'), sizes=1 if q else 2), J('mask', '1..%d transfers' % (2 if q else 3), n=2 if q else 3), J('width', 'messages of %d widths' % (5 if q else 10), widths=5 if q else 10),
            J('seed', '1..2 transfers'), J('transpose', 'matrices of up to 128x3, 2x65' if q else 'matrices of up to 130x2, 7x130', dims=7 if q else 11)]
PROPS['C10'] = {'jobs': c10, 'assumptions': ['the base transfer is the ideal one (C09 decides the real one); SHA-256 is an arbitrary function; for the mask checks different hash inputs give different masks', 'the leading bytes of every random draw are from fixed lists (with leading zero bytes, equal rows), the others arbitrary; rows of one index have equal byte lengths in the mask checks', 'the topmost bit of every number sent is set (C11 decides the wire format for all numbers)']}

V2S = ['scd/v_2_scd.cpp', 'scd/parse_netlist.cpp', 'scd/scheduling.cpp', 'scd/scd.cpp', 'util/util.cpp', 'garbled_circuit/garbled_circuit_util.cpp', 'tcpip/tcpip.cpp']
def c13(tier):
    q = tier == 'quick'
    J = lambda ent, note, sh=8, **p: Job(ent, 'c13_verilog.cpp', entry=ent + '_main', src=V2S, shards=sh, covers=DONE, params=p, note=note, time=200 if q else 2500)
    return [J('cells', 'every cell type with operands of %d combinations of kinds (any bit index, constants), feeding one of %d other cells; %d layouts and pin orders' % ((4, 3, 6) if q else (7, 8, 6)), kinds=4 if q else 7, second=3 if q else 8, forms=0 if q else 6),
            J('dff', 'two flip-flops, 5 kinds of data, 4 kinds of initial value', forms=3 if q else 6), J('ports', '8 sets of widths of the six inputs in 3 orders and 4 layouts'),
            J('alias', 'chains of three assignments in every order from a cell, an input or a constant to an output, a cell and terminate'), J('pins', 'every pin of every cell left out, unconnected or undriven'), J('reject', '11 malformed netlists (bad ports, undefined wires, loops)', 2), J('cut', 'a netlist cut after every character', 4)]
PROPS['C13'] = {'jobs': c13, 'assumptions': ['cell and net names are from fixed sets; one bit index per netlist is arbitrary, the others are chosen; values of inputs and flip-flops are arbitrary', 'each netlist has at most six cells', 'a terminate signal that is the very first input wire is not representable in the file format and left out']}

def c25(tier):
    q = tier == 'quick'
    J = lambda ent, note, sh=8, **p: Job(ent, 'c25_bristol.cpp', entry=ent.split('-')[0] + '_main', src=V2S, shards=sh, covers=DONE, params=p, note=note, time=200 if q else 2500)
    return [J('ops', '%d gates of any types, the operands of any one of them arbitrary, %d sets of sizes' % ((3, 4) if q else (4, 6)), gates=3 if q else 4, sizes=4 if q else 6),
            J('ops-text', '%d gates, %d sets of sizes; the digits of the operands of one gate are symbolic' % ((2, 2) if q else (3, 4)), gates=2 if q else 3, sizes=2 if q else 4, symbolic=1), J('wide', '12..20 gates over 12..20 inputs, all input values'), J('reject', 'unknown gate names, empty or incomplete circuits', 2)]
PROPS['C25'] = {'jobs': c25, 'assumptions': ['gates come after the gates they read; up to 20 gates and wires below 40', 'operands of one gate per circuit are arbitrary wires, the others chosen']}
