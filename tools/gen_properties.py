#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the text is reviewable)."""
import json, os
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    assert len(title)<=80,(id,len(title))
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None))
    if state: d["anchors"]["state"]=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    P.append(d)
NOTEST="The only tests that touch this code (Garbled_Circuit_Test, SCD tests) need netlist archives missing from the repository and do not run; "

prop("C01","Garbling then evaluating one gate yields the label of the gate's output",
 "For every gate type, every pair of input wires (each secret with arbitrary labels, publicly known, equal to or the inverse of the other) and every clock/gate number, garbling the gate and then evaluating it with the labels of any input bits leaves the evaluator either with exactly the garbler's label for the gate's true output bit, or with the public output value on which both sides agree and which equals the gate's truth table. The two garbled output labels always differ by the global offset, both sides consume/produce the same number of garbled tables, and only non-free gates with two distinct secret inputs produce one.",
 ["inputs","programs"],"all 11 gate types x public/secret/equal/inverted input wires x all 128-bit labels, offset with low bit 1, cipher outputs, clock and gate numbers",
 NOTEST+"a wrong row, permute bit or inversion only shows for particular label low bits and input combinations out of 2^500.",
 ["garbled_circuit/garbled_circuit_util.cpp","util/util.cpp","crypto/block.h"],
 [("half-gates garbling","garbled_circuit_util.cpp:GarbleGate"),("evaluation","garbled_circuit_util.cpp:EvalGate"),("gate constants","util.cpp:Type2V, GateOperator"),("label comparison","block.h:CmpBlock")],
 ["GarbleGate/EvalGate outputs: labels, public value, table index"])
prop("C02","Two-party execution (default memory mode) computes the circuit's function",
 "Whatever the sequential circuit (gates, flip-flops with any initial source, public/garbler/evaluator init and input wires, outputs) and whatever the parties' inputs, when both parties run the protocol in the default (high memory) mode both finish successfully and the output bits they learn, put together, are exactly what running the circuit in the clear for the same number of clock cycles gives. The two parties never disagree on how many garbled tables are exchanged, and no result depends on uninitialised memory.",
 ["programs","inputs","histories"],"all circuits within the stated size (gates, flip-flops, inputs, clock cycles), all inputs, all random labels and offsets",
 NOTEST+"hidden corner cases need particular topologies (dropped gates, equal labels, latched constants) over several clock cycles.",
 ["garbled_circuit/garbled_circuit_high_mem.cpp","garbled_circuit/garbled_circuit_util.cpp","garbled_circuit/garbled_circuit.cpp"],
 [("garbler loop","garbled_circuit_high_mem.cpp:GarbleHighMem"),("evaluator loop","garbled_circuit_high_mem.cpp:EvaluateHighMem"),("label transfer","GarbleTransferLabels/EvaluateTransferLabels")],
 ["GarbleBNHighMem/EvaluateBNHighMem return codes and output numbers"],
 [("garbled_tables","per-clock table buffer with gate ids","EvaluateHighMem"),("wires_val","public value or SECRET per wire","both sides"),("dff_latch","flip-flop state between clocks","both sides")])
prop("C03","Two-party execution in low-memory mode computes the circuit's function",
 "Running the protocol with the low-memory option gives both parties, for every sequential circuit, every input and every output mode (all clocks or last clock only), the same outputs as running the circuit in the clear; both finish successfully with the same number of garbled tables and labels per clock cycle. No output bit of an earlier clock cycle leaks into a later one and no result depends on uninitialised memory.",
 ["programs","inputs","histories","configurations"],"all circuits within the stated size, all inputs, output modes, number of clock cycles up to the bound",
 NOTEST+"the low-memory path duplicates the whole protocol with different indexing and per-clock transfers.",
 ["garbled_circuit/garbled_circuit_low_mem.cpp","garbled_circuit/garbled_circuit_util.cpp"],
 [("garbler","garbled_circuit_low_mem.cpp:GarbleBNLowMem"),("evaluator","garbled_circuit_low_mem.cpp:EvaluateBNLowMem")],
 ["GarbleBNLowMem/EvaluateBNLowMem return codes and output numbers"])
prop("C04","Each output bit is learned exactly by the party the output mask names",
 "For every output mask (of any length) the garbler obtains the true value of exactly the output positions whose mask bit is 1 and reads 0 elsewhere, and the evaluator obtains the true value of exactly the other positions and reads 0 elsewhere, in every clock cycle, in both memory modes, whether the output bit is secret or public. For a secret output only one decoding bit travels, from the party that does not learn the bit to the one that does.",
 ["inputs","configurations"],"all masks, all output values/labels (secret, public 0, public 1), clock cycles and output modes within the bound",
 NOTEST+"the interesting cases are masks shorter than the output and public (constant) outputs, which no test names.",
 ["garbled_circuit/garbled_circuit_high_mem.cpp","garbled_circuit/garbled_circuit_low_mem.cpp"],
 [("high-mem transfer","GarbleTransferOutput/EvaluateTransferOutput"),("low-mem transfer","GarbleTransferOutputLowMem/EvaluateTransferOutputLowMem")],
 ["output numbers of both parties, bytes on the channel"])
prop("C05","Early termination: both parties stop in the first clock the circuit says so",
 "If a circuit has a terminate wire and a terminate period k>0, both parties stop after exactly the first clock cycle that is a multiple of k in which the terminate wire carries 1, or run all the requested clock cycles if there is none, and both report the same number of cycles. This holds whether the terminate wire is public or secret and in both memory modes; with k=0 or no terminate wire nobody stops early, and neither party ever blocks waiting for the other.",
 ["inputs","histories","configurations"],"all terminate-wire values per clock (public and secret), periods and clock counts within the bound",
 NOTEST+"no test has a secret terminate wire; the outcome depends on low bits of random labels and on message order.",
 ["garbled_circuit/garbled_circuit_util.cpp","garbled_circuit/garbled_circuit_high_mem.cpp","garbled_circuit/garbled_circuit_low_mem.cpp"],
 [("exchange","GarbleTransferTerminate/EvaluateTransferTerminate"),("loop exit","Garble/EvaluateHighMem, Garble/EvaluateBNLowMem")],
 ["is_terminate, *clock_cycles, deadlock of the two-party run"])
prop("C06","The garbler sends one label per input bit and never the global offset",
 "For every input the garbler transmits, for each of its own init/input bits, exactly the one label that stands for that bit, and the evaluator ends up with exactly the one label that stands for each of its own bits, whether oblivious transfer is on or off and in both memory modes; absent high-order input bits count as 0. Label pairs always differ by the global offset, whose lowest bit is 1, and with oblivious transfer on the evaluator's own bits are never sent in the clear.",
 ["inputs","configurations"],"all init/input sizes and values, clock cycles within the bound, OT enabled (ideal OT interface) and disabled, both memory modes",
 NOTEST+"a swapped label or a wrong stride only shows for particular bit positions and multi-clock inputs, and secrecy is invisible to functional tests.",
 ["garbled_circuit/garbled_circuit_high_mem.cpp","garbled_circuit/garbled_circuit_low_mem.cpp","garbled_circuit/garbled_circuit.cpp"],
 [("label generation","GarbleMakeLabels / low-mem equivalent"),("label transfer","GarbleTransferLabels/EvaluateTransferLabels and low-mem init/input variants"),("offset","garbled_circuit.cpp:GarbleStr")],
 ["bytes on the channel, label arrays of both parties"])
prop("C07","Every gate type has one truth table, used consistently everywhere",
 "For each of the 11 gate types the plaintext gate operator equals the documented Boolean function, the half-gate constants satisfy op(a,b) = ((a^v0)&(b^v1))^v2, and the public-value propagation returns a constant exactly when the known inputs already force the output (and that constant is right), and 'secret' otherwise.",
 ["inputs","programs"],"all gate types, all Boolean inputs, all combinations of public and secret inputs",
 "Util_Test does not touch gate functions; every other test that would is not runnable.",
 ["util/util.cpp","util/common.h","garbled_circuit/garbled_circuit_util.cpp"],
 [("operator","util.cpp:GateOperator"),("half-gate constants","util.cpp:Type2V"),("propagation","garbled_circuit_util.cpp:GarbleEvalGateKnownValue")],
 ["return values"])
prop("C08","Fan-out accounting is exact, so a gate is dropped only when nothing needs it",
 "For every circuit the recorded fan-out of a gate equals the number of gate inputs, flip-flop inputs, outputs and the terminate wire that read it; a circuit that reads a gate before it is computed, or has a gate nobody reads, is rejected with a failure. Removing a reader reduces fan-outs so that a gate reaches zero exactly when all of its readers (transitively) are gone, never goes negative and never touches wires that are not gates; the number of non-free gates reported equals the number of gates other than XOR, XNOR and NOT.",
 ["programs","histories"],"all circuits up to the stated number of gates/flip-flops/outputs and all removal sequences within the bound",
 NOTEST+"an off-by-one only bites when a shared gate loses one of several readers.",
 ["garbled_circuit/garbled_circuit_util.cpp"],
 [("count","FillFanout"),("release","ReduceFanout"),("count of non-free gates","NumOfNonXor")],["fanout fields, return code"])
prop("C09","Base oblivious transfer delivers the chosen messages and reveals only the choice",
 "For every vector of message pairs and selection bits, after the base oblivious transfer the receiver holds exactly message[i][select[i]] for every i and both sides succeed, for big-number and 128-bit-block messages alike. What the receiver transmits is blinded by a fresh random value for every transfer, and the sender's two replies are masked by two different decryptions, so the unselected message is not sent in the clear.",
 ["inputs","histories"],"all selections, message values and random choices; RSA modelled as an arbitrary permutation with inverse (stated bound on vector length and modulus width)",
 "OT_Test runs a handful of random vectors with one real key; rare values (x0-x1 wrap-around, leading zero bytes, zero messages) are not reached.",
 ["crypto/OT.cpp","crypto/BN.cpp"],[("sender","OT.cpp:OTSendBN/OTSend"),("receiver","OT.cpp:OTRecvBN/OTRecv")],
 ["received messages, bytes on the channel"])
prop("C10","Oblivious-transfer extension delivers the chosen messages for any length",
 "For every number of transfers accepted by the extension and every selection vector, the receiver of the extended oblivious transfer obtains exactly message[i][select[i]] for every i; the bit-matrix transposition it relies on maps entry (r,c) to (c,r) for every matrix. Every bit of every message sent is masked; every mask is a hash of an input of its own (index position and row), and the two for one index differ by the sender's fresh 128-bit secret, so that the receiver can remove the mask of the chosen message only.",
 ["inputs"],"all selection vectors, seeds, base-OT choices; hash as an arbitrary function; lengths up to the bound",
 "OT_Extension_Test samples random vectors of one length; row/column, padding and top-bit cases are not enumerated.",
 ["crypto/OT_extension.cpp","crypto/BN.cpp"],[("sender","OTExtSendBN/OTExtSend"),("receiver","OTExtRecvBN/OTExtRecv"),("transpose","SwitchRowColumnBN(Pair)"),("hash","HashBN")],
 ["received messages"])
prop("C11","Big-number helpers and wire format are exact and lossless",
 "Bitwise XOR of two non-negative numbers, inversion within a given width and the all-ones number equal their mathematical definitions; converting a 128-bit block to a number and back is the identity for every block; sending a number over a connection delivers the same number for every value including zero and numbers with leading zero bytes.",
 ["inputs"],"all values up to the stated widths",
 "BN_Test samples random values of full width; leading-zero, zero and unequal-length operands are rare.",
 ["crypto/BN.cpp","crypto/BN.h"],[("bitwise","BN_xor, BN_invert, BN_full_one"),("conversion","BlockToBN, BNToBlock"),("wire","SendBN, RecvBN")],["returned numbers/blocks, bytes on the channel"])
prop("C12","Sending and receiving moves every byte exactly once or reports failure",
 "Sending or receiving n bytes over a connection succeeds only if all n bytes went through, in order, each exactly once, however the operating system splits reads and writes; if any transfer reports an error or a closed connection the call reports failure and never touches memory outside the caller's buffer. A request for zero or fewer bytes succeeds without any transfer.",
 ["inputs","fault_sequences"],"all byte contents, all splits into short transfers, an error or close at any step, lengths up to the bound",
 "TCPIP_Test runs over loopback, where short writes and failures practically never happen.",
 ["tcpip/tcpip.cpp"],[("send loop","SendData"),("receive loop","RecvData")],["return value, bytes consumed/produced, buffer"])
prop("C13","Importing a Verilog netlist keeps the meaning of every cell and every wire",
 "For every supported netlist the imported circuit has one gate per basic cell with the same type and operands, and each multiplexer, half-adder and full-adder cell becomes gates that compute SEL?IN1:IN0, the sum and the carry for all inputs; ports may appear in any order and on several lines. Every wire name, constant, declared input/output bit, alias (assign) and terminate signal resolves to the signal that drives it, and a netlist that names an unknown port, leaves out a required pin, uses an undriven wire or has no endmodule is rejected with a failure.",
 ["programs","inputs"],"symbolic choice of cells, pins order, operand wires, declared widths and aliases within the stated netlist templates; all input bits",
 "All netlist tests need archives missing from the repository; no test runs the parser.",
 ["scd/parse_netlist.cpp","scd/parse_netlist.h"],[("tokenising and cells","ParseNetlist"),("names to wire ids","IdAssignment, AddWireArray")],["ReadCircuit gate/dff/output lists and return codes"])
prop("C14","Scheduling reorders gates without changing what the circuit computes",
 "For every acyclic circuit the sorted circuit contains every gate exactly once with its own type, each gate after the gates it reads, every operand, flip-flop input, output and the terminate wire still refers to the same signal, and input/flip-flop numbering is unchanged. A circuit with a combinational cycle is rejected with a failure instead of being written.",
 ["programs"],"all circuits up to the stated number of gates, flip-flops, inputs and outputs (all gate orders and operand choices symbolic)",
 NOTEST+"wrong renumbering only shows for gate lists given in particular non-topological orders.",
 ["scd/scheduling.cpp"],[("sort","TopologicalSort, SortNetlist"),("mapping","WriteMapping")],["ReadCircuit after SortNetlist, return code"])
prop("C15","A circuit written to a .scd file is read back identical",
 "Writing any circuit description to a file and reading it back gives a circuit with the same sizes, the same gates (operands, type, output position), the same flip-flop data and initial sources, the same outputs and terminate signal; a missing file is reported as failure. In the circuit read back, gate i drives the wire that follows all init, input and flip-flop wires by i.",
 ["programs","inputs"],"all field values (64-bit) of circuits up to the stated number of gates, flip-flops and outputs",
 NOTEST+"a swapped or narrowed field only shows for particular values.",
 ["scd/scd.cpp","scd/scd.h"],[("writer","WriteSCD"),("reader","ReadSCD")],["file contents, GarbledCircuit fields, return code"])
prop("C16","The plaintext evaluator implements sequential-circuit semantics",
 "For every circuit, init and input values and number of clock cycles, plaintext evaluation gives exactly: flip-flops start from their initial source, take the previous cycle's data value in every later cycle, each gate computes its truth table, and output bit j of cycle c is bit c*outputs+j; it stops in the first cycle selected by the terminate period in which the terminate wire is 1 and returns the number of cycles run.",
 ["programs","inputs","histories"],"all circuits within the stated size, all init/input values, clock cycles up to the bound",
 NOTEST+"the plaintext evaluator is the reference for every garbling test, so its own errors cancel out.",
 ["scd/scd_evaluator.cpp"],[("simulation","EvalauatePlaintext"),("wrapper","EvalauatePlaintextStr")],["output number, clock count, return codes"])
prop("C17","Printed outputs show exactly the output bits of the requested clock cycles",
 "For every output value, output width, number of clock cycles and output mode, the printed hexadecimal text denotes exactly the concatenation of all cycles (consecutive mode), one number per cycle, first cycle first, one line each (separated mode), or the last cycle only (last-clock mode); high- and low-memory formatting agree on the same underlying bits.",
 ["inputs","configurations"],"all output numbers, widths and cycle counts within the bound, three modes",
 "No runnable test prints outputs; width/cycle combinations off a byte boundary are not sampled.",
 ["util/util.cpp"],[("formatting","OutputBN2StrHighMem, OutputBN2StrLowMem")],["output string"])
prop("C18","Number/string conversions used to prepare inputs and read outputs are exact",
 "Converting binary to hexadecimal and back, decimal to binary of a given width and back (signed two's complement or unsigned) preserves the value for every input of the supported width; packing a list of values with bit lengths into an input string and reading an output string with the same bit lengths and an offset of padding gives back each value sign-extended from its length. The output mask text has exactly garbler-share ones and evaluator-share zeros on the requested sides.",
 ["inputs"],"all digits, values and lengths within the stated widths and list sizes",
 "No test calls these helpers.",
 ["util/util.cpp","util/util.h"],[("conversions","bin2hex, hex2bin, dec2bin, bin2dec, towsComplement"),("packing","formatGCInputString, parseGCOutputString, formatGCOutputMask")],["returned strings/values"])
prop("C19","Hexadecimal text becomes the right 128-bit block or is rejected",
 "For every text of hexadecimal digits (either case), spaces, tabs and underscores with at most 32 digits, parsing succeeds and yields the block whose value the digits denote, zero-extended; longer texts, texts containing any other character and null destinations are rejected with a failure and leave the destination untouched.",
 ["inputs"],"all strings up to the stated length over all byte values",
 "Util_Test parses a few literals; malformed characters and odd positions are not tried.",
 ["util/util.cpp"],[("parser","Str2Block")],["return code, block"])
prop("C20","The garbling cipher is AES-128: key schedule, rounds and batching",
 "For every key and every block, expanding the key and encrypting (one block or a batch of any size) gives exactly the standard AES-128 encryption of each block independently, built from the hardware round operations in the standard order, and a batch never mixes blocks.",
 ["inputs"],"all keys and blocks; hardware AES round/keygen instructions uninterpreted for the structure, interpreted for the key schedule words; batch sizes up to the bound",
 "No test checks the cipher; garbling is correct for any function, so a broken cipher only costs security and interoperability.",
 ["crypto/aes.h","crypto/block.h"],[("key schedule","aes.h:AESSetEncryptKey"),("encryption","aes.h:AESEcbEncryptBlks and single-block variant")],["ciphertext blocks"])
prop("C21","Garbling every gate and clock uses its own hash tweak",
 "Within one execution no two hash evaluations of garbled gates share a tweak: the tweak is an injective function of the clock cycle, the gate number and which of the gate's two half-gates is hashed, for all clock cycles and all gate numbers, and the evaluator uses the same tweaks.",
 ["inputs","programs"],"all 64-bit clock numbers and all gate numbers a circuit file can hold",
 "Functional tests cannot see tweak collisions: the result stays correct while security is lost.",
 ["garbled_circuit/garbled_circuit_util.cpp","crypto/block.h"],[("tweak","GarbleGate/EvalGate tweaks, MakeBlock")],["inputs given to the cipher"])
prop("C22","Benchmark arithmetic functions compute their documented results",
 "For every pair of garbler and evaluator inputs the A23 reference functions compute: 1024-bit addition, 32-bit product, unsigned 1024-bit comparison (1 iff garbler < evaluator), Hamming distance, 3x3 matrix product modulo 2^32 and the counting memory test.",
 ["inputs"],"all inputs (1024-bit operands for sum/compare, 32-bit for mul/hamming, 9+9 words for matrix product)",
 "Each function has exactly one test vector.",
 ["a23/sum/sum.c","a23/mul/mul.c","a23/compare/compare.c","a23/hamming/hamming.c","a23/matrix-mul/matrix-mul.c","a23/mem-test/mem-test.c"],[("functions","gc_main of each")],["output array"])
prop("C23","Benchmark sorting and shortest-path functions are correct for all inputs",
 "For every XOR-shared input array the A23 bubble sort and merge sort output the same multiset in non-decreasing signed order, and for every XOR-shared 8-vertex adjacency matrix with non-negative weights (whose path sums fit 32 bits) the Dijkstra function outputs the length of a shortest path from vertex 0 to every vertex (32767 when it exceeds that or is unreachable).",
 ["inputs"],"all array contents (sizes within the bound), all graphs within the bound",
 "One vector each; merge sort's own test fails at the pinned commit.",
 ["a23/bubble-sort/bubble-sort.c","a23/merge-sort/merge-sort.c","a23/dijkstra/dijkstra.c"],[("functions","gc_main of each")],["output array"])
prop("C24","Benchmark cryptographic and CORDIC functions match their standards",
 "For every input the A23 AES function outputs the AES-128 encryption, the SHA3 function the SHA3-256 digest of the 16-byte message, and the CORDIC function the 32-iteration fixed-point rotation with the documented table; no call depends on or leaks state besides its inputs on first use.",
 ["inputs"],"all inputs; round structure compared with an independently written reference",
 "One vector each (CORDIC's own test fails at the pinned commit).",
 ["a23/aes/aes.c","a23/sha3/sha3.c","a23/cordic/cordic.c"],[("functions","gc_main of each")],["output array"])
prop("C25","Importing a Bristol-format circuit keeps its function",
 "For every well-formed circuit in the Bristol format, importing and scheduling it gives a circuit with the declared input and output sizes in which garbler and evaluator inputs are the first and second declared groups, outputs are the last wires in order, and every XOR/AND/INV gate keeps its function and operands; an unknown gate type or an empty circuit is rejected with a failure.",
 ["programs","inputs"],"symbolic gate types and operand numbers for circuits up to the stated size",
 "No runnable test imports a Bristol circuit.",
 ["scd/parse_netlist.cpp","scd/v_2_scd.cpp"],[("reader","ParseBrisNetlist, GetBristWire"),("names to ids","IdAssignment")],["ReadCircuit"])
prop("C26","A file of words or a literal is read as the same number",
 "A value given as the name of a readable file is the concatenation of the file's lines with the last line most significant, and a value that names no file is taken literally; converting a number to a little-endian byte array of given length and back gives the number modulo the array size, zero-padded, for every value and length.",
 ["inputs"],"all line contents/number of lines and all numbers up to the stated sizes",
 "Only exercised with one file per benchmark.",
 ["util/util.cpp","a23/lib/a23_main_testing.cpp"],[("file input","ReadFileOrPassHex"),("byte order","BNtoByteLittleEndian, ByteLittleEndiantoBN")],["strings, byte arrays"])
prop("C27","The string entry points run the whole protocol from files to text",
 "Given a circuit file and hexadecimal input strings on both sides, the string-level entry points succeed exactly when both parties' inputs can be parsed and the circuit file is valid, give the two parties output texts that together denote the plaintext result, with the global key shared from garbler to evaluator and the global offset's low bit set; a missing or malformed circuit file is reported as failure rather than a result.",
 ["inputs","configurations"],"all input values for small circuits, both memory modes, all output modes, missing/malformed file",
 NOTEST+"error paths are never exercised.",
 ["garbled_circuit/garbled_circuit.cpp","scd/scd_evaluator.cpp","scd/scd.cpp"],[("entry","GarbleStr, EvaluateStr, EvalauatePlaintextStr")],["return codes, output strings"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
