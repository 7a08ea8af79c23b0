"""The property table: what users of fbpcf rely on, and how each is decided."""
PROPS = []
VF = 'static value-flow analysis (abstract interpretation to gated value-number normal forms over the clang AST)'
REF = VF + ', compared function by function with reference definitions'
ALG = VF + ', decided by algebra on the normal forms'


def P(id, title, statement, over, for_, tests, files, mech, tech=None, note=None, na=None, state=None):
    PROPS.append({'id': id, 'title': title, 'statement': statement, 'over': over.split(), 'for': for_, 'tests': tests,
                  'files': files, 'mech': mech, 'tech': tech, 'note': note, 'na': na, 'state': state})


ENG = 'fbpcf/engine/SecretShareEngine.cpp'

P('E01', 'Communication-free operations on shares compute the plaintext operation',
  'XOR, NOT, addition, negation and multiplication or AND with a public value, single or batched, return shares that the '
  'parties together reconstruct to the same operation on the plaintexts, for any number of parties. A public operand is '
  'folded in by exactly one party, and operand batches of different length are refused.',
  'inputs configurations', 'every share value, every party id and number of parties, every batch length',
  'Unit tests sample a few bits and two or three parties; the engine tests are not even in the stable set.',
  ['fbpcf/engine/SecretShareEngine.cpp', 'fbpcf/engine/SecretShareEngine.h'],
  [('symmetric/asymmetric operations', ENG), ('party id decides who folds a public operand in', ENG)],
  ALG, 'Sound for the analysed functions under ideal integers mod 2^64 and unbounded vectors; each result is an exact polynomial over the shares, so a deviation is reported for any input on which it differs. Functions that cannot be put in normal form are reported undecided, not violated.')

P('E02', 'Private multiplication and AND reconstruct to the product',
  'For every private AND or multiplication, single, batched or one-against-many, scheduled or immediate, in any mixture and '
  'any number within one round, the shares returned reconstruct to the product of the operands of that same gate and lane. '
  'Every multiplication tuple and every opened position is used by exactly one product, the index returned when scheduling '
  'finds exactly that result, and inconsistent batch sizes are refused.',
  'inputs histories configurations', 'every number and mixture of scheduled gates, every batch size and composite width, every party, all share and tuple values',
  'Tests schedule a handful of gates with small fixed batches; index arithmetic over mixed queues fails only for particular mixtures.',
  ['fbpcf/engine/SecretShareEngine.cpp', 'fbpcf/engine/SecretShareEngine.h'],
  [('scheduled execution of all queues in one round', ENG), ('immediate execution', ENG), ('index returned by scheduling', ENG)],
  ALG, 'Positions, tuples and operands are matched symbolically for arbitrary queue lengths; relies on the tuple correlation (E07) and on the opening returning the sum of the parties\' vectors in order.',
  state=[('scheduled queues', 'gates waiting for the next round', 'fbpcf/engine/SecretShareEngine.h')])

P('E03', 'Shares of a private input reconstruct to the owner\'s value only',
  'When a party provides a private input, single or batched, Boolean or integer, the shares of all parties reconstruct to '
  'that party\'s value: what the other parties pass in is ignored, and every mask the owner subtracts is the one the peer '
  'adds. A batch whose length differs from the declared one is refused.',
  'inputs histories configurations', 'every value, owner, number of parties, batch length and every sequence of earlier inputs',
  'Tests run two or three parties with random values; a mask drawn from the wrong stream or with the wrong length only shows after a particular history.',
  ['fbpcf/engine/SecretShareEngine.cpp', 'fbpcf/engine/communication/IPartyCommunicationAgentFactory.h'],
  [('mask streams keyed per peer at start-up', ENG), ('input sharing', ENG)],
  ALG, 'Streams are modelled as deterministic functions of their seed and draw position; assumes key exchange delivers the keys sent.')

P('C03', 'Wires are owned, counted, stored and released exactly once',
  'A new wire holds the given value and level, is owned once and counted once; it is released, and counted as released, exactly '
  'when its last owner lets go. A storage slot handed out is not handed out again before it was freed, and reading a wire that '
  'was released is refused by the safe storage back ends.',
  'inputs histories', 'every sequence of allocations, ownership changes and releases over all four wire kinds',
  'The keeper test follows one short allocation sequence; growth of the arena beyond one chunk and interleavings of the four kinds are not reached.',
  ['fbpcf/scheduler/WireKeeper.cpp', 'fbpcf/scheduler/WireKeeper.h', 'fbpcf/scheduler/VectorArenaAllocator.h', 'fbpcf/scheduler/UnorderedMapAllocator.h'],
  [('wire keeper', 'fbpcf/scheduler/WireKeeper.cpp'), ('free list', 'fbpcf/scheduler/VectorArenaAllocator.h')],
  REF, 'Exact per-operation equivalence with the reference state transformer for arbitrary states; concurrency is out of scope (the keeper is single threaded).')


SCH = 'fbpcf/scheduler/'
GK = SCH + 'gate_keeper/'

P('C01', 'Every gate computes the operation it was created for',
  'Executing a gate of any kind (normal, composite, arithmetic, single or batched, rebatching) calls exactly the engine '
  'operation its type names on the values of its own operands in their own order and stores the answer in its own output '
  'wire; an AND/multiplication fetches exactly the result it scheduled. A gate whose type cannot run in that form is refused.',
  'inputs programs', 'every gate type, every operand value, batch size and party to open to',
  'The gate classes have no test in the stable set, and tests build one gate of each kind; a swapped operand or result index only shows with particular operands.',
  [GK + 'NormalGate.h', GK + 'CompositeGate.h', GK + 'ArithmeticGate.h', GK + 'BatchNormalGate.h', GK + 'BatchCompositeGate.h', GK + 'BatchArithmeticGate.h', GK + 'RebatchingGate.h'],
  [('gate execution', GK + 'NormalGate.h'), ('composite execution', GK + 'CompositeGate.h'), ('rebatching', GK + 'RebatchingGate.h')],
  REF, 'Per-function equivalence with the reference for every state in which the operands are live; the dispatch from the queue to these functions is C04.')

P('C02', 'A gate keeps its wires alive from creation to destruction',
  'Creating a gate takes exactly one ownership of each of its operand and output wires that exist, and destroying it releases '
  'exactly those, so that no wire is freed while a queued gate still reads or writes it, and none leaks.',
  'histories programs', 'every kind of gate, every combination of present and absent operands',
  'A missing or doubled reference only fails when the last outside owner goes away before execution, which tests do not arrange.',
  [GK + 'IGate.h', GK + 'INormalGate.h', GK + 'ICompositeGate.h', GK + 'IArithmeticGate.h', GK + 'RebatchingGate.h', GK + 'NormalGate.h', GK + 'BatchNormalGate.h'],
  [('ownership in constructors and destructors', GK + 'INormalGate.h'), ('composite outputs', GK + 'ICompositeGate.h')],
  REF, 'Constructors and destructors only; copying or moving a gate (never done by the library) is outside the property.')

P('C04', 'Deferred execution computes every gate after its inputs and before its value is read',
  'The lazy scheduler queues every gate at a level not executed yet, after the levels that produce its operands, free gates on '
  'even and communicating gates on odd levels, with exactly the operands, type and size asked for; levels run in order, each '
  'completely and once, and a value is read only after the level that produces it has run.',
  'programs histories', 'every program over the scheduler interface and every point at which values are read',
  'Ordering errors only show for particular dependency shapes and forcing points; tests run a few fixed circuits.',
  [GK + 'GateKeeper.cpp', GK + 'GateKeeper.h', SCH + 'LazyScheduler.cpp', SCH + 'LazyScheduler.h'],
  [('level assignment', GK + 'GateKeeper.cpp'), ('forcing before reading', SCH + 'LazyScheduler.cpp')],
  REF, 'Equivalence of each public operation with the reference for every queue state.',
  state=[('gatesByLevelOffset_', 'queued gates by level', GK + 'GateKeeper.h')])

P('C05', 'Immediate execution stores the result of exactly the operation asked for',
  'Every call on the eager scheduler performs exactly one engine operation, the one its name and the secrecy of its operands '
  'select (a public operand is folded in asymmetrically, two private operands communicate), on the current values of its '
  'operands in their order, and returns a new wire holding that result, before it returns. Values are revealed only to the '
  'party named, and a result of the wrong size is refused.',
  'inputs programs', 'every operation of the scheduler interface, every wire, value, batch size and party',
  'The scheduler tests are not in the stable set and sample truth tables; wrong engine dispatch (for example symmetric for asymmetric) cancels for some party counts and values.',
  [SCH + 'EagerScheduler.cpp', SCH + 'EagerScheduler.h'],
  [('dispatch to the engine', SCH + 'EagerScheduler.cpp')],
  REF, 'Equivalence of each operation with the reference; what the engine operations mean is E01-E03.')

P('C06', 'The plaintext schedulers compute the same functions in the clear',
  'Both plaintext schedulers give each operation the value the secure ones reconstruct: bitwise AND, XOR, NOT and arithmetic '
  'modulo 2^64 lane by lane, refusing batches of different lengths. Over the network an input is the value of its owner for '
  'every party, recovered shares are combined over all parties with matching send and receive order, and extraction gives '
  'the value to party 0 and zero to all others.',
  'inputs configurations', 'every operation, value and batch size; every party id and number of parties',
  'Backend agreement is only sampled by tests outside the stable set; send/receive ordering errors need three or more parties to show.',
  [SCH + 'PlaintextScheduler.cpp', SCH + 'NetworkPlaintextScheduler.cpp'],
  [('plaintext operations', SCH + 'PlaintextScheduler.cpp'), ('networked inputs and recovery', SCH + 'NetworkPlaintextScheduler.cpp')],
  REF, 'Equivalence of each operation with the reference.')

P('C07', 'Reported traffic, gate and wire statistics are complete',
  'The traffic an engine reports is the sum over every connection it and its tuple generators own, each counted once, sent '
  'and received not exchanged; the figures survive the deletion of the engine. Gate statistics report (non-free, free) and '
  'wire statistics (allocated, released) of the scheduler they are asked of.',
  'histories configurations', 'every engine configuration and every sequence of operations before the query',
  'Only one communication test looks at traffic figures; components are composed in many configurations that no test sums up.',
  ['fbpcf/engine/SecretShareEngine.h', 'fbpcf/engine/tuple_generator/TupleGenerator.cpp', 'fbpcf/engine/tuple_generator/TwoPartyTupleGenerator.cpp', SCH + 'LazyScheduler.cpp', SCH + 'EagerScheduler.cpp', SCH + 'IScheduler.h'],
  [('sum over the engine', 'fbpcf/engine/SecretShareEngine.h'), ('figures kept after deletion', SCH + 'LazyScheduler.cpp')],
  REF, 'Equivalence of each reporting function with the reference. The increments themselves are part of C04, C05, C06 (gates), C03 (wires) and E10 (bytes).')

P('C08', 'Joining and cutting batches preserves every value and its position',
  'Batching up gives one batch holding the source batches in the given order, and unbatching gives batches of exactly the '
  'requested sizes holding consecutive values of the source, for any number of parts including empty ones, in every '
  'scheduler; immediate schedulers refuse to cut out more values than there are.',
  'inputs', 'every number, order and size of parts, including empty batches',
  'Tests join and cut a few short batches; wrong sizes and offsets show only for uneven or empty parts.',
  [SCH + 'EagerScheduler.cpp', SCH + 'PlaintextScheduler.cpp', GK + 'RebatchingGate.h', GK + 'GateKeeper.cpp'],
  [('immediate rebatching', SCH + 'EagerScheduler.cpp'), ('deferred rebatching', GK + 'RebatchingGate.h')],
  REF, 'Equivalence with the reference for all contents and sizes.')

TG = 'fbpcf/engine/tuple_generator/'
COM = 'fbpcf/engine/communication/'

P('E04', 'A value is opened in full, and only to the parties it was opened for',
  'Opening shares to everyone gives every party the sum of all shares, in order. Opening to one party gives that party '
  'the sum and every other party zeros, and no party but that one is sent a share. The share of every peer is taken in '
  'exactly once, and peers talk in an order in which neither waits for the other.',
  'inputs configurations', 'every number of parties, every designated party, every number of values',
  'The tests open random values among a few parties; a leak to an additional party never fails a test.',
  [COM + 'SecretShareEngineCommunicationAgent.cpp', 'fbpcf/engine/SecretShareEngine.cpp'],
  [('opening to all', COM + 'SecretShareEngineCommunicationAgent.cpp'), ('opening to one party', COM + 'SecretShareEngineCommunicationAgent.cpp')],
  REF, 'Every message sent and received is compared, as well as the results, for an arbitrary set of peers.')

P('E06', 'Secure configurations are assembled from secure parts only',
  'Every factory that promises a secure engine (Ferret or classic oblivious transfer, Boolean and/or integer tuples, two parties or more) '
  'is assembled from the real tuple generators, oblivious transfers and cipher-based generators it names, for exactly the parties and '
  'sizes given, with fresh random seeds for each pair; the schedulers built from a real engine use that factory and never the dummy one. '
  'Asking for a kind of tuple that was not configured is refused rather than served insecurely.',
  'configurations inputs', 'every party, number of parties, kind of engine and scheduler',
  'A dummy part computes the same outputs, so tests of results pass with an insecure configuration.',
  [ENG + 'SecretShareEngineFactory.h', SCH + 'SchedulerHelper.h', SCH + 'EagerSchedulerFactory.h', SCH + 'LazySchedulerFactory.h'],
  [('secure engine factories', ENG + 'SecretShareEngineFactory.h'), ('real and insecure schedulers', SCH + 'SchedulerHelper.h')],
  REF, 'The parts themselves are the subject of E07, E08, E10 and E13.')
P('E07', 'Multiplication tuples are correct, fresh and produced in an agreed order',
  'For every kind of tuple generator the tuples handed to the parties reconstruct to (a, b, ab), in the number and width asked '
  'for, each pair of parties contributing each cross term exactly once. Tuples are consumed from the front of a buffer that is '
  'refilled by the generator of its kind, and generations that share the transfers run in the order in which they were started.',
  'inputs schedules configurations', 'every number of parties, buffer size, number of tuples and composite width, all randomness',
  'Tests check a few thousand tuples of a few fixed widths; a wrong width class, refill order or cross term needs a specific configuration.',
  [TG + 'TupleGenerator.cpp', TG + 'ArithmeticTupleGenerator.cpp', TG + 'TwoPartyTupleGenerator.cpp', TG + 'ProductShareGenerator.cpp'],
  [('cross terms', TG + 'ProductShareGenerator.cpp'), ('expansion of correlated transfers', TG + 'TwoPartyTupleGenerator.cpp'), ('scheduling of generations', TG + 'TwoPartyTupleGenerator.cpp')],
  REF, 'AES and the oblivious transfers are uninterpreted (see E08, E13). Freedom from data races is not decided here.',
  state=[('toGenerate_', 'kinds of tuples to generate, in order', TG + 'TwoPartyTupleGenerator.h')])

P('E10', 'A message arrives complete, unchanged and in order, or the transfer fails',
  'What one party sends with the typed operations of its agent is what the peer receives with the matching operation, bit '
  'for bit and for any length; the in-memory carrier delivers per direction in sending order and only to the peer. A send or '
  'receive that moves fewer bytes than asked for raises an error, and the bytes moved are counted in the traffic.',
  'inputs fault_sequences schedules', 'every message length and content, every short read or write of the carrier',
  'Tests never see a short read or write, and sample few lengths.',
  [COM + 'IPartyCommunicationAgent.h', COM + 'SocketPartyCommunicationAgent.cpp', COM + 'InMemoryPartyCommunicationAgent.cpp', COM + 'InMemoryPartyCommunicationAgentHost.cpp'],
  [('packing of bits', COM + 'IPartyCommunicationAgent.h'), ('transfer over sockets', COM + 'SocketPartyCommunicationAgent.cpp')],
  REF + '; round trip of packed bits reduced to canonical decision diagrams', 'The carrier itself (TCP, TLS) is trusted; the round trip is decided bit by bit for lengths up to 17, the packing functions for every length by reference.')

OT = TG + 'oblivious_transfer/'

P('E08', 'Oblivious transfer delivers exactly the chosen message',
  'Correlated transfers hand the sender k and the receiver k xor choice times delta, the choice being the lowest bit of what the '
  'receiver holds; extending, hashing and correcting them gives the receiver of every transfer the message its choice selects, '
  'in order, for either direction and any number of transfers. The sender learns of a choice only masked by a fresh random one.',
  'inputs configurations', 'every number of transfers, all messages, choices and randomness; either party as sender',
  'Tests run one fixed size per kind of transfer with random choices; an error for one position, size or role can go unseen.',
  [OT + 'IknpShRandomCorrelatedObliviousTransfer.cpp', OT + 'RcotBasedBidirectionObliviousTransfer.cpp', OT + 'ExtenderBasedRandomCorrelatedObliviousTransfer.cpp', OT + 'ferret/SinglePointCot.cpp', OT + 'ferret/RegularErrorMultiPointCot.cpp', OT + 'ferret/RcotExtender.cpp'],
  [('extension of base transfers', OT + 'IknpShRandomCorrelatedObliviousTransfer.cpp'), ('single-point transfers', OT + 'ferret/SinglePointCot.cpp'), ('correction to chosen messages', OT + 'RcotBasedBidirectionObliviousTransfer.cpp')],
  REF, 'AES, the carrier and the pseudo-random choice of matrix rows are uninterpreted; statistical security is not decided.',
  state=[('index_', 'number of transfers made so far, in step on both sides', OT + 'ferret/SinglePointCot.h')])

FE = 'fbpcf/frontend/'
LEM = 'programs over the frontend evaluated by value-flow analysis against a scheduler in the clear; every claim reduced to one canonical decision diagram over all input bits, which must be the constant true'

P('F02', 'Operations on bits compute what they name',
  'And, or, exclusive or, negation and the one-with-many operations give exactly the named function of the cleartext values, '
  'position by position, for every mix of public and secret and for batches; an input counts for the party named, opened '
  'values come back to the party asked and to nobody else, and shares, batching and unbatching keep values and order.',
  'inputs configurations', 'every operand value, every mix of secrecy, single bits and batches',
  'Tests sample operand kinds; each of the many overloads picks a scheduler call of its own, and a wrong one computes something only for some mix.',
  [FE + 'Bit.h', FE + 'Bit_impl.h'], [('choice of scheduler operation', FE + 'Bit_impl.h')],
  LEM, 'All operand values; batches of three positions stand for every batch (the frontend never looks inside one).')

P('F03', 'Every bit holds exactly one reference to its wire',
  'After any copy, move, assignment (also to itself), new input, operation or destruction of bits, each wire is referenced '
  'exactly as often as live bits name it: no value is freed while a bit needs it and none is kept when no bit does.',
  'histories programs', 'every sequence of operations on bits, of every kind',
  'A lost or doubled reference shows only with a particular history of copies and only as memory growth or a later wrong value.',
  [FE + 'Bit.h', FE + 'Bit_impl.h'], [('reference counting of bits', FE + 'Bit_impl.h')],
  LEM, 'Each operation on its own for every kind of bit; sequences follow since every operation preserves the correspondence.',
  state=[('id_', 'the wire a bit names, if any', FE + 'Bit.h')])

P('F05', 'Integers compute what integers of their width do',
  'Sum, difference, negation, absolute value, comparisons, selection and casts of integers of any width, signed or not, secret '
  'or public, single or batched, equal two-complement arithmetic of that width on the cleartext values for every input.',
  'inputs configurations', 'all pairs of values of widths 1, 2, 3, 5, 8, 32 and 64, each mix of signedness, secrecy and batching',
  'Tests draw random values; a wrong carry, sign extension or comparison at a boundary is hit by few of them.',
  [FE + 'Int.h', FE + 'Int_impl.h'], [('carry chain', FE + 'Int_impl.h')],
  LEM, 'Every value of the widths listed; other widths are the same templates.')

P('F04', 'What goes into an integer comes out',
  'A value within the range of its width becomes exactly its bits, counted for the party named, and any other value is refused; '
  'an opened integer reads as the same number at the party asked and as zero elsewhere; shares, batching and unbatching give '
  'back the same integers in the same order.',
  'inputs configurations', 'all 64-bit inputs for widths 1 to 64, signed or not, secret or public, single or batched',
  'Tests try a few numbers near the bounds of one width; an off-by-one in a range check or sign shows only for some width.',
  [FE + 'Int.h', FE + 'Int_impl.h'], [('range check and bit decomposition', FE + 'Int_impl.h')],
  LEM, 'Every 64-bit value for the widths listed; batches of two.')

P('F06', 'Bit strings act position by position',
  'Every operation on bit strings acts on equal positions of its operands; selection takes all bits from the chosen string; '
  'input, opening, shares, batching and unbatching keep each bit in its place; strings of unequal length are refused.',
  'inputs configurations', 'all contents, every mix of public and secret, single or batched strings',
  'Tests use equal lengths and random contents; mixed secrecy and unequal lengths have paths of their own.',
  [FE + 'BitString.h', FE + 'BitString_impl.h'], [('position-wise operations', FE + 'BitString_impl.h')],
  LEM, 'All contents for strings of three bits; loops treat every position alike.')

WIT = 'compile-fail witnesses: generated pairs of programs differing only in the offending type or call, the type checker must accept one and refuse the other'

P('F01', 'No program that leaks a secret or mixes computations builds',
  'Reading a secret without opening it, letting a secret or anything computed from it reach a public value or the course of the '
  'program, and combining values of different schedulers, of a batch with a single value, or of integers of different width or '
  'signedness are all rejected when the program is compiled.',
  'programs', 'every operation of every kind of value with every mix of secrecy, scheduler, batching, width and signedness',
  'Tests only contain programs that build; an overload that accepts too much breaks none of them.',
  [FE + 'Bit.h', FE + 'Bit_impl.h', FE + 'BitString.h', FE + 'Int.h', FE + 'Int_impl.h', FE + 'MPCTypes.h', FE + 'mpcGame.h'],
  [('secrecy in the type of every result', FE + 'Bit.h')],
  WIT, 'One offence per program; offences composed of legal steps are covered step by step.')


UT = 'fbpcf/engine/util/'

P('E13', 'The generators yield one fixed key stream, without reuse',
  'The block cipher follows its standard key schedule and hashes by encrypting and adding the input back. A generator with a given '
  'key hands out the cipher stream of consecutive counters: no counter is used twice, the bits and words drawn do not depend on how '
  'requests are cut, and masking helpers and 128-bit helpers compute the functions they are named for.',
  'inputs histories', 'every key, block and number of requested bits, words or blocks, every sequence of requests',
  'Tests compare a few known answers and one request size; a counter repeated across requests or a helper wrong in one bit position is not seen.',
  [UT + 'aes.cpp', UT + 'AesPrg.cpp', UT + 'AesPrg.h', UT + 'util.h', UT + 'util.cpp', UT + 'AsyncBuffer.h', UT + 'Masker_impl.h'],
  [('block cipher', UT + 'aes.cpp'), ('counter stream', UT + 'AesPrg.cpp'), ('stream cut into requests', UT + 'AsyncBuffer.h')],
  REF + '; 128-bit helpers reduced bit by bit to canonical decision diagrams', 'AES round instructions are uninterpreted (their order and keys are compared); the background refill of the buffer is evaluated at the point where it is started.')

P('E11', 'A TLS connection is verified, at least version 1.3, and never silently plain',
  'When TLS is asked for, data only ever travels over a connection whose handshake succeeded, with version 1.3 or later required, the '
  'server presenting the configured certificate and key, and the client accepting only a certificate chaining to the configured root for the host it '
  'dialled. Every connection a factory makes, in either role, uses the configuration given to the factory.',
  'configurations fault_sequences', 'every constructor, role and TLS configuration',
  'No test opens a TLS connection to a peer with the wrong certificate, host or version; a dropped setting leaves every honest handshake working.',
  [COM + 'SocketPartyCommunicationAgent.cpp', COM + 'SocketPartyCommunicationAgent.h', COM + 'SocketPartyCommunicationAgentFactory.cpp', COM + 'SocketPartyCommunicationAgentFactory.h'],
  [('set-up of the TLS context', COM + 'SocketPartyCommunicationAgent.cpp'), ('configuration handed to every agent', COM + 'SocketPartyCommunicationAgentFactory.cpp')],
  VF + ': must-precede and argument rules over the ordered, guarded effects of every constructor', 'OpenSSL itself is trusted. The deprecated client constructor taking only a directory does not verify the server by design and is held to version and handshake only.')

P('E12', 'A failed cryptographic call is never silent',
  'Whenever a call that draws randomness, allocates or computes big numbers or curve points, computes a MAC, or sets up TLS fails, the '
  'operation raises an error before the failed result is used, sent or returned.',
  'fault_sequences', 'every call of a fallible primitive failing, on every path that reaches it',
  'These calls never fail in a test; code that ignores one passes until it computes with an unset key, point or mask.',
  [OT + 'NpBaseObliviousTransfer.cpp', UT + 'util.h', 'fbpcf/primitive/mac/AesCmac.cpp', 'fbpcf/primitive/mac/AesCmac.h', COM + 'SocketPartyCommunicationAgent.cpp', 'fbpcf/mpc_std_lib/util/secureRandomPermutation.cpp'],
  [('base oblivious transfer', OT + 'NpBaseObliviousTransfer.cpp'), ('system entropy', UT + 'util.h')],
  VF + ': the result of each fallible call is set to failure and the conditions of the raised errors must cover the condition of the call', 'The table of fallible functions and their failure values is part of the check.')

MS = 'fbpcf/mpc_std_lib/'
P('M01', 'The AES circuit computes AES',
  'Encryption and decryption over bits compute the cipher of FIPS 197 and its inverse, block by block, for all inputs and round keys; '
  'counter mode masks every bit of the data, in either direction, with the encryption of the counter given for it under the key given. '
  'Partial blocks, keys of another length and counters of another size are refused.',
  'inputs', 'every plaintext, ciphertext, counter and round key; one and two blocks',
  'A gate of the substitution network that is wrong for a few of its 256 inputs survives a handful of test vectors.',
  [MS + 'aes_circuit/AesCircuit_impl.h', MS + 'aes_circuit/IAesCircuit.h', MS + 'aes_circuit/AesCircuitCtr_impl.h', MS + 'aes_circuit/IAesCircuitCtr.h'],
  [('substitution and mixing networks', MS + 'aes_circuit/AesCircuit_impl.h'), ('counter mode', MS + 'aes_circuit/AesCircuitCtr_impl.h')],
  LEM, 'The rounds are compared with the substitution uninterpreted, which the lemmas on the substitution then determine.')


P('M09', 'Plain values, their bits and batches of secrets agree',
  'Plain integers of every width wrap on sums, differences and negations and refuse numbers out of range; converting a value, a cipher key or a batch of them to bits and back gives it again, and malformed bits are refused. '
  'On batches of secret values, the conditional swap, joining, splitting, opening to a party and recovery from bits act position by position for every supported type.',
  'inputs', 'all values of the widths tried (1 to 64 bits); all bits of batches of 1 to 6 secret values of ten types',
  'Wrap-around happens for a few values next to the limits of a width, and tests use one or two widths.',
  [MS + 'util/Intp_impl.h', MS + 'util/uint32_impl.h', MS + 'util/bit_impl.h', MS + 'util/bitstring_impl.h', MS + 'util/pairUtil.h', MS + 'util/pair_impl.h', MS + 'util/aggregationValue_impl.h', MS + 'util/util.cpp'],
  [('wrapping', MS + 'util/Intp_impl.h'), ('adapters', MS + 'util/util.h'), ('vectors of bits', MS + 'util/util.cpp')],
  LEM, 'The frontend runs on a scheduler that keeps every wire in the clear.')

P('M03', 'The secret permuter applies the chosen order and keeps it secret',
  'Given an order known to one party, the permutation network hands every party the values in that order, for every order, every batch size and every supported type; nothing is opened to anyone. '
  'A batch or an order of another size than announced is refused.',
  'inputs', 'every order of up to five values, all values of the entries, single orders of up to thirteen values; several types',
  'A routing mistake shows only for some orders at sizes that are not powers of two, and tests try a few orders.',
  [MS + 'permuter/AsWaksmanPermuter_impl.h', MS + 'permuter/AsWaksmanPermuterForBitString_impl.h', MS + 'permuter/AsWaksmanPermuter.cpp', MS + 'permuter/AsWaksmanPermuter.h'],
  [('routing', MS + 'permuter/AsWaksmanPermuter.cpp'), ('switching network', MS + 'permuter/AsWaksmanPermuter_impl.h')],
  LEM, 'Both roles run on a scheduler that keeps every wire in the clear.')


P('M04', 'A shuffle is a permutation neither party knows alone',
  'Shuffling hands out the same values in the order obtained by applying one freshly drawn random order of each party, one after the other; each party has its permuter apply the order it drew in one round and follows the other party in the other round, and both agree which round comes first. '
  'Each party draws its order from a generator seeded by the randomness of the system.',
  'inputs', 'all values and all orders that the two parties may draw, for small batches, in either role',
  'Two parties that disagree on whose round comes first, or a party that reuses its order, still produce some permutation of the values.',
  [MS + 'shuffler/PermuteBasedShuffler.h', MS + 'shuffler/PermuteBasedShufflerFactory.h'],
  [('two rounds', MS + 'shuffler/PermuteBasedShuffler.h')],
  LEM, 'The permuter and the sampler of orders are stand-ins; M03 and M10 decide them.')


P('M05', 'Compaction keeps exactly what is labelled one',
  'Compacting a batch with at least one entry labelled one returns exactly the entries labelled one, with their labels, in shuffled order. '
  'The only thing opened is the labels after the shuffle, once to each party, and a caller that asks to hide the size of the result is refused.',
  'inputs', 'every pattern of labels of up to four entries, all values of the entries; several types; both roles',
  'An entry dropped or repeated for one pattern of labels survives a test with a few patterns.',
  [MS + 'compactor/ShuffleBasedCompactor.h', MS + 'compactor/ShuffleBasedCompactorFactory.h'],
  [('compaction', MS + 'compactor/ShuffleBasedCompactor.h')],
  LEM, 'The shuffler is a stand-in that rotates; M04 decides it.')


P('M10', 'Random orders are unbiased, and public seeds are jointly drawn',
  'The order sampled for n values takes every order of n values exactly once as the random numbers drawn range over their bounds, and each number is drawn below its own bound. '
  'A public seed is the sum of one fresh share of each party, where the party that sends first has committed to its share with a salted hash, and a share that does not match the commitment is refused.',
  'inputs', 'every sequence of bounded draws, for one to four values; every share and message of the peer',
  'A biased shuffle produces every order, only not equally often, which a test that samples cannot see.',
  [MS + 'util/secureRandomPermutation.cpp', MS + 'util/secureSamplePublicSeed.cpp'],
  [('random order', MS + 'util/secureRandomPermutation.cpp'), ('public seed', MS + 'util/secureSamplePublicSeed.cpp')],
  LEM)


P('M06', 'Shared memory is written at the secret index, and nowhere else',
  'Adding a batch of shared values at shared indexes within the memory changes what the two parties hold together at exactly those indexes and by exactly those values, for both kinds of memory; reading an entry gives its value to the receiver alone, or shares of it. '
  'The arrays that drive the tree-based memory differ in one flag, at the shared index, and have equal keys everywhere else; only corrections and differences are opened. '
  'Entries out of range and indexes or values of inconsistent or insufficient size are refused.',
  'inputs', 'all shares, keys and values; memories of 1 to 5 entries, batches of one and two writes, every index',
  'One wrong correction of a key at one level shows only for some indexes and some shares, and tests use random ones.',
  [MS + 'oram/' + f for f in ('SinglePointArrayGenerator.cpp', 'ObliviousDeltaCalculator_impl.h', 'DifferenceCalculator_impl.h', 'WriteOnlyOram_impl.h', 'LinearOram_impl.h')],
  [('arrays', MS + 'oram/SinglePointArrayGenerator.cpp'), ('corrections', MS + 'oram/ObliviousDeltaCalculator_impl.h'), ('differences', MS + 'oram/DifferenceCalculator_impl.h'), ('memories', MS + 'oram/WriteOnlyOram_impl.h')],
  LEM, 'The cipher that expands keys is left uninterpreted.')

P('M07', 'Joining two lists by index pairs the elements both parties hold',
  'Given what each party knows of the union of the two lists (for every element its own position in its list, or that it does not have it), both parties learn, in the same shuffled order, for each element both have, the position the other party has it at, and nothing for the others. '
  'The elements are shuffled before anything is opened, and only what the result needs is opened. '
  'A position out of range, one that is used twice and an empty union are refused.',
  'inputs', 'all pairs of mappings over unions of one and two elements and selected ones over three to nine, any choice of shares',
  'An element only one party has, next to one both have, must fall in one particular place of the shuffle.',
  [MS + 'unified_data_process/adapter/' + f for f in ('Adapter_impl.h', 'Adapter.h', 'IAdapter.h')],
  [('union to intersection', MS + 'unified_data_process/adapter/Adapter_impl.h')],
  LEM, 'The shuffler is a stand-in that applies one order chosen by the lemma; both parties run on a scheduler that keeps every wire in the clear.')

IO = 'fbpcf/io/'
P('I01', 'Buffering changes neither the bytes nor the lines of a file',
  'Reading through the buffered reader gives exactly the bytes of the file, in order, whatever sizes are asked for, and exactly its lines, whatever their lengths and wherever they fall in the buffer; lines and bytes can be mixed. '
  'Writing through the buffered writer passes on exactly the bytes given, in order, at the latest when it is flushed or closed, and then once; what closing answers is passed on. '
  'Reading past the end and a file that takes fewer bytes than given are refused.',
  'inputs histories', 'every content and every placing of line ends over files of up to 7 bytes, chunks of 1 to 9, mixtures of reads, writes and flushes',
  'A line end on the last byte of a chunk, or a read that ends with one, needs sizes the tests do not have.',
  [IO + 'api/' + f for f in ('BufferedReader.cpp', 'BufferedReader.h', 'BufferedWriter.cpp', 'BufferedWriter.h')],
  [('refilling', IO + 'api/BufferedReader.cpp'), ('flushing', IO + 'api/BufferedWriter.cpp')],
  LEM, 'The file underneath is the plain sequence of its bytes.')

P('I02', 'Cloud files are stored and read back whole or reported as failed',
  'An upload sends its parts in order, numbered from one, each with the content given, and ends by listing exactly the parts the service took with the tags it gave; a part is retried a bounded number of times, and one that cannot be stored gives up the whole upload once and is reported. '
  'A failing start or end is reported, and a failing end gives the upload up. Closing a cloud file ends its upload exactly once and passes on the answer. '
  'Reading a cloud file asks for consecutive ranges of the path it was opened with and gives its bytes in order up to its end.',
  'inputs histories fault_sequences', 'uploads of three parts against every kind of refusal pattern; files of up to 13 bytes with varying sizes asked for',
  'A part refused after an earlier one was retried, or an abort that is reported as success, needs a service that fails at one particular request.',
  [IO + f for f in ('cloud_util/S3FileUploader.cpp', 'cloud_util/GCSFileUploader.cpp', 'api/CloudFileReader.cpp', 'api/CloudFileReader.h', 'api/CloudFileWriter.cpp')],
  [('parts', IO + 'cloud_util/S3FileUploader.cpp'), ('resumable upload', IO + 'cloud_util/GCSFileUploader.cpp'), ('ranges', IO + 'api/CloudFileReader.cpp')],
  LEM, 'The services are stand-ins that record what they are asked; how names are parsed is not part of it.')

P('N01', 'Parties that run the same program finish it',
  'When all parties run the same program on consistent configurations and the network delivers every message, every party finishes: no schedule of threads and no order of arrival leaves parties waiting for each other.',
  'schedules configurations', 'every interleaving of the threads of all parties and every program',
  'A cycle of waiting needs a particular interleaving of several threads of several parties.',
  ['fbpcf/engine/communication/SocketPartyCommunicationAgentFactory.cpp', ENG, 'fbpcf/engine/util/AsyncBuffer.h'],
  [('connections', 'fbpcf/engine/communication/SocketPartyCommunicationAgentFactory.cpp'), ('refilling in the background', 'fbpcf/engine/util/AsyncBuffer.h')],
  na='Progress depends on how many messages each party sends and waits for, over all interleavings of processes that share no memory; the orders of sends and receives within each protocol are compared in the lemmas of the other properties, but no argument over the source within reach bounds the waiting across parties and threads.')

P('N02', 'Messages reveal nothing to a bounded adversary',
  'What a party receives is computationally indistinguishable from what could be computed from its own inputs and outputs alone.',
  'inputs', 'every input and every efficient adversary',
  'Indistinguishability is a statement about distributions and running time that no sample settles.',
  ['fbpcf/engine/util/aes.h', 'fbpcf/engine/util/AesPrg.cpp', 'fbpcf/engine/tuple_generator/oblivious_transfer/IknpShRandomCorrelatedObliviousTransfer.cpp'],
  [('generator', 'fbpcf/engine/util/AesPrg.cpp'), ('transfers', 'fbpcf/engine/tuple_generator/oblivious_transfer/IknpShRandomCorrelatedObliviousTransfer.cpp')],
  na='It rests on hardness assumptions and on reductions between distributions; the structural part that the source decides (what is opened to whom, which values mask which) is covered by the value-flow properties.')

P('N03', 'Picked rows are decrypted to what their owner encrypted',
  'Rows encrypted by their owner, transferred, picked by index by the other party and decrypted inside the computation are shares of exactly the rows at the indexes asked for, in the order asked for.',
  'inputs', 'every row, key, nonce and choice of indexes',
  'Rows longer than a block, several batches and indexes beyond 32 bits are not sampled.',
  [MS + 'unified_data_process/data_processor/' + f for f in ('UdpEncryption.cpp', 'UdpUtil.cpp', 'UdpUtil_impl.h', 'UdpDecryption.h')],
  [('encryption', MS + 'unified_data_process/data_processor/UdpUtil.cpp'), ('picking', MS + 'unified_data_process/data_processor/UdpEncryption.cpp')],
  na='The statement goes through the cipher as bytes of 128-bit values that are copied as raw memory and masked byte by byte; the canonical forms of the evaluator grow beyond its limits on it, for one row of one byte already.')

P('N04', 'Rows of mixed columns are serialized and read back unchanged',
  'Serializing rows of named columns of fixed, variable and packed width and splitting them into secret batches gives every value back under its name.',
  'inputs', 'every set of columns and every row',
  'A width that is not a multiple of a byte next to a variable one is not sampled.',
  [MS + 'unified_data_process/serialization/' + f for f in ('RowStructureDefinition.h', 'FixedSizeArrayColumn.h')],
  [('layout', MS + 'unified_data_process/serialization/RowStructureDefinition.h')],
  na='Columns are held as variants chosen at run time by name and type, and written through casts of raw memory; the evaluator has no model of either, and a rule on the shape of the code would not decide the values.')
