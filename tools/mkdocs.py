#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand; both outputs are committed)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
TECH = 'symbolic execution of the LLVM IR of the real code + Z3/CVC5 bit-vector queries, counterexamples replayed natively'


def prop(id, title, statement, over, text, why, files, mech, note, na=None, tech=None, state=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if state: a['state'] = state
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a), note, na, tech))


INC = 'include/vrtgen/'
PK = 'include/vrtgen/packing/'
T = 'src/vrtgen/backend/cpp/templates/'
M = T + 'macros/'
LIB = [PK + f for f in ('cif0.hpp', 'cif1.hpp', 'cif2.hpp', 'cif7.hpp', 'command.hpp', 'header.hpp', 'prologue.hpp', 'state_event_indicators.hpp', 'trailer.hpp', 'indicator_fields.hpp')]

prop('P01', 'Writing one subfield of a packed structure never disturbs another',
     'For every packed structure the library offers, storing any value of the setter\'s type into one subfield leaves every other bit of the structure as it was. Reading the subfield back returns the stored value (reduced to the subfield width where the type is wider), and reading changes nothing.',
     ['inputs', 'histories'], 'every prior content of the structure, every subfield, every argument',
     'The unit tests store a handful of values into mostly zeroed structures; a mask or shift that is wrong for one value, or that depends on what neighbouring bits hold, is not visible to them.',
     LIB + [INC + 'types/packed.hpp'], [('packed subfield accessors', INC + 'types/packed.hpp'), ('structure accessors', 'include/vrtgen/packing/*.hpp')],
     'Solver verdict over all prior images and arguments of each subfield; structures are fixed-size so there is no size bound.')
prop('P02', 'Structures have exactly the VITA 49.2 bit layout',
     'Every fixed-size structure serialises to the bit positions, widths, byte order, enumerations and fixed-point radix points that VITA 49.2 (and the DIFI profile) assigns to its subfields. Unpacking any received image and reading a subfield gives the value those bits encode, and packing gives the received bits back with nothing but the addressed subfield changed.',
     ['inputs'], 'every image of each structure and every representable subfield value',
     'Tests compare a few chosen images with hand-written bytes; a misplaced bit or wrong radix in a rarely used subfield or at large values goes unseen.',
     LIB, [('subfield declarations', 'include/vrtgen/packing/*.hpp'), ('byte swapping', INC + 'types/swap.hpp'), ('enumerations', PK + 'enums.hpp')],
     'The reference layout is an independent table written from the standard; every subfield is compared with it over all images.')
prop('P03', 'Fixed-point conversion is exact to half a unit and monotone at the edges',
     'Storing a floating value that lies in the range of a fixed-point subfield stores the nearest representable value (error at most half the resolution) and never wraps to a distant value. Reading the subfield and writing the result back reproduces the same bits.',
     ['inputs'], 'every double (float where the interface takes one) in the representable range and every stored bit pattern',
     'Tests use exactly representable values; rounding, sign and overflow at range edges need all values.',
     [INC + 'types/fixed.hpp', INC + 'types/packed.hpp'] + LIB[:3], [('fixed-point converters', INC + 'types/fixed.hpp')],
     'IEEE-754 semantics in the solver for all inputs in range; values out of range and NaN are outside the claim.')
prop('P04', 'Unpack then pack is the identity and sizes are truthful',
     'For every fixed-size structure, unpacking any bytes and packing again yields the same bytes, reading and writing exactly the advertised number of bytes and nothing beyond. Copies and assignments are equal and independent.',
     ['inputs', 'histories'], 'every byte image of each structure',
     'Round trips in the tests use one or two images per structure and cannot show that no other image is altered or that no byte outside is touched.',
     LIB, [('pack/unpack functions', 'include/vrtgen/packing/*.hpp')], 'All images; all memory accesses bounds-checked.')
prop('P05', 'Variable-length structures keep contents, counts and size in step',
     'ASCII sentences, context association lists, index lists and sector/step scans serialise to exactly the number of bytes they report, a whole number of 32-bit words, with counts, order and padding as VITA 49.2 prescribes. Unpacking what was packed gives an equal structure, and every adding, replacing or clearing operation keeps size and content consistent.',
     ['inputs', 'histories'], 'every content within the list-length bound and every operation sequence within the bound',
     'Tests serialise one example of each; lengths around the word boundary, empty lists and reuse after clearing are not covered.',
     [PK + 'cif0.hpp', PK + 'cif1.hpp'], [('GPS ASCII, association lists', PK + 'cif0.hpp'), ('index list, sector/step scan', PK + 'cif1.hpp')],
     'Lists up to the lengths stated in the evidence with arbitrary contents; longer lists are outside the claim.')
prop('P06', 'UUIDs survive text and byte conversion unchanged',
     'A UUID built from any sixteen bytes prints as the canonical 8-4-4-4-12 lower-case text, and parsing that text (in either case, as the parser accepts it) gives the same UUID. Serialising and deserialising, comparing and byte swapping agree with the sixteen bytes.',
     ['inputs'], 'every 128-bit value and every hexadecimal text of it',
     'Tests convert a single UUID.', [INC + 'types/uuid.hpp', INC + 'types/swap.hpp'], [('text conversion', INC + 'types/uuid.hpp')],
     'All 2^128 values; malformed texts are outside the claim.')
prop('P07', 'Indicators with an enable bit are present exactly when enabled',
     'An indicator guarded by an enable bit reads as absent unless its enable bit is set; setting it sets both bits and clearing it clears both, over any history of operations. Nothing else in the structure changes, and the summary queries for any or no indicator set agree with the bits.',
     ['inputs', 'histories'], 'every prior image followed by any sequence of operations up to the bound',
     'Tests set and read each indicator once from a fresh structure.', [PK + 'state_event_indicators.hpp', PK + 'trailer.hpp', PK + 'indicator_fields.hpp'],
     [('enable-gated accessors', PK + 'state_event_indicators.hpp'), ('indicator words', PK + 'indicator_fields.hpp')],
     'Arbitrary start image covers histories of any length for single-step facts; sequences to the stated length are explored as such.')
prop('P08', 'A default-constructed structure is fully defined and neutral',
     'Default-constructing any structure gives a fully determined content: all bits zero except those VITA 49.2 assigns another neutral value (such as the unspecified markers of geolocation and ephemeris). No output byte depends on uninitialised memory.',
     ['inputs'], 'every structure; every output byte',
     'Uninitialised members usually happen to be zero in a test process.', LIB, [('constructors and member initialisers', 'include/vrtgen/packing/*.hpp')],
     'Definedness is tracked bit-precisely; one path per structure.')

GEN = [M + 'function_defs/cif.jinja2', M + 'function_defs/constructors.jinja2', M + 'function_defs/bytes_required.jinja2', M + 'function_defs.jinja2', T + 'packet.cpp.jinja2', 'src/vrtgen/backend/cpp/generator.py']
prop('G01', 'Generated packets read back exactly what a conforming sender sent',
     'A packet class generated from a definition accepts every packet built by VITA 49.2 rules for that definition, whichever of its optional fields are present. Every accessor then returns exactly the value transmitted (absent where not transmitted), and the packet serialises again to the very bytes received.',
     ['inputs'], 'all values of every header, prologue, command and indicator field in every presence combination within the stated bound',
     'The tests parse a few packets with few fields and fixed values; a wrong offset only shows for particular combinations of present fields.',
     GEN, [('parsing constructor', M + 'function_defs/constructors.jinja2'), ('field accessors', M + 'function_defs/cif.jinja2')],
     'Nine definitions covering every supported indicator field of CIF0, CIF1 and CIF2 as optional and as required, context and control kinds; all field values; presence patterns as stated in the evidence.')
prop('G02', 'Built packets are exactly the VITA 49.2 image of what was set',
     'After any history of setting, assigning through references, clearing and resetting fields on a fresh packet, its bytes are exactly the VITA 49.2 encoding of the values then in force, with indicator words, field order and packet size all agreeing. Every accessor returns the value in force, asking for the bytes changes nothing, and the bytes parse back to the same packet.',
     ['inputs', 'histories'], 'every sequence of mutating operations up to the stated length with arbitrary arguments',
     'Tests follow one construction order per field; bugs that need a second field set before, an assignment followed by a reset, or a field revisited after another was inserted are out of their reach.',
     GEN, [('field setters and resets', M + 'function_defs/cif.jinja2'), ('position bookkeeping', M + 'function_defs/cif.jinja2'), ('synchronisation of structured fields', M + 'function_defs/cif.jinja2')],
     'All operation sequences of length 0, 1 and 2 (thorough: 3) per definition with all argument values; longer histories are covered step-wise by the editing property.')
prop('G03', 'Editing a received packet changes only what was edited',
     'Starting from any received packet, changing, assigning, clearing or resetting any one field yields exactly the VITA 49.2 image of the packet with that one change. All other fields, indicators and the prologue keep their values, and the result is accepted and read back identically by a receiver.',
     ['inputs', 'histories'], 'every received packet of the definitions followed by every operation; together with the building property this is the induction step over histories of any length',
     'Tests never edit a parsed packet; a stale position after parsing corrupts neighbouring fields only then.',
     GEN, [('parsing constructor', M + 'function_defs/constructors.jinja2'), ('field setters and resets', M + 'function_defs/cif.jinja2')],
     'All field values, presence patterns as stated, every operation once.')

prop('G04', 'Data packets carry payload, trailer and sizes faithfully',
     'A generated data packet holding any payload is exactly its VITA 49.2 image: prologue, payload zero-padded to whole words, trailer last, and a packet size that says so, after any history of replacing the payload by longer or shorter ones and of editing prologue and trailer. Parsing such a packet returns every value, the payload bytes and the trailer indicators as sent.',
     ['inputs', 'histories'], 'every payload content and length within the bound and every operation sequence within the bound, on fresh and on received packets',
     'Tests set one payload once per packet; shrinking or growing a payload over an existing trailer, and lengths that are not whole words, are not covered.',
     [M + 'function_defs/data.jinja2', M + 'function_defs/constructors.jinja2', M + 'types/user_class.jinja2', PK + 'trailer.hpp'],
     [('payload setter', M + 'function_defs/data.jinja2'), ('trailer synchronisation', T + 'packet.cpp.jinja2'), ('user-defined trailer', M + 'types/user_class.jinja2')],
     'Four definitions (with and without stream id, class id, timestamps, trailer, user-defined trailer, spectrum); payloads of up to 9 (thorough: 13) bytes, sequences of up to 2 (thorough: 3) operations; single payloads up to the largest packet.')

prop('G05', 'User-defined bit fields occupy their own bits and nothing else',
     'The stream-id subfields and discrete I/O subfields a definition declares (integers, flags, enable-gated indicators, enumerations) are laid out one after the other from the least significant bit, and every subfield can be set to and read as any value of its width without disturbing another. What is set appears in the packet at those bits and is read back identically by a receiver, in every presence arrangement of the words.',
     ['inputs', 'histories'], 'every prior content of the word and every value of every subfield, every operation sequence within the bound',
     'The tests hold one definition of each kind and set each subfield once from zero; splits that fill the word, single-bit integers, or fields beyond bit 31 are not exercised.',
     ['src/vrtgen/parser/loader.py', 'src/vrtgen/parser/model/cif1.py', 'src/vrtgen/backend/cpp/generator.py', 'src/vrtgen/backend/cpp/type_helpers.py', M + 'types/user_class.jinja2', INC + 'types/packed.hpp'],
     [('stream-id subfield allocation', 'src/vrtgen/parser/loader.py'), ('discrete I/O allocation', 'src/vrtgen/parser/model/cif1.py'), ('user class emission', M + 'types/user_class.jinja2')],
     'Seventeen packet definitions (four stream-id splits on context and data packets, three pairs of discrete I/O words in three presence arrangements); all values; histories of 2 (thorough: 3) operations.')

prop('G06', 'A packet class accepts exactly the packets of its definition',
     'The match function of a generated class accepts a complete packet exactly when its kind, indicator bits, timestamp kinds and mode, class identifier, acknowledge-mode settings and identifier formats are those of the definition; counters, sizes, pad bits, payload values and the settings declared optional or flexible do not matter. A packet matching no such definition is rejected with a reason, never misread as another kind.',
     ['inputs'], 'every bit of the prologue of a received packet',
     'The tests flip a few chosen header fields of one packet per kind; acceptance is a predicate over all prologue bits and each definition has its own.',
     [M + 'function_defs/match.jinja2', 'src/vrtgen/parser/model/base.py', 'src/vrtgen/parser/model/command.py', 'src/vrtgen/parser/model/prologue.py', INC + 'packing/header.hpp', INC + 'packing/command.hpp'],
     [('generated match', M + 'function_defs/match.jinja2'), ('header derivation', 'src/vrtgen/parser/model/base.py'), ('acknowledge mode', 'src/vrtgen/parser/model/command.py')],
     'Eighteen definitions: every packet kind, class ids, timestamp kinds and modes, CAM settings and identifier formats; every prologue bit arbitrary in an otherwise minimal packet.')

prop('G07', 'No received bytes make a packet class read or write outside the packet',
     'Handed any bytes at all, a generated class either refuses them with an error or builds a packet whose every field lies within the bytes received: it never reads beyond the buffer it was given or past the announced packet size, treats required bytes that a short packet lacks as zero, and refuses exactly the packets whose announced size or contents do not fit. The same holds for deciding whether to accept the bytes, and for using, editing and serialising a packet built from them.',
     ['inputs'], 'every byte string of every length up to some words beyond the smallest packet, with every packet size field',
     'Tests construct packets from well-formed buffers only; truncated, overlong and contradictory buffers are a space of all byte strings and the failures are silent out-of-bounds reads.',
     [M + 'function_defs/constructors.jinja2', M + 'function_defs/match.jinja2', INC + 'packing/cif1.hpp', INC + 'packing/header.hpp', INC + 'packing/indicator_fields.hpp', INC + 'utility.hpp'],
     [('receiving constructor', M + 'function_defs/constructors.jinja2'), ('generated match', M + 'function_defs/match.jinja2'), ('index list sizes', INC + 'packing/cif1.hpp')],
     'Nine definitions (context, extension context, control of both modes, data with and without trailer, index lists of 8- and 32-bit entries); buffers from zero bytes to five words beyond the smallest packet, all bytes arbitrary; one further operation.')

prop('G08', 'Index lists of any length keep the rest of the packet in place',
     'A packet with an index list can hold any number of entries of the declared width: after every sequence of replacing the list, editing it through its reference, and adding, changing or removing fields before and after it, the packet is the header, fields, list and following fields in order, with the list padded to a whole word and the size field correct. A receiver of those bytes reads back the same list and the same surrounding fields.',
     ['inputs', 'histories'], 'every list content and length within the bound, every presence of neighbouring fields, every operation sequence within the bound',
     'The test suite has the index list commented out; growth and shrinkage interleaved with other fields is a history property.',
     [M + 'function_defs/cif.jinja2', M + 'function_defs/constructors.jinja2', INC + 'packing/cif1.hpp', 'src/vrtgen/parser/model/cif1.py'],
     [('index list', INC + 'packing/cif1.hpp'), ('setters, positions and serialisation', M + 'function_defs/cif.jinja2')],
     'Entries of 8, 16 and 32 bits; 0 to 4 (thorough: 6) entries and single long lists; histories of 2 (thorough: 3) operations from a new packet and 1 from every received packet.')

prop('G09', 'Every option and spelling of a definition yields the packet it describes',
     'The class generated from a packet definition has exactly the prologue, fields, subfields and indicators the definition names, whatever combination of options it uses and in whatever accepted spelling, order and letter case they are written; an absent option has its documented default. For such a packet the accepted, written and read bytes are exactly those the definition describes, for all values and histories within the bound. Every definition the parser accepts yields code that compiles.',
     ['configurations', 'inputs', 'histories'], 'each definition of the list; for each, every prologue bit received, every field value and presence pattern, every sequence of operations within the bound',
     'Tests fix a handful of definitions; options interact, and an option that is misread produces a packet that is consistent with itself but not with its definition.',
     ['src/vrtgen/parser/loader.py', 'src/vrtgen/parser/value.py', 'src/vrtgen/parser/model/base.py', 'src/vrtgen/parser/model/data.py', 'src/vrtgen/parser/model/command.py', 'src/vrtgen/parser/model/prologue.py', 'src/vrtgen/parser/model/cif0.py', 'src/vrtgen/parser/model/cif1.py', 'src/vrtgen/backend/cpp/generator.py', 'src/vrtgen/backend/cpp/type_helpers.py', M + 'function_defs/stream_id.jinja2'],
     [('definition reader', 'src/vrtgen/parser/loader.py'), ('code generator', 'src/vrtgen/backend/cpp/generator.py')],
     'The definitions in vlib/opt_props.py (every timestamp, class id, stream id, trailer, discrete I/O, control mode and identifier option, alone and combined); histories of 0 to 2 operations; buffers up to three words beyond the smallest packet.')
prop('G10', 'Acknowledgements carry every warning and error, each in its indicated place',
     'An acknowledgement of a control packet reports warnings and errors for exactly the control fields it was given them for: the acknowledge word says whether each kind is present, the warning words then the error words mark the fields in standard order, and one word per marked field follows, warnings before errors. After every sequence of setting, editing and clearing them and the acknowledge flags the bytes and the packet size agree with what was reported, and a receiver reads back exactly the same reports.',
     ['inputs', 'histories'], 'every warning and error word, every subset of marked fields, every sequence of operations within the bound',
     'Tests set a handful of warnings in order; position depends on all other marked fields and on the history of changes.',
     ['src/vrtgen/backend/cpp/templates/ack_packet.cpp.jinja2', M + 'types/weif.jinja2', INC + 'packing/command.hpp', INC + 'packing/indicator_fields.hpp', 'src/vrtgen/parser/model/command.py', 'src/vrtgen/backend/cpp/generator.py'],
     [('warning and error serialisation', 'src/vrtgen/backend/cpp/templates/ack_packet.cpp.jinja2'), ('acknowledgement model', 'src/vrtgen/parser/model/command.py')],
     'Eight control definitions (warnings only, errors only, both, none; extension packets; every CIF0, CIF1 and CIF2 field in one each); histories of 0 to 2 (thorough: 3) operations from a new acknowledgement and one from received ones; presence patterns as in the evidence.')

prop('G11', 'State acknowledgements report the control fields; only matching packets pass',
     'A state acknowledgement holds the fields of the control packet it answers under the same layout rules as any packet, through every sequence of operations, and a new one already announces its true size. An acknowledgement class accepts exactly the received packets that are acknowledgements of its kind and agree with its definition in every prologue setting, and any bytes at all are refused or read without leaving the packet.',
     ['inputs', 'histories'], 'every value, presence pattern, operation sequence within the bound; every prologue bit; every byte string of every length within the bound',
     'Acknowledgements derive their whole definition from another packet, so each control definition is a different program; tests check a few flags of a few packets.',
     [M + 'function_defs/constructors.jinja2', M + 'function_defs/match.jinja2', 'src/vrtgen/parser/model/command.py', INC + 'packing/command.hpp'],
     [('acknowledgement model', 'src/vrtgen/parser/model/command.py'), ('acceptance', M + 'function_defs/match.jinja2')],
     'Four state and six execution acknowledgement definitions; histories of 0 to 2 operations; buffers from zero bytes to three (thorough: five) words beyond the smallest packet, all bytes arbitrary.')


prop('G12', 'Fields with attributes carry the value and every attribute in its place',
     'A packet class whose definition gives its fields attributes (mean, extremes, accuracy, derivatives and so on) sends, for every field, the current value followed by the attributes in VITA 49.2 order and in the format of the field, and announces exactly these. Every value and attribute reads back as transmitted, setting one changes nothing else, a new packet holds no undefined byte, and packets cut short are refused.',
     ['inputs', 'histories', 'configurations'], 'every value of every field and attribute, every single operation on a new or received packet, every cut',
     'The tests build one packet with one attribute of one field; order, size and position of attributes show only with several of each.',
     GEN + ['src/vrtgen/parser/model/cif7.py', M + 'types/user_class.jinja2'], [('attribute classes', M + 'types/user_class.jinja2'), ('attributes of a definition', 'src/vrtgen/parser/model/cif7.py')],
     'Six context and control definitions covering every field of the first indicator word and all ten attributes in the format of the field, all required; probability, belief and optional fields with attributes are outside.')
prop('T01', 'Endpoints hold the address and port they were given, in network order',
     'An endpoint holds exactly the address family, port and address last given to it, in the order and place the operating system reads them, with everything else zero, through every sequence of changes and copies. An address text that is not an address is refused on construction, and the text form of an endpoint is the address, a colon and the port. This holds for IPv4 and IPv6 endpoints alike.',
     ['inputs', 'histories'], 'every port, every address the system may answer with, every sequence of changes within the bound',
     'No test exercises an endpoint, and byte order, family and leftover address bytes go wrong only for particular values and sequences.',
     [INC + 'socket/socket_endpoint.hpp'],
     [('endpoint', INC + 'socket/socket_endpoint.hpp')],
     'UDP v4, UDP v6, TCP v4; every constructor followed by 3 (thorough: 4) operations; six ports for the text form, all ports elsewhere; the conversion of address texts is the environment and answers anything.')
prop('T02', 'Sockets use their own descriptors, report failures and close each exactly once',
     'Every socket opens a descriptor of its own kind and closes each descriptor it opened or accepted exactly once, whatever the sequence of operations and whichever of them fail. Sending and receiving act on the connection when there is one, pass exactly the given bytes and addresses, and report exactly what the operating system answered. A socket remembers its source and destination only from successful operations.',
     ['inputs', 'histories', 'fault_sequences'], 'every sequence of operations within the bound, every failure of every system call, every payload byte, every port',
     'No test opens a socket, and failures of individual system calls cannot be arranged in a test.',
     [INC + 'socket/socket_base.hpp', INC + 'socket/udp.hpp', INC + 'socket/tcp.hpp'],
     [('descriptor ownership', INC + 'socket/socket_base.hpp'), ('datagrams', INC + 'socket/udp.hpp'), ('streams', INC + 'socket/tcp.hpp')],
     'UDP and TCP sockets over IPv4 and IPv6; 2 (thorough: 3) operations, each call failing or succeeding, payloads of up to nine bytes with partial writes.')

prop('T03', 'A sent control packet collects exactly the acknowledgements it asked for',
     'Sending a control packet delivers exactly its bytes, once, to the configured destination, or reports an error. Each acknowledgement asked for becomes exactly a received message of its kind that answers this very packet, however messages are split, joined, delayed or mixed with answers to other packets; anything cut short, of another kind, missing or late is an error, and nothing is read beyond what was received. The destination does not change and no message that belongs to a later request is consumed.',
     ['inputs', 'schedules', 'fault_sequences'], 'every combination of requested acknowledgements, every sequence of replies within the bound, every split of the stream, every interleaving of the receiving and the waiting thread, every send failure',
     'No test sends a packet; splits, stale answers, failures and timeouts cannot be arranged with a real network.',
     [INC + 'utility.hpp', INC + 'nats/utility.hpp', INC + 'socket/udp.hpp', INC + 'socket/tcp.hpp'],
     [('UDP and TCP', INC + 'utility.hpp'), ('NATS', INC + 'nats/utility.hpp')],
     'One control packet with validation and state acknowledgements; up to 3 datagrams or messages or 2 stream packets split at any one (thorough: two) places; one timeout and two forced thread switches.')
prop('T04', 'NATS messages arrive once and in order; every object is released once',
     'Every non-empty message delivered on the subscription or the reply inbox of a client is handed out exactly once, unchanged and in order, to whoever waits for it, and a wait without a time limit ends only with a message, under every interleaving of callers and library threads. Connections, subscriptions, messages and threads are released exactly once and never used afterwards, through every sequence of operations and failures, and subjects, queue groups, replies, payloads and statuses are passed on unchanged.',
     ['schedules', 'histories', 'fault_sequences'], 'every interleaving at synchronisation points within the preemption bound, every sequence of operations, every status, every payload byte',
     'No test uses the client; lost wake-ups and use after destruction need particular interleavings and failures.',
     [INC + 'nats/client.hpp', INC + 'nats/message.hpp'],
     [('client', INC + 'nats/client.hpp'), ('message', INC + 'nats/message.hpp')],
     'Two messages per scenario (thorough: three), single messages of up to 66001 bytes, up to three threads, two or three forced thread switches, one early timeout; histories of three (thorough: four) calls, each failing or not. The NATS library is the environment.')
prop('T05', 'A controllee runs every command once and answers exactly what is requested',
     'For every sequence of received messages a generated controllee calls the callback of exactly the command received, with exactly the bytes received, once and in order, and sends to the sender exactly the acknowledgements requested, carrying the identifiers of the command. Messages that are not commands of the class (other packets, cut, misannounced, failed receives) are passed over without effect, a byte stream may be split and joined anywhere, and stopping or destroying the controllee at any moment leaves no thread, socket or callback behind.',
     ['schedules', 'histories', 'inputs', 'fault_sequences'], 'every command with any requests, identifiers and stream, every malformed message of the list, every split of a stream, every interleaving of listener and owner within the preemption bound',
     'No test runs a generated controllee: what it does with malformed, split or hostile messages and during its destruction is never exercised.',
     [T + 'controllee_base.hpp.jinja2', 'src/vrtgen/backend/cpp/generator.py', INC + 'utility.hpp', INC + 'socket/udp.hpp', INC + 'socket/tcp.hpp', INC + 'nats/client.hpp'],
     [('controllee template', T + 'controllee_base.hpp.jinja2'), ('message reader', INC + 'utility.hpp')],
     'One information class with four commands, a data and a context packet, and one with a single bare command; one or two messages (streams: split at up to two, thorough three, of eight places and joined); two forced thread switches; UDP, TCP, NATS.')
prop('T06', 'A controller numbers its commands and delivers exactly what it receives',
     'A generated controller sends every command unchanged but for its own identifier and a fresh consecutive message number, and returns exactly the acknowledgements the command requested, each holding the answer to that command and never one to another. Data and context packets are handed to the listener registered for their class, once, in order and byte for byte, and sent ones leave unchanged to the set destination; other, cut or misannounced messages reach no listener. Receiving can be enabled, disabled and enabled again, and destruction at any moment leaves no thread or socket behind.',
     ['schedules', 'histories', 'inputs', 'fault_sequences'], 'every command with any requests and identifiers, late answers, every received message of the list, any registered listeners, every interleaving of receiver and owner within the preemption bound',
     'No test runs a generated controller.',
     [T + 'controller.hpp.jinja2', 'src/vrtgen/backend/cpp/generator.py', INC + 'utility.hpp', INC + 'socket/udp.hpp', INC + 'socket/tcp.hpp', INC + 'nats/client.hpp'],
     [('controller template', T + 'controller.hpp.jinja2'), ('send function', INC + 'utility.hpp')],
     'One information class with four commands, a data and a context packet; two (thorough: three) commands each possibly preceded by a late answer, two (thorough: three) received messages; two forced thread switches; UDP, TCP, NATS.')

PYT = 'symbolic execution of the Python reader with Z3 (branches and assertions decided by the solver, models replayed on the plain reader)'
prop('Y01', 'User-defined subfields take successive bits of their word, for any widths',
     'A definition whose subfields fit their word gives each of them, in the order written, the next free bits of exactly its width, with its enable bits where they belong and labels numbered in order, and a value type every value of that width fits. A definition that does not fit, or overlaps another part of the word, is refused.',
     ['programs', 'inputs'], 'every combination of subfield kinds, widths and label counts within the bounds',
     'The tests define one or two words; overlaps and overflows depend on the widths chosen.',
     ['src/vrtgen/parser/loader.py', 'src/vrtgen/parser/model/cif1.py', 'src/vrtgen/parser/model/data.py', 'src/vrtgen/backend/cpp/type_helpers.py'],
     [('stream identifiers', 'src/vrtgen/parser/loader.py'), ('discrete words', 'src/vrtgen/parser/model/cif1.py'), ('trailers', 'src/vrtgen/parser/model/data.py')],
     'Stream identifiers of up to 4 (thorough 8) subfields of 1..40 bits; discrete words of up to 3 (thorough 4) subfields; user trailers of up to 4; label lists of 2..17; value types of 1..64 bits.', tech=PYT)
prop('Y02', 'Texts in definitions mean what the documentation says, in any letter case',
     'Every documented word for timestamps, modes, identifiers, action modes and entry sizes is accepted in any letter case with its documented meaning, and every other text is refused. Numerals and identifiers written as texts become exactly the number written, and reserved ones are refused.',
     ['inputs', 'programs'], 'every text of printable characters within the length bound', 'Tests try a few spellings.',
     ['src/vrtgen/parser/value.py', 'src/vrtgen/parser/loader.py', 'src/vrtgen/parser/model/prologue.py'],
     [('value texts', 'src/vrtgen/parser/value.py'), ('stream identifiers', 'src/vrtgen/parser/loader.py')],
     'Printable ASCII, up to one character longer than the longest word; numerals up to 10 decimal or 8 hexadecimal digits.', tech=PYT)
prop('Y03', 'Definition options set exactly the header, mode and report bits they imply',
     'A definition that is read enables exactly the fields it names, required or optional as written, and its header and acknowledge-mode bits are those its options imply; an acknowledgement mirrors the requests, identifiers and fields of its command. Contradictory acknowledge modes, unknown names and unknown packets are refused, and packets of an information class carry its code.',
     ['programs', 'configurations'], 'every pair of fields, every value of the permissions and requests, every combination of prologue options', 'Tests try single options; the rules relate many of them.',
     ['src/vrtgen/parser/model/base.py', 'src/vrtgen/parser/model/command.py', 'src/vrtgen/parser/model/context.py', 'src/vrtgen/parser/model/data.py', 'src/vrtgen/parser/__init__.py'],
     [('header rules', 'src/vrtgen/parser/model/base.py'), ('acknowledge rules', 'src/vrtgen/parser/model/command.py')],
     'Indicator words with every pair of fields and with every field but one; all values of eight permissions and requests with every action mode; every combination of prologue options, trailers and indicator words.', tech=PYT)
prop('Y04', 'A definition means the same wherever it stands and however it is arranged',
     'What a definition yields is decided by what it says alone: the order in which its options are written, the definitions before, between or after it, and whether an option is written out or shared with another definition by reference make no difference. Reading a definition, or the acknowledgement of a command, leaves everything read before as it was.',
     ['programs', 'configurations'], 'every placement of every option, every pair of packet kinds in one file, every option shared or not, with every code, width and request', 'Tests read each definition from a file of its own, with options in the documented order; state shared between definitions shows only in combinations.',
     ['src/vrtgen/parser/loader.py', 'src/vrtgen/parser/__init__.py', 'src/vrtgen/parser/model/base.py', 'src/vrtgen/parser/model/command.py'],
     [('constructors', 'src/vrtgen/parser/loader.py'), ('packets', 'src/vrtgen/parser/model/base.py'), ('acknowledge rules', 'src/vrtgen/parser/model/command.py')],
     'Eight kinds of packets with up to eight options, symbolic codes, widths and requests; two packets and two acknowledgements per file.', tech=PYT)

def main():
    import sys
    sys.path.insert(0, V)
    from vlib import registry
    with open(V + '/properties.jsonl', 'w') as f:
        for p, *_ in P:
            f.write(json.dumps(p) + '\n')
    checks, na = [], []
    for p, note, why, tech in P:
        i = p['id']
        if why or i not in registry.PROPS:
            na.append(dict(property=i, reason=why or 'check not built yet'))
        else:
            checks.append(dict(property=i, quick_cmd='python3 check.py %s quick' % i, thorough_cmd='python3 check.py %s thorough' % i,
                               technique=tech or TECH, level='model_checking', level_note=note))
    m = dict(version=1, setup_cmd='bash engine/build.sh', checks=checks, not_applicable=na)
    json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
    print(len(P), 'properties', len(checks), 'checks', [x['property'] for x in na])


main()
