prop('C01', 'Decoders never read past the end of the bytes they were given',
     'Whatever bytes a decoder is given (packed or JSON messages, HTTP and HTTP/2 traffic, compressed headers, BER and '
     'PER, dates, CSV, YAML, configuration files), and wherever they are cut, it looks at a byte or a bit of its input '
     'only after it has established that this byte or bit is there. A length or an offset found in the input is '
     'compared with what is left before it is used to advance, cut or copy.',
     ['inputs'], 'every input, in particular truncated ones and those with lying lengths',
     'an over-read of a few bytes is silent, and needs one particular truncation point out of all of them',
     ['src/core/str-stream.c', 'src/core/str-stream.h', 'src/bit-stream.h', 'src/net/hpack.c', 'src/net/http.c',
      'src/asn1/asn1.c', 'src/asn1/writer.c', 'src/asn1/per.c', 'src/iop/iop.blk', 'src/iop/json.blk', 'src/core/yaml.c',
      'src/core/datetime-iso8601.c', 'src/iop/rpc-channel.blk'],
     [('unchecked stream operations', 'src/core/str-stream.h, src/bit-stream.h'), ('their callers', 'the files above')],
     technique='ESP path-sensitive lower bounds of the bytes left in each stream, on LLVM IR',
     note='every access outside the confirmed table is proved on every path; pointer-valued operations are not decided')
prop('C03', 'Locks are balanced, ordered, and held around the data they protect',
     'On every path through the library a spinlock or mutex that a function takes is released before it '
     'returns, is never taken again while held nor released twice, and locks are always nested in the same '
     'order. Shared structures that have a lock (lists of memory pools, page-allocator free lists, store and '
     'logger registries, metric values, client and server tables) are touched only while that lock is held.',
     ['schedules', 'inputs'], 'all interleavings and all paths, including error paths',
     'a forgotten unlock on a rare path or an unlocked access only shows under one interleaving',
     ['src/core/mem-fifo.c', 'src/core/mem-ring.c', 'src/core/mem-stack.c', 'src/core/qpage.c', 'src/core/qps.blk',
      'src/core/log.c', 'src/core/thr-job.blk', 'src/core/el.blk', 'src/iop/rpc-el.c', 'src/prometheus-client/metrics.c',
      'src/core/obj.h'],
     [('spin_lock/spin_unlock', 'src/core/types.h'), ('log_spin_lock', 'src/core/log.c'), ('el_bl_lock', 'src/core/el.blk')],
     technique='ESP path-sensitive lock typestate, lock-order graph and guarded-by rule on LLVM IR',
     note='sound over the listed functions up to the aliasing assumptions in the evidence file')
prop('C04', 'OS handles are released exactly once or handed over on every path',
     'Every file descriptor, stdio stream, directory stream, memory mapping, compressed stream or shared object '
     'handle that a library function acquires is, on every path out of that function including every error path, '
     'released exactly once, returned, or stored with an owner. No handle is used after it was released.',
     ['inputs', 'fault_sequences'], 'all paths, in particular those taken when a later system call fails',
     'error paths need a system call to fail at one particular point, and a leak is silent',
     ['src/core/file.c', 'src/core/file-bin.c', 'src/core/qps.blk', 'src/core/str-l.c', 'src/core/str-outbuf.c',
      'src/core/el.blk', 'src/core/unix.blk', 'src/net/http-srv-static.c', 'src/core/file-log.blk', 'src/core/errors.c'],
     [('open/openat/pipe/mmap/fopen/fdopendir/gzdopen call sites', 'src/core, src/net, src/iop'),
      ('p_close/p_fclose/file_close wrappers', 'src/unix.h')],
     technique='ESP path-sensitive handle typestate on LLVM IR',
     note='every path of every acquiring function, ownership transfer assumptions in the evidence file')
prop('C09', 'Constant lookup tables equal their published definitions',
     'Every constant table the library decides by equals the table its published definition gives, entry by entry: '
     'base64 and URL alphabets and their inverses, character classes, case mappings and foldings, GSM and legacy '
     'charset maps, CRC slices, AES, DES and SHA constants, HPACK static table and Huffman codes, HTTP and HTTP/2 code '
     'points and header names, and the size and schema-type tables of the serialization compiler. Tables that are '
     'inverses of one another stay so.',
     ['inputs'], 'every entry of every table, in particular those no sample exercises',
     'a test samples a few entries out of more than twenty thousand; one wrong entry corrupts one input in thousands',
     ['src/core/str-buf-quoting.c', 'src/core/str-conv.c', 'src/core/str-buf-gsm.c', 'src/core/str-ctype.c',
      'src/core/bithacks.c', 'src/crypto/aes.c', 'src/crypto/des.c', 'src/crypto/crc32-table.in.c',
      'src/crypto/crc64-table.in.c', 'src/crypto/sha4.c', 'src/net/hpack.c', 'src/net/http-hdr.perf', 'src/http2.h',
      'src/iopc/iopc-lang-c.blk', 'src/iop/xml-wsdl.blk', 'src/net/hpack-generate-huffman-tables.py'],
     [('constant globals', 'the files above'), ('hpack_stbl_g', 'src/net/hpack.c')],
     technique='comparison of the constant initialisers in the LLVM IR with tables computed from the definitions',
     note='exhaustive over the entries of the listed tables')
prop('C05', 'Heap memory is released exactly once on every path',
     'Every block a function takes from the heap, and every growing string, vector, table or bit buffer it holds locally, '
     'is on every path out of that function, error paths included, released exactly once, returned or handed to an owner, and '
     'never used after its release. Tearing an object down releases everything that the object owns.',
     ['inputs', 'fault_sequences'], 'all paths of all functions that allocate, and all objects that own memory',
     'leaks are silent, and a double release needs the one error path that has it',
     ['src/core/mem.h', 'src/core/str-buf.c', 'src/container/qvector.blk', 'src/container/qhash.c', 'src/core/yaml.c',
      'src/net/http.c', 'src/iop/json.blk', 'src/iopc/iopc-parser.c', 'src/core/log.c', 'src/core/file-bin.c',
      'src/prometheus-client/metrics.c'],
     [('allocation and release primitives', 'src/core/mem.h'), ('teardown functions', 'the files above')],
     technique='ESP path-sensitive ownership typestate of heap blocks and local containers, and release inventory, on LLVM IR',
     note='memory kept in an object is followed to the function that tears the object down, not across histories')
prop('C06', 'Scratch memory never outlives the scope it was allocated in',
     'Memory taken from the per-thread scratch stack is never returned, stored in a longer-lived object, or used once '
     'the scope it was allocated in is closed, on any path. A function whose result is documented as scratch memory '
     'allocates it in the scope of its caller, and nothing that outlives the call (globals, heap objects, connection or '
     'cache fields, objects of the caller) is left pointing to scratch memory of an inner scope.',
     ['inputs', 'histories'], 'all paths of all functions that open a scratch scope or return scratch memory',
     'stale scratch memory keeps its contents until the stack is reused, so tests see the right bytes',
     ['src/core/mem-stack.c', 'src/core/core-mem-stack.h', 'src/net/http.c', 'src/iop/rpc-channel.blk', 'src/core/yaml.c',
      'src/core/farch.c', 'src/core/file-log.blk', 'src/iop/json.blk', 'src/iop/yaml.blk'],
     [('t_scope', 'src/core/core-mem-stack.h'), ('mem_stack_push/mem_stack_pop', 'src/core/mem-stack.c')],
     technique='interprocedural escape and lifetime dataflow over scratch frames on LLVM IR',
     note='all product functions, assumptions on callbacks and deep structures in the evidence file')
prop('C08', 'No failure is swallowed: a caller that sees one does not report success',
     'Whenever a system call, a compression or cryptographic primitive, or a library function that reports failure '
     '(negative status or null) fails, the function that called it looks at the result, and if that function itself '
     'reports failures it never returns a success value on that path unless it retried the operation or the failure is a '
     'documented fallback. This holds on every error path of every function.',
     ['fault_sequences', 'inputs'], 'the failure of each call, one at a time, on all paths that follow it',
     'it takes a fault injected at one particular call; thousands of such points exist and tests force a handful',
     ['src/core/file.c', 'src/core/file-bin.c', 'src/core/file-log.blk', 'src/core/unix.blk', 'src/core/qps.blk',
      'src/crypto/ssl.blk', 'src/core/zlib-wrapper.c', 'src/iop/iop.blk', 'src/iop/json.blk', 'src/iop/xml-unpack.c',
      'src/core/yaml.c', 'src/net/http.c', 'src/net/addr.c', 'src/iop/rpc-channel.blk', 'src/asn1/per.c',
      'src/prometheus-client/http.c'],
     [('RETHROW/THROW_ERR_IF', 'src/core/macros.h')],
     technique='must-use rule and ESP simulation of each failing call on LLVM IR',
     note='one failure at a time; the confirmed fallbacks are listed in data/c08_confirmed.txt')
GT = 'inventory of the rejecting conditions of every decoding function on LLVM IR, compared with the confirmed inventory'
GN = ('every condition whose one side always fails; conditions on opaque values are compared by kind and diagnostic; '
      'accepted differences: stronger, equivalent, split, merged or moved conditions')
prop('C10', 'HTTP/1 and HTTP/2 traffic that breaks the protocol is always refused',
     'An HTTP/1 or HTTP/2 endpoint refuses, with an error on the message, the stream or the connection, every input that '
     'breaks a syntax, ordering, size, window or state rule of the protocol it checks, exactly from the limit on: malformed '
     'request and status lines, headers and chunk sizes, bad header-compression references and updates, frames of wrong size, on '
     'the wrong stream or in the wrong state, and settings and windows out of range. A rule is enforced for every '
     'message, in every state and at its exact bound, and input on the allowed side of the bound is accepted.',
     ['inputs', 'histories'], 'all byte sequences and all frame sequences a peer can send',
     'tests send a few bad messages; each rule has its own bound and state, and a rule that is off by one accepts only one input',
     ['src/net/http.c', 'src/net/hpack.c', 'src/http2.h'],
     [('frame and header parsers', 'src/net/http.c'), ('header compression decoder', 'src/net/hpack.c')],
     technique=GT, note=GN)
prop('C11', 'IOP values that do not satisfy their description are always refused',
     'Packed, JSON, YAML, XML and folded-constant inputs, and in-memory values given to the checkers, are refused with an '
     'error whenever they do not satisfy the type description: wrong wire type, missing or duplicate field, unknown '
     'enumeration or union tag, value out of range or overflowing, array, string or pattern constraint not met, private or '
     'abstract class. Each constraint is applied on every decoding path, at its exact bound, and values that satisfy '
     'all constraints are not refused.',
     ['inputs', 'configurations'], 'all inputs in all formats, for all type descriptions',
     'every constraint exists once per format and per type; tests exercise a few combinations away from the bounds',
     ['src/iop/iop.blk', 'src/iop/json.blk', 'src/iop/yaml.blk', 'src/iop/xml-unpack.c', 'src/iop/cfolder.c', 'src/iop/dso.c'],
     [('unpackers and constraint checkers', 'src/iop/iop.blk'), ('constant folder', 'src/iop/cfolder.c')],
     technique=GT, note=GN)
prop('C12', 'RPC peers that break the exchange protocol are refused',
     'An RPC endpoint refuses a message, with an error answer, a closed connection or an error status, whenever it breaks '
     'the exchange: header of wrong size or unknown flags, message over the size limit, unknown command or answer slot, bad '
     'authentication or content type, arguments that do not unpack, answer of unknown status, or connection in '
     'the wrong state. No such message reaches an implementation callback, and each limit applies at its exact value.',
     ['inputs', 'histories'], 'all messages and message sequences a peer can send',
     'tests use the library at both ends, which never sends a bad message',
     ['src/iop/rpc-channel.blk', 'src/iop/rpc-http-server.c', 'src/iop/rpc-http-client.c', 'src/iop/rpc-el.c'],
     [('channel reader', 'src/iop/rpc-channel.blk'), ('HTTP binding', 'src/iop/rpc-http-server.c')],
     technique=GT, note=GN)
prop('C13', 'The schema compiler refuses every schema that breaks a language rule',
     'A schema that breaks a rule of the interface language is refused with an error and nothing is generated for it: '
     'duplicate or out of range tags, identifiers and names, types not allowed in their place, bad defaults, misplaced or '
     'malformed attributes, bad inheritance, cyclic structures, bad package and import declarations, and lexical errors. '
     'Each rule applies to every construct it is about and at its exact bound, and schemas that respect all rules compile.',
     ['inputs', 'programs'], 'all schema files',
     'rules combine with each other and with every kind of declaration; tests have one sample for some of the rules',
     ['src/iopc/iopc-parser.c', 'src/iopc/iopc-typer.blk', 'src/iopc/iopc-lex.l', 'src/iopc/iopc-lang-c.blk'],
     [('parser rules', 'src/iopc/iopc-parser.c'), ('typer rules', 'src/iopc/iopc-typer.blk')],
     technique=GT, note=GN)
prop('C14', 'ASN.1 values that break their description are refused in BER and in PER',
     'Decoding BER or aligned PER fails on every input that breaks the encoding or the description, and encoding fails on '
     'every value that breaks it: wrong tag, indefinite or oversized length, value outside its constraint, size '
     'outside its bounds, unknown choice or enumeration without extension marker, missing mandatory field, trailing or '
     'fragmented data that is not supported. Each constraint applies at its exact bound, in both directions.',
     ['inputs', 'configurations'], 'all byte strings, values and type descriptions',
     'each constraint has bounds that depend on the type; tests use few types and few values near the bounds',
     ['src/asn1/asn1.c', 'src/asn1/writer.c', 'src/asn1/per.c'],
     [('BER reader', 'src/asn1/writer.c'), ('PER reader and writer', 'src/asn1/per.c')],
     technique=GT, note=GN)
prop('C15', 'Malformed text, files and addresses are refused, never guessed at',
     'The parsers of dates, durations, numbers, network addresses, YAML and XML documents, CSV, command lines, '
     'configuration, binary record files, archives and encoded text (base64, hexadecimal, quoted-printable, UTF-8, '
     'percent and escape sequences) return an error on every input outside their format, exactly from the limits '
     'of the format on, and never a guessed value. Persistent stores refuse files whose header, version or sizes are wrong.',
     ['inputs', 'histories'], 'all input texts and files',
     'formats have dozens of rules each; tests hold a few malformed samples and rarely the neighbours of a limit',
     ['src/core/yaml.c', 'src/core/xmlr.c', 'src/core/file-bin.c', 'src/core/qps.blk', 'src/core/qpage.c', 'src/core/parseopt.c',
      'src/core/datetime-iso8601.c', 'src/core/datetime.c', 'src/core/str-conv.c', 'src/core/str-num.c', 'src/net/addr.c',
      'src/net/socket.c'],
     [('parsers', 'the files above')],
     technique=GT, note=GN)
ET = 'inventory of the observable effects of every function and of their conditions on LLVM IR, compared with the reviewed inventory'
EN = ('calls, named assignments, results, bounds and callback order with their path conditions; effects on unnamed local values are '
      'not decided; accepted differences: extracted, merged, reordered or rewritten code with the same effects')
prop('C07', 'Every RPC query gets exactly one outcome, and its slot and buffers follow',
     'Each query sent on a channel or over HTTP is answered exactly once: by the reply of the peer, by its timeout, by its '
     'cancellation or by an error when the connection goes away, whatever order these come in. Until then its slot stays '
     'reserved and counted, afterwards slot, timers, trace data and pending counters are given back, and a server answers or '
     'refuses every query it accepted, in the state the connection is in.',
     ['histories', 'schedules'], 'all interleavings of replies, timeouts, cancellations, proxies and disconnections',
     'tests play a few orderings with both ends well behaved; outcomes are lost or doubled by one rare ordering',
     ['src/iop/rpc-channel.blk', 'src/iop/rpc-el.c', 'src/iop/rpc-http-server.c', 'src/iop/rpc-http-client.c'],
     [('query slots and connection states', 'src/iop/rpc-channel.blk'), ('event-loop clients and servers', 'src/iop/rpc-el.c')],
     technique=ET, note=EN)
prop('C16', 'HTTP exchanges keep their order, framing and flow-control accounts',
     'On an HTTP connection each query gets one answer, in the order and with the framing the protocol asks for, and each '
     'callback of the user is run once, in the right state, for every history of requests, answers, errors, timeouts and closures. '
     'HTTP/2 streams and connections move through their states, windows, stream limits and header tables as the protocol '
     'says, and pipelining, keep-alive, idle and load counters come back to zero when the exchanges are over.',
     ['histories', 'inputs'], 'all sequences of requests, frames, errors, flushes and closures on one connection',
     'a connection has dozens of states and counters; a missed update shows after a particular sequence only',
     ['src/net/http.c', 'src/net/hpack.c', 'src/net/http-srv-static.c', 'src/http2.h'],
     [('connection and stream state machines', 'src/net/http.c'), ('header table encoder and decoder', 'src/net/hpack.c')],
     technique=ET, note=EN)
prop('C17', 'Memory pools never hand out overlapping memory nor lose pages',
     'For every sequence of allocations, reallocations, releases, frames and resets, the stack, ring, fifo and page '
     'allocators hand out blocks that are aligned, large enough, zeroed when asked to, and disjoint from every live block. '
     'A page is recycled or given back only once nothing in it is live, and the size, usage and peak accounts '
     'of the pools stay exact.',
     ['histories', 'schedules'], 'all histories of allocations, frames, releases and resets',
     'overlap or early recycling needs a particular size sequence, and then corrupts memory silently',
     ['src/core/mem-stack.c', 'src/core/mem-ring.c', 'src/core/mem-fifo.c', 'src/core/mem.blk', 'src/core/qpage.c'],
     [('allocators', 'the files above')], technique=ET, note=EN)
prop('C18', 'Documents in JSON, YAML and XML are read and written faithfully',
     'Reading a JSON, YAML or XML document gives the values it contains, each kind of node, escape, tag, override, variable '
     'and comment included, and writing a value gives a document that reads back as that value, under every combination of '
     'the options that packers and parsers take. No element is lost, doubled, reordered or attached to another one.',
     ['inputs', 'configurations'], 'all documents, values and option combinations',
     'each node kind meets each context and option; tests hold samples of some of the combinations',
     ['src/core/yaml.c', 'src/core/xmlr.c', 'src/core/xmlpp.c', 'src/iop/json.blk', 'src/iop/yaml.blk', 'src/iop/xml-pack.c',
      'src/iop/xml-unpack.c'],
     [('YAML reader, presentation and writer', 'src/core/yaml.c'), ('IOP readers and writers', 'src/iop')], technique=ET, note=EN)
prop('C19', 'Text is encoded, decoded and formatted exactly, within its buffers',
     'Conversions between text encodings, quoting and unquoting, formatting and parsing of numbers, dates and paths, and '
     'the string and bit buffers they write to do what their format says for every input: no character, digit, bit '
     'or padding is lost, added or misplaced, and buffers keep their length, capacity and terminator consistent.',
     ['inputs'], 'all strings, numbers, dates and buffer states',
     'tests sample strings; each escape, width, boundary and growth step has a case of its own',
     ['src/core/str-buf.c', 'src/core/str-buf-quoting.c', 'src/core/str-buf-gsm.c', 'src/core/str-conv.c', 'src/core/str-num.c',
      'src/core/str-iprintf.c', 'src/core/str-l.c', 'src/core/str-path.c', 'src/core/bit-buf.c', 'src/core/datetime.c',
      'src/core/datetime-iso8601.c'],
     [('encoders and buffers', 'the files above')], technique=ET, note=EN)
prop('C20', 'ASN.1 values are encoded and decoded as their description says',
     'For every type description and value, BER and aligned PER encoding produce the bits the description asks for, with the '
     'sizes announced, and decoding gives the value back: tags, lengths, optional and default fields, extension markers, '
     'choices, sequences of and open types included. Lengths computed beforehand and bytes written always agree.',
     ['inputs', 'configurations'], 'all descriptions and values',
     'each construct meets each constraint and presence combination; tests use a few types',
     ['src/asn1/asn1.c', 'src/asn1/writer.c', 'src/asn1/per.c', 'src/pxcc/pxcc.c'],
     [('BER', 'src/asn1/writer.c'), ('PER', 'src/asn1/per.c')], technique=ET, note=EN)
prop('C21', 'Typed values are packed, copied, compared, sorted and looked up consistently',
     'For every type description, packing, unpacking, duplication, comparison, hashing, sorting, filtering and path access treat '
     'every kind of field (scalar, string, repeated, optional, reference, union, class, void) the same way, and sizes '
     'computed beforehand match what is written. Registration keeps type, class and package tables consistent, also '
     'when it fails or when a shared object is unloaded or replaced.',
     ['inputs', 'configurations', 'histories'], 'all descriptions, values and registration sequences',
     'each operation must handle each field kind and repetition; a missing case shows for one kind only',
     ['src/iop/iop.blk', 'src/iop/for-each.in.c', 'src/iop/helpers.in.c', 'src/iop/dso.c', 'src/iop/cfolder.c',
      'src/iop/core-obj.blk', 'src/iop/hashing-values.in.c'],
     [('value operations', 'src/iop/iop.blk'), ('shared objects', 'src/iop/dso.c')], technique=ET, note=EN)
prop('C22', 'Persistent stores, record files, logs and bitmaps keep what was put in them',
     'For every history of insertions, removals, enumerations, snapshots, rotations and reopenings, the record files, '
     'log files, archives, persistent page stores, tries and bitmaps give back exactly what was put in them, and their counters, generations '
     'and headers match their contents. Enumerations that overlap modifications neither skip nor repeat surviving entries.',
     ['histories', 'crash_points', 'inputs'], 'all operation sequences, sizes and positions, and reopenings in between',
     'representations change at thresholds of hundreds of entries; a slip at one transition loses data much later',
     ['src/core/qps.blk', 'src/core/qps-hat.c', 'src/core/qps-hat.in.c', 'src/core/qps-bitmap.c', 'src/core/bit-wah.c',
      'src/core/file-bin.c', 'src/core/file.c', 'src/core/file-log.blk', 'src/core/farch.c', 'src/core/qlzo-d.c'],
     [('tries', 'src/core/qps-hat.c'), ('bitmaps', 'src/core/qps-bitmap.c, src/core/bit-wah.c'),
      ('record files', 'src/core/file-bin.c')], technique=ET, note=EN)
prop('C23', 'Generated code and descriptions say what the schema says',
     'For every accepted schema the compiler resolves each name, tag, default, attribute, inheritance and import as the '
     'language defines it, and the C, JSON, TypeScript, OpenAPI, WSDL and SNMP outputs describe each field, '
     'enumeration, union, class, interface and module of it, with its type, repetition, default and attributes.',
     ['programs', 'inputs'], 'all accepted schemas and output options',
     'constructs combine freely; tests compile a fixed set of schemas',
     ['src/iopc/iopc-parser.c', 'src/iopc/iopc-typer.blk', 'src/iopc/iopc-lang-c.blk', 'src/iopc/iopc-lang-json.blk',
      'src/iopc/iopc-lang-typescript.c', 'src/iopc/iopc-iopsq.c', 'src/iop/openapi.blk', 'src/iop/snmp-mib.c',
      'src/iop/xml-wsdl.blk'],
     [('parser and typer', 'src/iopc'), ('generators', 'the files above')], technique=ET, note=EN)
prop('C24', 'Digests, ciphers and secrets do not depend on how the data is cut',
     'Hashing, keyed hashing, checksums and encryption give the published result for every message, however it is '
     'cut into updates and whatever its length, and a context is reusable or wiped as documented. Encrypted, signed or '
     'authenticated data is accepted only when every verification step succeeded.',
     ['inputs', 'histories'], 'all messages, lengths, cuts and keys',
     'block boundaries and partial updates interact; tests use a few short vectors',
     ['src/crypto/hash.c', 'src/crypto/aes.c', 'src/crypto/des.c', 'src/crypto/md5.c', 'src/crypto/sha1.c', 'src/crypto/sha2.c',
      'src/crypto/sha2.in.c', 'src/crypto/sha4.c', 'src/crypto/ssl.blk', 'src/crypto/crc32.c'],
     [('digests and ciphers', 'src/crypto')], technique=ET, note=EN)
prop('C25', 'Event handlers, jobs, modules and logs run when, and as often as, they should',
     'For every history of registrations, updates, wake-ups and cancellations, the event loop runs each handler, timer '
     'and child watcher when its event occurs and never after it was unregistered, queued jobs run exactly once in the order '
     'their queue promises, and modules start after and stop before what they depend on, exactly once. A log '
     'record reaches the handler and the level that apply to its logger, also after levels change.',
     ['histories', 'schedules'], 'all histories of registrations, events, dependencies and level changes',
     'tests hold short histories; missed wake-ups and stale registrations need a particular order',
     ['src/core/el.blk', 'src/core/el-epoll.in.c', 'src/core/thr-job.blk', 'src/core/thr-evc.c', 'src/core/thr.c',
      'src/core/module.c', 'src/core/log.c', 'src/core/unix.blk', 'src/core/parseopt.c'],
     [('event loop', 'src/core/el.blk'), ('jobs', 'src/core/thr-job.blk'), ('modules', 'src/core/module.c'),
      ('logs', 'src/core/log.c')], technique=ET, note=EN)
prop('C26', 'Containers and objects keep their contents and invariants',
     'Vectors, hash tables, red-black trees, heaps, sorts and bit scans keep exactly the elements put in them, in the order '
     'they promise, for every sequence of insertions, removals, resizes and iterations, and their lengths, capacities and '
     'balance stay consistent. Reference-counted objects are initialised and wiped once, along their whole class hierarchy.',
     ['histories', 'inputs'], 'all operation sequences and sizes',
     'growth, rehash and rebalance happen at thresholds and depend on the history',
     ['src/container/qhash.c', 'src/container/qhash.in.c', 'src/container/qvector.blk', 'src/container/rbtree.c', 'src/core/obj.c',
      'src/core/sort.blk', 'src/arith/scan.c'],
     [('containers', 'src/container'), ('objects', 'src/core/obj.c')], technique=ET, note=EN)
prop('C27', 'Metrics and network endpoints report and configure what they were told',
     'Counters, gauges and histograms expose exactly what was observed, under the right labels and once per collector, for '
     'every sequence of observations, label combinations and unregistrations. Addresses are parsed, compared and '
     'printed without loss for both families, and sockets are created, bound and connected with the options asked for or not at all.',
     ['histories', 'inputs'], 'all observation sequences, label sets and addresses',
     'label sets, bucket bounds and socket options combine; tests sample a few',
     ['src/prometheus-client/metrics.c', 'src/prometheus-client/http.c', 'src/net/addr.c', 'src/net/socket.c', 'src/net/sctp.c',
      'src/net/rate.blk'],
     [('metrics', 'src/prometheus-client/metrics.c'), ('addresses and sockets', 'src/net')], technique=ET, note=EN)

# Properties that the system promises and that this family cannot decide here.
prop('C28', 'Calendar and duration arithmetic is exact for every instant',
     'Broken-down dates, epoch seconds, time zones, week numbers and truncations to day, week or month convert into one another '
     'without loss for every instant the types can hold, leap days, leap seconds and daylight-saving changes included. Differences and sums of '
     'time values are exact and normalised.',
     ['inputs'], 'every instant, offset and time zone',
     'a test samples a few instants; an error shows on one day in centuries or one hour in a year',
     ['src/core/datetime.c', 'src/core/datetime-iso8601.c', 'src/core/datetime.h'],
     [('localtime_cur*, timeval_*', 'src/core/datetime.c')],
     na='exactness of integer arithmetic over all instants is a statement about computed values: it needs a solver or execution, '
        'and it depends on the C library time zone rules, which are not in the repository. The conditions, constants and fields '
        'these functions use are covered by C19, and the refusal of malformed dates by C15.')
prop('C29', 'Numbers survive a round trip through text and through the wire',
     'Every integer, double and decimal that is written as text or packed reads back as the same value, with the shortest text that does so '
     'for doubles, and no value is rounded, truncated or changes sign on the way.',
     ['inputs'], 'every representable value',
     'there are 2^64 values and a test samples a handful',
     ['src/core/str-dtoa.c', 'src/core/str-num.c', 'src/arith/float.c', 'src/iop/iop.blk'],
     [('dtoa, strtod wrappers, varint codecs', 'src/core/str-dtoa.c, src/core/str-num.c')],
     na='equality of the decoded and the encoded value is relational over all values (multi-precision arithmetic in the double conversions): '
        'no dataflow domain in reach bounds it. Fixed tables are covered by C09, ranges by C11 and C15, effects by C19 and C21.')
prop('C30', 'Compression gives the original bytes back',
     'For every byte string, what the built-in compressor and the compressed bitmaps produce expands to exactly the original, within the '
     'worst-case size announced beforehand, and expanding arbitrary bytes never writes outside the output.',
     ['inputs'], 'every byte string and every bitmap history',
     'a mismatch needs one particular pattern of repetitions',
     ['src/core/qlzo-c.c', 'src/core/qlzo-d.c', 'src/core/bit-wah.c', 'src/core/zlib-wrapper.c'],
     [('qlzo1x_compress/decompress', 'src/core/qlzo-c.c, src/core/qlzo-d.c'), ('wah_*', 'src/core/bit-wah.c')],
     na='the inverse relation between the two programs is a functional-correctness statement over whole histories of hash tables and pointers; '
        'effects and bounds of the bitmap code are covered by C22.')
prop('C31', 'Timers and rate limits fire within their promised delays',
     'A timer never fires before its date, fires within one tick after it when the loop is idle, timers of the same date fire in the order of '
     'their registration, and a rate limiter lets through exactly the rate it was given over any window.',
     ['schedules', 'histories'], 'every clock behaviour and every load',
     'real clocks and loads cannot be enumerated by a test',
     ['src/core/el.blk', 'src/net/rate.blk'],
     [('timer heap', 'src/core/el.blk'), ('rate control', 'src/net/rate.blk')],
     na='the quantities are wall-clock dates read at run time and values accumulated over a history; no static bound on them exists. '
        'Registration, cancellation and once-only execution are covered by C25.')
prop('C32', 'The compatibility checker accepts exactly the compatible schema changes',
     'A change of a schema is accepted by the backward-compatibility checker if and only if every value packed, or written as JSON, with the '
     'former schema is read by the new one with the same meaning.',
     ['inputs'], 'every pair of schemas and every value of the former one',
     'pairs of schemas are unbounded and the meaning is defined by a third party, the decoder',
     ['src/iop/iop.blk', 'src/tools/dso-compatibility-check.blk'],
     [('backward compatibility checks', 'src/iop.h, src/iop/iop.blk')],
     na='the oracle is the behaviour of the decoder on all values of all schemas: the equivalence of two interpreters is out of reach of '
        'static analysis. That no reviewed check of the checker is dropped or weakened is covered by C11 and C21.')
prop('C33', 'Python bindings give the C library behaviour',
     'Values, remote calls, schemas and errors handled through the Python bindings behave as through the C interface, and no sequence of Python '
     'operations, threads and garbage collections crashes the interpreter or leaks a C object.',
     ['inputs', 'schedules'], 'every Python program and every interleaving of the interpreter and the event loop threads',
     'the interleaving of the collector, of threads and of the loop is not under the control of a test',
     ['src/iopy/'], [('iopy extension', 'src/iopy/')],
     na='the bindings are dynamic Python classes written in Cython (11 500 lines, 145 000 lines of generated C in which every operation is a '
        'call to the interpreter): which code an operation reaches is decided by run-time types, so there is no resolved program to analyse. '
        'The C event-loop side they call is covered by C03, C05 and C07.')
