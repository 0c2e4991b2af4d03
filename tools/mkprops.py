#!/usr/bin/env python3
# Regenerates /verif/properties.jsonl (kept as a script so the text is reviewable).
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if observe: d['anchors']['observe_at']=observe
    d['anchors']['hook_needed']=hook
    P.append(d)
C='src/cxon/lang/common/'
p('P01','Input that ends early is always reported and never read past',
  "Whenever the input ends before a complete value has been seen, reading it - as JSON, CBOR or CXCF, into any supported type, from any kind of iterator - reports an error, never success. No read ever looks at or advances past the end of the input it was given, and the returned end position lies inside the input.",
  ['crash_points','inputs'],"every document, every byte at which delivery can stop, every target type and every iterator category",
  "The tests cut a handful of documents by hand and feed NUL-terminated string literals, so an over-read by one byte is invisible.",
  [C+'cio/char.hxx',C+'cio/string.hxx',C+'cio/numeric.hxx',C+'cio/container.hxx',C+'cio/class.hxx','src/cxon/lang/cbor/common/container.hxx',C+'bio/io.hxx','src/cxon/lang/cbor/common/tag.hxx'],
  [('peek/next end checks',C+'cio/io.hxx'),('bounded byte reads',C+'bio/io.hxx get(), peek()'),('escape and UTF-8 decoding','src/cxon/lang/common/cio/char.hxx str_to_utf32, utf8_to_utf32')],
  observe=['read_result.ec and read_result.end','access to bytes outside an exactly sized heap buffer'])
p('P02','Reading does not depend on how the input is delivered',
  "A given sequence of bytes gives the same outcome (success or failure), the same value and, on success, the same number of consumed bytes whether it is read from a contiguous buffer, through forward, bidirectional or random-access iterators, or from a single-pass stream that arrives in arbitrary pieces. A single-pass source is only ever moved forward, no element is needed twice, and nothing after the end of a self-delimiting value is consumed.",
  ['inputs','schedules'],"every document, every target type, every iterator category and every partition of the bytes into deliveries (numbers in RFC grammar and in range for the lenient default number reader)",
  "The tests use const char* and one input-iterator wrapper for a few fixed texts; they never compare the paths with one another.",
  [C+'cio/numeric.hxx',C+'cio/string.hxx',C+'cio/char.hxx',C+'cio/io.hxx',C+'bio/io.hxx','src/cxon/lang/cbor/common/container.hxx','src/cxon/cxon.hxx'],
  [('dispatch on iterator category',C+'cio/numeric.hxx, cio/string.hxx, bio/io.hxx'),('rewind','src/cxon/utility.hxx')],
  observe=['read_result of the same bytes through different sources','the position of the underlying single-pass stream'])
p('P03','Writing into a bounded range never overruns and reports the overflow',
  "Writing a value to a range that is large enough gives exactly the bytes an unbounded write gives, success, and an end position just behind them. Writing to a range that is too small reports an output failure, leaves in it a prefix of the unbounded output, and never touches a byte outside the range.",
  ['inputs','crash_points'],"every value of every supported type, every capacity from zero to more than enough, JSON, CBOR and CXCF, with and without indentation",
  "Overflow depends on which of many write sites hits the limit; the tests try a few capacities for a few values.",
  ['src/cxon/utility.hxx',C+'cio/io.hxx',C+'bio/io.hxx',C+'cio/container.hxx',C+'cio/class.hxx','src/cxon/lang/cbor/common/sink.hxx'],
  [('range_container','src/cxon/utility.hxx'),('poke',C+'cio/io.hxx and bio/io.hxx'),('to_bytes range overload','src/cxon/cxon.hxx')],
  observe=['write_result.ec/.end','canary bytes around the range'])
p('P04','A refusing or throwing sink is always noticed, and keeps a clean prefix',
  "If an output sink refuses a piece of output (append reports failure, the sink stops being good, or it throws), the write does not report success: it reports an output failure or lets the sink's exception through. The pieces accepted before the refusal are exactly a prefix of the full output, nothing is written after the refusal, and with no refusal every kind of sink receives exactly the same bytes.",
  ['fault_sequences','inputs'],"every value of every supported type, every sink kind and every position at which the sink can start refusing (permanently or for one call)",
  "Each write site needs a failure at exactly that site; the tests' sinks never fail except for short ranges.",
  ['src/cxon/utility.hxx',C+'cio/io.hxx',C+'bio/io.hxx',C+'cio/string.hxx',C+'cio/numeric.hxx',C+'cio/key.hxx','src/cxon/lang/cbor/class.hxx','src/cxon/lang/cbor/node/node.hxx'],
  [('poke option dispatch',C+'cio/io.hxx, bio/io.hxx'),('short-circuit && chains','all write members'),('error propagation to write_context','src/cxon/lang/common/cio/class.hxx')],
  observe=['write_result','the sequence of sink calls'])
p('P05','A read interrupted by an exception leaks nothing and leaves targets usable',
  "If memory allocation fails or the input source throws at any point of a read, the exception reaches the caller, nothing that was allocated during the read is leaked or freed twice, and the target stays destructible and assignable. After assigning a default value to the same target, reading a complete document into it succeeds and gives the same value as reading it into a fresh target.",
  ['crash_points','fault_sequences'],"every target type, every document, every allocation and every source step at which the failure can be injected",
  "Unit tests never make an allocation fail nor a source throw.",
  [C+'node-value.hxx','src/cxon/lang/json/node/node.hxx','src/cxon/lang/cbor/node/node.hxx','src/cxon/lang/json/compound.hxx','src/cxon/lang/cbor/compound.hxx',C+'allocator.hxx',C+'container.hxx','src/cxon/lib/std/memory.hxx'],
  [('RAII in node values',C+'node-value.hxx controller'),('pointer construction',C+'allocator.hxx basic_allocator::create'),('element emplacement',C+'container.hxx')],
  observe=['heap accounting','AddressSanitizer','re-read of the target'])
p('P06','Corrupted JSON is rejected exactly where RFC 8259 says so',
  "A JSON node read accepts a sequence of bytes exactly when it starts with a JSON text as defined by RFC 8259 (plus the documented quoted forms), and then yields the value the RFC assigns to it and stops right behind it. After any corruption of stored JSON (flipped, lost, duplicated, inserted or overwritten bytes) it either reports an error positioned within the input or yields exactly the value the corrupted text denotes.",
  ['inputs','fault_sequences'],"every byte sequence reachable from a valid document by storage and transport faults",
  "The grammar corner cases (numbers, escapes, surrogates, invalid UTF-8) in every structural position and in combination are unbounded; the suite's files cover one instance of each.",
  ['src/cxon/lang/json/node/node.hxx','src/cxon/lib/node.json.hxx',C+'cio/char.hxx',C+'cio/string.hxx',C+'cio/numeric.hxx',C+'cio/container.hxx'],
  [('node kind dispatch','src/cxon/lang/json/node/node.hxx read_value'),('number grammar','src/cxon/lib/node.json.hxx, src/cxon/lang/common/cio/numeric.hxx'),('UTF-8 validation',C+'chio')],
  observe=['read_result and the node'])
p('P07','Corrupted CBOR is rejected exactly where RFC 7049 says so',
  "A CBOR node read accepts a sequence of bytes exactly when it starts with a well-formed RFC 7049 data item, and then yields the value the RFC assigns to it and stops right behind it. After any corruption of stored CBOR it either reports an error positioned within the input or yields exactly the value the corrupted bytes denote.",
  ['inputs','fault_sequences'],"every byte sequence reachable from a valid item by storage and transport faults, including non-preferred and indefinite-length encodings",
  "Every initial byte in every structural position, with every length form, cannot be enumerated by hand; the suite has one instance of each.",
  ['src/cxon/lang/cbor/node/node.hxx','src/cxon/lang/cbor/common/container.hxx','src/cxon/lang/cbor/fundamental.hxx','src/cxon/lang/cbor/common/tag.hxx',C+'bio/io.hxx'],
  [('major type dispatch','src/cxon/lang/cbor/node/node.hxx'),('size and break handling','src/cxon/lang/cbor/common/container.hxx')],
  observe=['read_result and the node'])
p('P08','Messages over a byte stream arrive once, in order, without blocking',
  "Values written one after another to a stream and read from it by a peer arrive exactly once, in order and unchanged, for every interleaving of writer and reader and every way the bytes are split and delayed. The reader never needs a byte that lies behind the end of a self-delimiting message to deliver that message, so a request/response exchange never deadlocks.",
  ['schedules','inputs'],"every message sequence, pipe capacity, chunking, delay and interleaving of writer and reader",
  "Needs two parties and a scheduler; the tests have neither.",
  ['src/cxon/cxon.hxx',C+'cio/container.hxx',C+'cio/class.hxx',C+'cio/string.hxx','src/cxon/lang/cbor/common/container.hxx',C+'bio/io.hxx'],
  [('no look-ahead after the closing token',C+'cio/container.hxx'),('exact byte counts',C+'bio/io.hxx')],
  observe=['message history of both peers','blocked-task detection'])
p('P09','A log of concatenated documents is recovered exactly up to the torn tail',
  "Documents appended back to back to a log are recovered after a crash by reading one value after another from where the previous one ended: every completely stored document is recovered unchanged and in order, and the torn last one is reported as an error and never as a value. Recovery never reports more documents than were completely stored.",
  ['crash_points','histories'],"every sequence of appended documents, every crash point inside the unsynced tail, recovery restarted any number of times",
  "The tests read one document per buffer; position hand-over between reads and torn tails are not exercised.",
  ['src/cxon/cxon.hxx',C+'cio/io.hxx',C+'cio/container.hxx','src/cxon/lang/cbor/common/container.hxx'],
  [('end position of a successful read','src/cxon/cxon.hxx from_bytes')],
  observe=['recovered documents against the append history'])
p('P10','What was written is read back as the same value',
  "Every value of every supported type, written through any kind of sink, is a document of the format that an independent decoder reads as that value, and reading it back through any kind of source consumes all of it and gives an equal value. The same holds for the other encodings the format allows for the value (white space, comments in CXCF, escapes in strings, number forms; in CBOR non-preferred lengths, indefinite-length strings, arrays and maps where the target is a container or a node, and one tag in front of a number, a string or an array). Not covered: std::stack in JSON (written from the top), \\u escapes of letters and digits in enumerators and bitsets, indefinite lengths for fixed-size targets and records.",
  ['inputs','schedules'],"every value of every supported type (arithmetic, strings, containers, optional, variant, tuple, pointers, chrono, complex, bitset, enums, classes, boost containers, nodes), JSON, CBOR and CXCF, every sink and source",
  "The tests fix a few values per type and only one encoding of each.",
  ['src/cxon/lang/json/fundamental.hxx','src/cxon/lang/json/compound.hxx','src/cxon/lang/json/class.hxx','src/cxon/lang/cbor/fundamental.hxx','src/cxon/lang/cbor/compound.hxx','src/cxon/lang/cbor/class.hxx','src/cxon/lib/std','src/cxon/lib/boost',C+'charconv.hxx',C+'cio/string.hxx',C+'cio/char.hxx'],
  [('paired read/write specialisations','src/cxon/lang/*, src/cxon/lib/*')],
  observe=['bytes against an independent encoder/decoder','value equality'])
p('P11','Nodes pass unchanged through chains of formats',
  "A polymorphic value that a chain of processes passes on, each re-encoding it as JSON, CBOR or CXCF and into either kind of node, arrives with the same content (and, where the node type keeps it, in the same order of members). A process that fails or restarts and redoes its step changes nothing in the result.",
  ['histories','inputs','schedules'],"every node value both formats can represent, every chain of formats and every restart point",
  "The tests transcode one document once.",
  ['src/cxon/lib/node.json.hxx','src/cxon/lib/node.cbor.hxx','src/cxon/lib/node.hxx','src/cxon/lib/node.ordered.hxx','src/cxon/lang/json/node/node.hxx','src/cxon/lang/cbor/node/node.hxx'],
  [('cross-format readers and writers','src/cxon/lib/node.json.hxx, src/cxon/lib/node.cbor.hxx')],
  observe=['final node against the model value'])
p('P12','Concurrent use of separate values does not interfere',
  "Threads that read and write their own values, or write one shared constant value, at the same time do not race on any library state. Each gets exactly the result it gets when it runs alone, for every interleaving.",
  ['schedules'],"every interleaving of operations of several threads at every source/sink step, all formats, including the first use of each code path",
  "The tests are single-threaded; a shared buffer or lazily initialised table would pass them.",
  ['src/cxon/cxon.hxx',C+'charconv.hxx','src/cxon/lang/json/error.hxx','src/cxon/lang/cbor/error.hxx',C+'cio/key.hxx',C+'cio/numeric.hxx'],
  [('no shared mutable state','all headers'),('function-local statics','src/cxon/lang/json/error.hxx, src/cxon/lang/cbor/error.hxx')],
  observe=['per-thread results against solo runs','data races'])
p('P13','Nesting is bounded by the configured depth, never by the stack',
  "Reading a polymorphic value from arbitrarily deeply nested input fails with the recursion-depth error exactly when the nesting exceeds the configured depth, for every mixture of nesting constructs of the format, and otherwise succeeds. Depth that was entered is given back: siblings, and later reads, are not affected by earlier nesting, success or failure.",
  ['inputs','configurations'],"every nesting profile (mixtures of arrays, maps, tags, indefinite items, comments), every depth limit",
  "The tests nest one construct to one depth.",
  ['src/cxon/lang/json/node/node.hxx','src/cxon/lang/cbor/node/node.hxx','src/cxon/lib/node.json.hxx','src/cxon/lib/node.cbor.hxx','src/cxon/lang/cbor/common/tag.hxx'],
  [('recursion guard','src/cxon/lang/common/node-value.hxx, node.hxx')],
  observe=['read_result.ec','stack use'])
p('P14','A damaged or hostile length never makes a reader allocate out of proportion',
  "The memory a read allocates is bounded by a constant plus a constant multiple of the input bytes actually delivered, whatever lengths the input claims. A claimed length larger than what follows ends in an ordinary error, never in exhaustion of memory, a crash or an endless loop.",
  ['inputs','fault_sequences'],"every corruption of length fields, counts and exponents, every target type",
  "The tests contain no false length beyond one or two.",
  ['src/cxon/lang/cbor/common/container.hxx',C+'container.hxx','src/cxon/lang/cbor/node/node.hxx',C+'cio/string.hxx'],
  [('reserve on claimed size',C+'container.hxx, cbor/common/container.hxx')],
  observe=['peak heap use against bytes consumed','step count'])
p('P15','Indentation changes only white space and survives output faults',
  "Indented output and tidied text differ from the compact output only by white space outside strings, follow the documented layout, and read back as the same value; so does tidied text of formats with other separators, string delimiters and unquoted keys. Under every output fault they behave as compact writing does: a prefix, an output failure, nothing outside the sink.",
  ['inputs','fault_sequences'],"every value, indent width and character, sink kind and failure position",
  "The tests compare a few documents with expected text into a string.",
  ['src/cxon/lang/json/tidy.hxx'],[('indent_iterator','src/cxon/lang/json/tidy.hxx')],
  observe=['output text against a reference indenter'])
p('P16','Node values keep their content through any history of assignments',
  "Through every sequence of constructions, assignments, copies, moves, swaps, imbues, resets and destructions of JSON, CBOR and ordered nodes - within one allocator or across different ones, self-operations included - each node holds exactly the value a plain model holds, every block goes back to the allocator it came from, and moved-from nodes stay usable. If an allocation fails in the middle, nothing leaks or is freed twice, untouched nodes keep their value and the target stays usable.",
  ['histories','fault_sequences'],"every operation history over a pool of nodes and every failing allocation within it",
  "The tests try each operation once, in a fresh state and without failing allocations.",
  [C+'node-value.hxx','src/cxon/lang/json/node/node.hxx','src/cxon/lang/cbor/node/node.hxx','src/cxon/lib/node.ordered.hxx',C+'allocator.hxx'],
  [('value controller',C+'node-value.hxx'),('allocator propagation',C+'node-value.hxx')],
  observe=['node content against a model','per-allocator accounting'])
p('P17','Typed reads of damaged data are safe and never yield a silently wrong value',
  "Reading damaged JSON, CBOR or CXCF into any typed target terminates, touches no memory it should not, and either reports an error positioned inside the input or succeeds with a value that is consistent with what the bytes denote: numbers out of the target's range are errors, not wrapped or left unchanged. When a read succeeds, writing the value and reading it again gives an equal value.",
  ['inputs','fault_sequences'],"every target type and every corruption (bit flips, lost, duplicated, swapped and spliced bytes)",
  "The space of type x damage is unbounded; the tests contain a few malformed inputs per type.",
  [C+'cio/numeric.hxx','src/cxon/lang/cbor/fundamental.hxx','src/cxon/lang/cbor/class.hxx','src/cxon/lang/json/class.hxx',C+'cio/class.hxx','src/cxon/lib/std','src/cxon/lib/boost'],
  [('range checks',C+'charconv.hxx, cbor/fundamental.hxx'),('sink overflow checks','src/cxon/lang/common/container.hxx')],
  observe=['read_result','value against an independent decoder','sanitizers'])
p('P18','Records survive reordered, repeated, missing and unknown members',
  "A record written by a peer that sends members in another order, omits some, repeats some or adds members the reader does not know is read as: known members get the value sent and missing ones keep theirs; an unknown or repeated member is an error by default, a member declared as skipped is ignored whatever its content, and where repetition is allowed the last one wins - without disturbing the other members. This holds for JSON, CBOR and CXCF and for nested records.",
  ['inputs','fault_sequences'],"every record type, permutation, omission, repetition and addition of members, with any nested content in skipped members",
  "The tests use one permutation and one unknown member.",
  ['src/cxon/lang/json/class.hxx','src/cxon/lang/cbor/class.hxx',C+'cio/class.hxx',C+'cio/value.hxx',C+'cio/key.hxx','src/cxon/lang/cbor/common/sink.hxx'],
  [('field lookup',C+'cio/class.hxx, cbor/class.hxx'),('skipping of unknown members',C+'cio/value.hxx, cbor/common/sink.hxx')],
  observe=['the record against a model'])
p('P19','Results do not depend on locale, errno, stack contents or language standard',
  "What is read and written does not depend on the process environment: the C and the C++ locale, a stale errno, the contents of the stack, and whatever values were processed before, by this or other code. Changing any of them between or during operations changes no byte of output and no value read. A C++11 build of the library (which converts numbers itself) reads and writes the same as a C++20 build.",
  ['schedules','configurations'],"every value and document, every environment change at every operation boundary, C++11 to C++20 builds",
  "The tests run in one fresh process in the C locale.",
  [C+'charconv.hxx',C+'cio/numeric.hxx'],[('from_chars/to_chars',C+'charconv.hxx')],
  observe=['results under a changed environment against results in a clean one'])
p('P20','Fixed-capacity targets and token limits are never exceeded',
  "Input longer than a fixed-capacity target (arrays, bitsets, spans, static containers, character arrays, tuples) or than a configured token limit is reported as an error and never written past the target; input that fits is read completely. The outcome depends only on the sizes (and, for numbers, on whether the source needs the buffer that the limit sizes), not on how the input is delivered; a name that is too long is never taken for the one it begins with.",
  ['inputs','configurations'],"every fixed-capacity type and every input size around its capacity, every iterator category",
  "Off-by-one behaviour around each capacity for each delivery path is not sampled by the tests.",
  [C+'container.hxx',C+'cio/container.hxx','src/cxon/lang/cbor/common/container.hxx',C+'cio/key.hxx',C+'cio/numeric.hxx',C+'cio/enum.hxx','src/cxon/lib/std/array.hxx','src/cxon/lib/std/bitset.hxx'],
  [('range container overflow checks',C+'container.hxx'),('token buffers',C+'cio/key.hxx, cio/numeric.hxx')],
  observe=['guard zones around targets','read_result'])
p('P23','Memory of a target comes from its allocator and goes back to it',
  "When a target carries an allocator given by the caller (std::pmr and other stateful allocators: containers, strings, nodes with their keys and tagged values, objects made behind plain pointers), reading into it, copying, moving, swapping, assigning and editing it take the memory of everything it owns from that allocator and give it back to the same one, in the same sizes; no memory is taken from any other source and no part is left with a foreign allocator. Every object made is destroyed exactly once. All of that holds when the allocator runs out of memory at any point, and the content is that of a model with the default allocator.",
  ['inputs','fault_sequences','histories'],"every document, every history of operations on several targets with several allocators, failure of any allocation",
  "The tests use the default allocator and never run out of memory.",
  ['src/cxon/lang/common/allocator.hxx',C+'node-value.hxx','src/cxon/lang/cbor/node/node.hxx','src/cxon/lang/json/node/node.hxx','src/cxon/lang/cbor/compound.hxx','src/cxon/lang/json/compound.hxx','src/cxon/lang/common/container.hxx'],
  [('uses-allocator construction','src/cxon/lang/common/allocator.hxx'),('node value control',C+'node-value.hxx'),('pointer containers','src/cxon/lang/common/container.hxx')],
  observe=['per-allocator accounting with sizes','allocations outside of all allocators','objects alive','content against a model'])
p('P21','Nodes work as keys, whatever history they have',
  "Nodes of the same content and kinds are equal, neither is less than the other and they hash alike, and different ones are unequal and exactly one of the two is less, the order being transitive - however each came to its content: assigned, copied, moved, exchanged, edited in place or read from any encoding of it. A node equals a plain value exactly if it holds that value. So ordered and hashed indexes of nodes hold and find exactly what was put in, through every sequence of insertions, erasures and failing allocations.",
  ['histories','fault_sequences'],"every history of nodes and of indexes keyed by them, every pair and triple of the nodes alive, and every failing allocation",
  "The tests compare a few fixed pairs of fresh nodes and hash a few of them.",
  ['src/cxon/lang/json/node/node.hxx','src/cxon/lang/cbor/node/node.hxx',C+'hash.hxx','src/cxon/lib/node.ordered.hxx',C+'node-value.hxx'],
  [('operators and hashes of JSON nodes','src/cxon/lang/json/node/node.hxx'),('operators and hashes of CBOR nodes, tags and simple values','src/cxon/lang/cbor/node/node.hxx'),('hashes of containers',C+'hash.hxx'),('members of ordered nodes','src/cxon/lib/node.ordered.hxx')],
  observe=['results of comparisons and hashes against the content','contents of std::set, std::map, std::unordered_set and std::unordered_map'])
p('P22','Formats customised by traits keep the promises of the standard one',
  "A text format customised by the documented traits - other separators and delimiters, comments, trailing separators, words for infinities, raw or unquoted keys, no validation, no escapes, strict JavaScript output, repeated keys - still keeps what the standard one promises: what is written is read back as the same value, also from other encodings the customised grammar allows and with the same outcome from every source; what is cut short, damaged or outside that grammar (a document of another customisation included) is rejected, except for what the traits declare as assumed; bounded output is never overrun; each liberty is granted wherever the grammar has a place for it and nowhere else; scripts contain no line terminators.",
  ['inputs','configurations','fault_sequences'],"every value, encoding, source and damage, in each customised format",
  "The tests read and write a few fixed documents per trait, one trait at a time.",
  ['src/cxon/cxon.hxx',C+'cio.hxx',C+'container.hxx',C+'key.hxx',C+'char.hxx',C+'numeric.hxx',C+'string.hxx',C+'io.hxx','src/cxon/lang/json/json-fwd.hxx'],
  [('traits','src/cxon/lang/json/json-fwd.hxx'),('white space and comments',C+'io.hxx'),('separators',C+'container.hxx'),('keys',C+'key.hxx'),('delimiters and special values',C+'numeric.hxx')],
  observe=['result, error and end of each read against a reference parser of the customised grammar','bytes written'])
here=os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here,'..','properties.jsonl'),'w') as f:
    for d in P: f.write(json.dumps(d)+'\n')
