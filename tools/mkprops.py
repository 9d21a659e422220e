#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long lines stay editable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over.split(), text=text), why_tests_cant=why,
        anchors=dict(files=files.split(),
            **({"state": [dict(name=a, meaning=b, where=c) for a, b, c in state]} if state else {}),
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=observe, hook_needed=hook)))

p("C01", "Stopping an unbounded executor cancels and waits for every task",
  "Every task handed to an unbounded executor runs exactly once, in its own goroutine, with a context that becomes cancelled when the executor is stopped and not before. Stop-and-wait returns only after every started task, including tasks started by other tasks while waiting and tasks that panicked, has finished, unless the waiter's own context ends first, in which case it returns without waiting for them (the tasks are cancelled all the same, also when that context has ended before); once no task is left it does return.",
  "schedules histories", "every number of tasks, start sites, nesting, panicking or slow tasks, and every interleaving of starting, stopping and finishing",
  "the two existing tests start one goroutine and stop; they sample a single schedule and never nest, panic or race Go with StopAndWait",
  "concurrent/unbounded_executor.go",
  [("activeGoroutines counters guarded by a mutex", "concurrent/unbounded_executor.go:Go"), ("polling of the counters after cancel", "concurrent/unbounded_executor.go:StopAndWait")],
  ["task start/finish events recorded by the harness", "return of StopAndWait"],
  [("activeGoroutines", "running tasks per start site", "concurrent/unbounded_executor.go")])

p("C02", "A panicking task is reported once and harms nothing else",
  "A panic inside a task of an unbounded executor never escapes to the process, never stops another task, and is reported exactly once to the panic log with the recovered value. A task that ends by panicking with the stop signal is not reported, and a task that returns normally is never reported. What is told of a panic may itself start tasks of the same executor and wait for them. Reporting a panic to the event log writes one event with the value, the properties given and the stack trace of the goroutine that reports it, without any padding, and returns the value; without a value nothing is written.",
  "inputs schedules histories", "every panic value (errors, strings, structs, uncomparable values, runtime errors), any mix of panicking, stopping and normal tasks running concurrently",
  "no existing test makes a task panic",
  "concurrent/unbounded_executor.go countlog/countlog.go",
  [("recover in the goroutine wrapper", "concurrent/unbounded_executor.go:Go"), ("LogPanic hook wired to the event log", "countlog/countlog.go:init")],
  ["calls of the panic log hook", "panic events that reach the event writer"])

p("C03", "Blocking async writer loses, reorders and corrupts nothing",
  "With a blocking queue, every message accepted by the async writer is written to the underlying writer exactly once, with exactly the bytes passed in even if the caller reuses its buffer afterwards, in the order accepted from each producer, also when the underlying writer is slow, returns errors or panics for some messages. Closing it first writes the messages still queued (as long as that takes less than the one second grace period) and then closes the underlying writer exactly once, also when the wait for it is logged to this very writer; writing to a writer that is closed is refused instead of blocking for ever.",
  "schedules inputs fault_sequences configurations", "any number of producers, queue length, message sizes, slow and failing underlying writers, and any moment of closing after the producers finished",
  "the only test using it writes 1000 equal lines from one goroutine, sleeps, and checks nothing",
  "countlog/output/async/async.go concurrent/unbounded_executor.go",
  [("copy of the buffer before queueing", "countlog/output/async/async.go:Write"), ("single consumer goroutine, drain on cancel", "countlog/output/async/async.go:asyncWrite"), ("stop and wait before closing the target", "countlog/output/async/async.go:Close")],
  ["bytes received by the underlying writer", "Close of the underlying writer"],
  [("queue", "accepted messages not yet written", "countlog/output/async/async.go")])

p("C04", "Non-blocking async writer delivers or reports each message, never blocks",
  "With a non-blocking queue, writing never waits for the underlying writer; every message is either written once and unmodified, in order per producer, or handed once and unmodified to the drop callback, never both and never neither. A message is dropped only when the configured number of messages (1024 by default) is already waiting or when it could not be written before the writer was closed, and without a callback the drops are only counted and reported.",
  "schedules inputs configurations", "any number of producers, queue length, stalled or slow underlying writer",
  "the only test using it never fills the queue and does not look at the output",
  "countlog/output/async/async.go",
  [("select with default on the queue", "countlog/output/async/async.go:nonBlockingQueueWriter.Write"), ("drop callback", "countlog/output/async/async.go:NewAsyncWriter")],
  ["bytes received by the underlying writer", "calls of the drop callback", "return of Write while the writer is stalled"])

p("C05", "Level threshold decides exactly which events come out",
  "An event without aggregation logged with Trace, Debug, Info or Log is output exactly once when its level is at or above the minimum level in force at the time of the call and not at all otherwise, while Warn, Error, Fatal and failed calls are always output (for minimum levels up to Info). A successful call event, like any aggregated event, is output exactly when its level is at least half a level (5) above the minimum, with or without a stats collector; the rule is the same through a log context and through the package functions, and it does not depend on which levels or events were logged before. A log context may suppress levels: the Trace, Debug and Info events logged through it below its suppressed level do not come out either, and no other context is affected.",
  "histories inputs configurations", "every sequence of level changes and log calls of every entry point, with and without context, on fresh and on already used event names",
  "no test asserts what is output at which level",
  "countlog/countlog.go countlog/context.go countlog/root.go countlog/spi/spi.go countlog/timer.go",
  [("comparison with the minimum level in every entry point", "countlog/countlog.go, countlog/context.go"), ("call level threshold", "countlog/root.go:statsAndOutput.Handle")],
  ["events received by a recording event writer"])

p("C06", "Call logging returns the error exactly when the call failed",
  "Logging a call returns nil if and only if the given error is nil, at every minimum level. Otherwise the returned error reads '<event with its properties filled in>: <original message>', built from the properties of this very call and independent of what was logged under the same event before, of the level and of the output format.",
  "inputs histories configurations", "every event template, property list, error, minimum level and history of earlier calls under the same event name",
  "one test checks one message once",
  "countlog/countlog.go countlog/context.go msgfmt/msgfmt.go",
  [("error description built from the event template", "countlog/countlog.go:log")],
  ["error returned by TraceCall, DebugCall, InfoCall, LogAccess"])

p("C07", "Every logged event is delivered exactly once and intact under concurrency",
  "When many goroutines log concurrently, every event that passes the level threshold results in exactly one write to the configured writer, whose bytes are a whole log line with exactly that event's message, property keys and values. No line is lost, duplicated, torn or mixed with another event's data, and the events of one goroutine come out in the order it logged them.",
  "schedules inputs histories", "any number of goroutines, shared and distinct event names, first use of an event name by several goroutines at once, line sizes from tiny to larger than the pooled buffers",
  "existing tests log from one goroutine and print to stdout or a file without reading it back",
  "countlog/countlog.go countlog/root.go countlog/output/writer.go countlog/output/compact/compact.go",
  [("handler cache", "countlog/countlog.go:getHandler"), ("buffer pool", "countlog/output/writer.go:bufPool"), ("recycling after the write", "countlog/output/writer.go:recylceWriter")],
  ["buffers received by a recording writer"],
  [("bufPool", "buffers shared between log calls", "countlog/output/writer.go")])

p("C08", "A log line shows the event's own properties whatever was logged before",
  "In the human readable and compact formats, the line written for an event contains its level, its message template filled with its own values, its error if any, and every one of its properties under the right key in the order given; in the custom layout format it contains exactly what the layout names (message, level, event, timestamp, location). This holds regardless of which keys, value types, order, count, call sites or contexts the same event name was logged with earlier.",
  "inputs histories configurations", "all formats, property lists of any length, key, type and order, and all histories of earlier events with the same or other names",
  "tests format one event with one fresh formatter each; the same-event-different-types test asserts nothing",
  "countlog/countlog.go countlog/root.go countlog/output/hrf countlog/output/compact countlog/output/printf/printf.go internal/kv/shape.go",
  [("handler per event and property shape", "countlog/countlog.go:getHandler"), ("formatters compiled from a sample", "countlog/output/compact/compact.go, countlog/output/hrf/hrf.go, countlog/output/printf/printf.go")],
  ["lines received by a recording writer compared with a reference renderer"])

p("C09", "JSON log lines are valid JSON that carries the event back",
  "Every event written in JSON format is one line holding one valid JSON object, whatever the event name, keys and values are. Parsing it gives back the event name, every property under its key with its value, the time of the event and its location: function, file and line of the call that first logged the event, or of the call itself once writing the event has panicked.",
  "inputs histories", "all event names, keys and values including quotes, control characters, non-ASCII text, nested values and nil",
  "the existing test compares one literal and fails at the pinned commit",
  "countlog/output/json/json.go msgfmt/jsonfmt",
  [("escaped prefixes and typed encoders", "countlog/output/json/json.go:FormatterOf")],
  ["lines received by a recording writer, parsed with encoding/json"])

p("C10", "Logging never harms the program that logs",
  "A log call never panics, never blocks for ever and never corrupts memory, whatever is passed to it: values whose own formatting methods panic, values that contain themselves, typed nil pointers, odd or non-string keys, malformed templates, a writer that fails or panics, log calls from short lived goroutines followed by garbage collection and stack growth. Later, well-formed events (of the same or another name) are still logged correctly afterwards. An event that can not be counted is still written, once, and an event that can not be written is still counted.",
  "inputs histories schedules fault_sequences", "all property lists, failing writers and formatting methods, all goroutine life times relative to garbage collection",
  "no test logs a hostile value, and the memory corruption needs a garbage collection after the logging goroutine's stack is gone",
  "countlog/countlog.go countlog/root.go countlog/output msgfmt",
  [("recover around handlers", "countlog/root.go"), ("sample copied off the caller's stack", "countlog/countlog.go:newHandler")],
  ["panics escaping a log call", "process crash under repeated GC", "lines written afterwards"])

p("C11", "Event counters lose and invent nothing",
  "For events logged with counter aggregation, the sum over all exported points of one event and one combination of dimension values equals the number of events logged with that combination, for any number of goroutines, any number of combinations, any interleaving with exports, and dimension values of any type, also if writing the event fails. Every exported point carries all the named dimensions with their values in the order they appear in the event and no point mixes two combinations.",
  "schedules inputs histories", "0 to 10 dimensions, arbitrary values, concurrent logging and exporting, repeated exports",
  "there is no test of the stats package at all",
  "countlog/stats/window.go countlog/stats/counter.go countlog/stats/stats.go countlog/stats/state.go",
  [("sharded windows with a lock per shard", "countlog/stats/window.go:Mutate"), ("export and reset under the shard lock", "countlog/stats/window.go:exportShard")],
  ["points received by a recording collector"],
  [("shards", "pending counts per dimension combination", "countlog/stats/window.go")])

p("C12", "Counters are exported periodically, named, and only when enabled",
  "With a collector configured, what was counted reaches it again and again, about once a second for as long as the executor's context lives, and each point carries the event's name and export time; a count is never exported twice. Export stops when that context ends, and without a collector nothing is aggregated. A collector that is slow, stuck or logs counted events itself never holds up a log call.",
  "histories schedules configurations", "any number of export periods, events logged between exports, cancellation at any time",
  "there is no test of the stats package at all",
  "countlog/stats/window.go countlog/stats/stats.go countlog/stats/async.go",
  [("export loop", "countlog/stats/window.go:exportEverySecond")],
  ["points received by a recording collector over several periods"])

p("C13", "Rolling file logger loses nothing and respects the maximum size",
  "The backups from oldest to newest followed by the current file contain exactly the bytes of all successful writes, in the order they were accepted, each write whole within one file, across automatic and manual rotation, close and reopen, process kill, and rotations within the same clock tick. No file ever exceeds the maximum size, a write larger than the maximum is refused with an error and leaves everything else intact, and an existing file is appended to. A new file takes over mode and owner of the one it replaces. Only the current file is open, and none after closing.",
  "histories schedules crash_points inputs", "all sequences of writes, rotations, closes and reopens by any number of goroutines, any write sizes around the limit, kill at any moment",
  "the package's tests do not compile at the pinned commit, so nothing is checked",
  "countlog/output/lumberjack/lumberjack.go",
  [("size accounting under the lock", "countlog/output/lumberjack/lumberjack.go:Write"), ("rename to a timestamped backup", "countlog/output/lumberjack/lumberjack.go:openNew")],
  ["content of the log directory after every history"],
  [("size", "bytes in the current file", "countlog/output/lumberjack/lumberjack.go")])

p("C14", "Rolling file retention and compression keep exactly what they should",
  "After rotation settles, at most the configured number of backups remain and they are the newest ones, backups older than the configured age are gone, and with zero limits nothing is removed. With compression each remaining backup is a gzip file with exactly the original content and the uncompressed copy is gone, which stays as long as the gzip file can not be written; files and directories that are not backups of this logger are never removed or changed.",
  "histories configurations inputs", "all combinations of count, age and compression settings, foreign files of similar names, leftovers of an interrupted compression",
  "the package's tests do not compile at the pinned commit, so nothing is checked",
  "countlog/output/lumberjack/lumberjack.go",
  [("background clean up", "countlog/output/lumberjack/lumberjack.go:millRunOnce"), ("time parsed from the file name", "countlog/output/lumberjack/lumberjack.go:timeFromName")],
  ["content of the log directory after quiescence"])

p("C15", "Goroutine local storage is private, inherited by copy and cleaned up",
  "A goroutine with local storage reads back exactly what it stored itself or inherited, never another goroutine's values; a child wrapped to inherit starts with a snapshot of the parent's values at wrapping time (deep copied where values know how to copy themselves) and a child wrapped empty starts with none, and neither side sees later changes of the other. When the wrapped function ends, also by panic, the goroutine is left with what it had before, which for a fresh goroutine is no storage, so nothing leaks.",
  "schedules histories", "any tree of goroutines, nested wrapping in the same goroutine, concurrent use of one wrapped function, any interleaving of sets and gets",
  "two tests run one or two goroutines",
  "gls/gls.go",
  [("sharded maps keyed by goroutine id", "gls/gls.go"), ("copy at wrapping, delete in defer", "gls/gls.go:WithGls")],
  ["values read by each goroutine", "storage enabled before and after"],
  [("globalMaps", "storage of all goroutines", "gls/gls.go")])

p("C16", "Goroutine id is unique and stable",
  "The goroutine id reported inside a goroutine is the same for its whole life, across blocking, stack growth, garbage collection, thread switches and panics, agrees with the id the Go runtime prints in stack traces, and differs from the id of every other goroutine that ever lived in the process.",
  "schedules histories", "any number of goroutines and scheduling events",
  "one test checks 5 goroutines once",
  "gls/goid.go gls/goid_amd64.s",
  [("offset of the id looked up in the runtime's goroutine structure", "gls/goid.go:init"), ("assembly reading the goroutine pointer", "gls")],
  ["ids compared with runtime.Stack headers"])

p("C17", "Message templates render literal text and named values faithfully",
  "Formatting a message copies literal text unchanged and replaces each {name} by the value of that name in the given pairs: strings as they are, byte slices as text (backslash, the bar that separates the properties of a line, control characters below the space and bytes beyond ASCII escaped visibly), values that know how to print themselves by their own text, times by the requested layout, everything else as JSON. All of the printing functions (to string, writer, standard output, with or without newline) produce the same text.",
  "inputs", "all templates over literals, names and format functions, and all values",
  "tests cover a dozen fixed templates",
  "msgfmt/parse.go msgfmt/formatter.go msgfmt/msgfmt.go msgfmt/custom.go msgfmt/formatter_bytes.go",
  [("template lexer", "msgfmt/parse.go"), ("formatter selected by type", "msgfmt/formatter.go")],
  ["returned and written text compared with a reference renderer"])

p("C18", "Formatting depends only on the current template and values",
  "The result of formatting a template with key-value pairs depends only on that template and those pairs. It is not changed by what was formatted before with the same template, by other keys, key orders or value types, nor by other goroutines formatting at the same time. Formatting into a writer returns the count and the error the writer returned.",
  "histories schedules inputs", "all histories of earlier formatting calls and all concurrent ones",
  "tests call each template once",
  "msgfmt/msgfmt.go internal/kv/shape.go",
  [("formatter cache per template and shape", "msgfmt/msgfmt.go:FormatterOf"), ("buffer pool", "msgfmt/msgfmt.go:fprintf")],
  ["text produced by shuffled, repeated and concurrent calls compared with a fresh rendering"])

p("C19", "Formatting terminates without panic for every template",
  "For every template string and every list of arguments whose own methods do not panic (well-formed or not, including unknown names, unknown functions, unbalanced braces, odd lists and non-string keys) formatting terminates, does not panic and returns text. A template that is not well-formed, or that names something not given, is reported visibly in the output instead of being dropped silently.",
  "inputs", "all byte strings as templates and all argument lists",
  "tests cover one malformed template",
  "msgfmt/parse.go msgfmt/formatter.go msgfmt/formatter_invalid.go parse/parse.go",
  [("error reporting of the lexer", "msgfmt/parse.go"), ("formatter that reports the error", "msgfmt/formatter_invalid.go")],
  ["panics, stalls and output of each call"])

p("C20", "JSON encoding of text is valid and lossless",
  "Every string, byte slice, string-like map key, error message and struct field name is encoded as one valid JSON string literal. Decoding the literal of a valid UTF-8 string gives back exactly the string, and byte slices keep the ASCII characters from the space on and show every other byte as an escape that gives back the same byte, independent of length, position and neighbours.",
  "inputs", "all strings and byte slices",
  "tests encode a few fixed strings",
  "msgfmt/jsonfmt/encoder_str.go msgfmt/jsonfmt/encoder_bytes.go msgfmt/jsonfmt/encoder_error.go",
  [("escape tables and fast/slow path", "msgfmt/jsonfmt/encoder_str.go, msgfmt/jsonfmt/encoder_bytes.go")],
  ["encoded text decoded by encoding/json"])

p("C21", "JSON encoding of numbers is exact",
  "Integers of every width and sign are encoded as their exact decimal representation, and booleans as true or false. Floating point numbers are encoded as valid JSON that reads back as the same number up to the six decimal places the encoder keeps for ordinary magnitudes and exactly for large ones; infinities and NaN still give valid JSON.",
  "inputs", "all integers of all widths and all floating point numbers",
  "tests encode a few dozen chosen numbers",
  "msgfmt/jsonfmt/encoder_int.go msgfmt/jsonfmt/encoder_float.go msgfmt/jsonfmt/encoder_bool.go",
  [("digit tables", "msgfmt/jsonfmt/encoder_int.go"), ("scaled fraction", "msgfmt/jsonfmt/encoder_float.go")],
  ["encoded text compared with strconv and decoded by encoding/json"])

p("C22", "JSON encoding of composite values keeps structure and values",
  "Structs, maps, slices, arrays, pointers, interfaces, errors and self-marshaling values, nested arbitrarily and nil at any place, are encoded as valid JSON with the same structure: every field, key and element once, in order where there is one, nothing added or dropped. A value that contains itself is cut off where it repeats instead of being encoded without end. The options of the encoder (unexported fields, custom encoders for chosen types) apply at every depth.",
  "inputs configurations", "all Go values of these kinds without cycles",
  "tests encode a few values per kind, mostly one level deep",
  "msgfmt/jsonfmt/encoder.go msgfmt/jsonfmt/encoder_map.go msgfmt/jsonfmt/encoder_stuct.go msgfmt/jsonfmt/encoder_slice.go msgfmt/jsonfmt/encoder_array.go msgfmt/jsonfmt/encoder_pointer.go msgfmt/jsonfmt/encoder_dynamic.go",
  [("encoders composed per type", "msgfmt/jsonfmt/encoder.go")],
  ["encoded text decoded by encoding/json and compared with the value"])

p("C23", "Encoders, formatters and types are safe to use first from many goroutines",
  "Encoders, message formatters, type descriptors and log handlers can be requested and used for the first time by any number of goroutines at once: there is no data race, every goroutine gets a working result equal to what it would get alone, and sharing the results afterwards is safe.",
  "schedules inputs", "all interleavings of first use over recursive and shared types, templates and event names",
  "tests use each type from one goroutine",
  "msgfmt/jsonfmt/encoder.go msgfmt/msgfmt.go reflect2/reflect2.go countlog/countlog.go",
  [("concurrent caches", "msgfmt/jsonfmt/encoder.go, msgfmt/msgfmt.go, reflect2/reflect2.go, countlog/countlog.go")],
  ["race detector reports", "results compared with single threaded results"])

p("C24", "Parsing does not depend on how the input is chunked",
  "A parse source over a reader behaves exactly as one over the whole input in memory, whatever the chunk sizes the reader returns, including single bytes, empty reads, data returned together with the end, and characters split across chunks: the same bytes and characters come out in the same order, peeking changes nothing, and the end or the reader's error is reported once all data is consumed. No byte is lost, duplicated or changed, and nothing outside the given buffer is written.",
  "inputs fault_sequences histories", "all inputs, chunkings, reader errors and operation sequences",
  "tests use a few fixed buffers",
  "parse/parse.go parse/utf8.go",
  [("buffer refill and look ahead", "parse/parse.go")],
  ["bytes, characters and errors compared with an in-memory model"],
  [("current, nextList", "window over the input", "parse/parse.go")])

p("C25", "Number readers return the value or report an error, never a wrong value",
  "Reading an integer of any supported width consumes exactly the number's characters and returns its exact value when it is representable; a number out of range is always reported as an error, missing digits do not panic, and the characters after the number remain unread. The outcome does not depend on chunking.",
  "inputs", "all digit strings with optional sign, all widths, boundaries, following characters and chunkings",
  "tests read a handful of numbers",
  "parse/read/int.go",
  [("overflow check while accumulating", "parse/read/int.go")],
  ["value, error and remaining input compared with math/big"])

p("C26", "Range, space and delimiter readers stop at exactly the right place",
  "Reading or skipping characters of unicode ranges, spaces, or everything up to a delimiter consumes exactly the longest matching prefix, returns it unchanged (reading) and leaves everything after it, for ASCII and multi-byte characters, at the end of input and across chunk boundaries. Reading and skipping with the same ranges always consume the same characters.",
  "inputs", "all inputs, range tables, delimiters and chunkings",
  "tests cover single ASCII examples",
  "parse/read/range.go parse/read/any.go parse/skip/range.go parse/skip/space.go",
  [("character loops over the source", "parse/read, parse/skip")],
  ["consumed text and remaining input compared with a reference scanner"])

p("C27", "Expression parsing honours precedence, associativity and nesting",
  "Parsing with prefix and infix tokens builds the tree given by the declared precedences, left associative for equal precedence, nested parts first, for expressions of any length and depth, and reports an error where no token fits. One lexer can parse many inputs, concurrently, with the same result each time.",
  "inputs schedules", "all expressions over the declared tokens, nesting depth and concurrent parses",
  "tests evaluate a few three-term expressions",
  "parse/parse.go msgfmt/parse.go",
  [("precedence climbing", "parse/parse.go:Parse")],
  ["value of the parsed expression compared with an independent evaluator"])

p("C28", "Slice and array access equals the standard reflection",
  "Creating, reading, setting, growing, appending and iterating slices and arrays of any element type through the fast reflection layer has the same visible result as the standard reflect package, and never touches elements other than the addressed one. Appending returns a slice with the new element after all old ones, whatever the capacity, and memory stays valid under garbage collection.",
  "inputs histories", "all element types (pointers, interfaces, zero size, large, single-pointer structs), lengths, capacities and operation sequences",
  "tests cover int slices and a few others once",
  "reflect2/unsafe_slice.go reflect2/safe_slice.go reflect2/unsafe_array.go",
  [("pointer arithmetic with typed memory moves", "reflect2/unsafe_slice.go, reflect2/unsafe_array.go")],
  ["values read back through both APIs after every operation"])

p("C29", "Map access and iteration equal the standard reflection",
  "Creating, setting, looking up and iterating maps of any key and element type through the fast reflection layer has the same visible result as the standard reflect package: a lookup finds exactly the stored entries, an absent key is reported as absent, and iterating visits every entry exactly once. This holds for nil and empty maps, any size, and under garbage collection.",
  "inputs histories", "all key and element types, sizes and operation sequences",
  "tests cover a few maps with one or two entries",
  "reflect2/unsafe_map.go reflect2/safe_map.go reflect2/go_above_118.go",
  [("runtime map functions", "reflect2/unsafe_map.go, reflect2/unsafe_link.go")],
  ["entries read back through both APIs"])

p("C30", "Struct fields, interfaces, pointers and type lookup equal standard reflection",
  "Reading and setting struct fields (also promoted ones), packing and unpacking values to and from interfaces, pointer indirection, nil tests, type comparison and finding types by name give the same visible result as the standard reflect package for every type and layout. Setting one field changes only that field, and values obtained this way stay valid under garbage collection.",
  "inputs histories", "all field types and struct layouts including single pointer structs, zero size fields and embedding",
  "tests cover structs with one or two fields",
  "reflect2/unsafe_struct.go reflect2/unsafe_field.go reflect2/unsafe_eface.go reflect2/unsafe_iface.go reflect2/unsafe_ptr.go reflect2/type_map.go reflect2/reflect2.go",
  [("field offsets and interface headers", "reflect2/unsafe_field.go, reflect2/reflect2.go")],
  ["values read back through both APIs"])

p("C31", "Safe and unsafe reflection give the same answers",
  "The safe and the unsafe implementation of the reflection layer are interchangeable: the same sequence of operations on the same values, given as pointers, has the same visible result with both, for all operations both support.",
  "inputs histories configurations", "all operation sequences over types both support",
  "tests run fixed single operations",
  "reflect2/safe_type.go reflect2/safe_slice.go reflect2/safe_map.go reflect2/safe_field.go reflect2/safe_struct.go",
  [("reflect based implementation of the same interfaces", "reflect2/safe_*.go")],
  ["results of both implementations step by step"])

p("C32", "Closing several resources closes all of them and loses no error",
  "Closing a list of resources closes each of them exactly once, in order, whichever of them fail, and returns nil if and only if all succeeded; otherwise the result carries exactly the errors that occurred, in order. Merging errors drops only the nil ones, and a failed single close returns that very error. Every failure is logged once, with its own error, the given properties and the place of the call, and the caller's lists are left as they were.",
  "inputs fault_sequences", "all lists and failure patterns",
  "tests cover two fixed lists",
  "closer.go",
  [("loop that collects errors", "closer.go:CloseAll")],
  ["Close calls recorded by the resources", "returned error"])

p("C33", "Context properties appear on every event logged through the context",
  "A property added to a log context appears with its value on every event logged through that context afterwards in the human readable format, in the order added, and on no event of another context or of no context; properties added later show up without affecting earlier events. Wrapping a context keeps its deadline, cancellation and values, wrapping twice gives the same log context, and contexts derived from it still find it.",
  "histories inputs", "all interleavings of adding properties, deriving contexts and logging, on event names shared between contexts",
  "no test looks at the output of context logging",
  "countlog/context.go countlog/spi/context.go countlog/output/hrf/ctx.go countlog/output/hrf/hrf.go countlog/countlog.go",
  [("log context stored in the context", "countlog/context.go:Value"), ("handlers separated by context shape", "countlog/countlog.go:getHandler")],
  ["lines received by a recording writer"])

p("C34", "Assertions fail the right test exactly when their condition is false",
  "Inside a test case every assertion of the must and should packages lets the test pass exactly when its condition holds. A failing must assertion ends the test case there, a failing should assertion lets it go on, and both report the source text of the failing statement. Only the test case that runs the assertion is failed, also with parallel test cases and in goroutines that inherited the goroutine local data; skipping ends the test case without failing it. Calling a function through an assertion returns its results and fails on a returned error, panics are returned, and nil arguments and results are allowed.",
  "inputs schedules", "all values, arguments and interleavings of parallel test cases",
  "a passing test suite never shows what a failing assertion does",
  "test/case.go test/report.go test/go_above_19.go test/must/call.go test/must/equal.go test/must/nil.go test/must/panic.go test/must/pass.go test/should/call.go test/should/equal.go test/should/nil.go test/should/panic.go test/should/pass.go",
  [("current test kept in goroutine local storage", "test/case.go"), ("helper bookkeeping of testing.T", "test/go_above_19.go")],
  ["results of the inner test cases and their output"])

p("C35", "The JSON assertion passes exactly for the same document",
  "Comparing an actual value (text, bytes or anything that marshals to JSON) with an expected document passes exactly when both are the same JSON document, whatever the order of members, white space, escapes and spelling of numbers. A member expected to be ANYTHING matches every value; a named placeholder of the must package matches any value, but the same one at all its places, also where it names a member. Invalid documents and values that can not be marshaled fail the test. Nothing but a wrong document fails the test.",
  "inputs", "all documents, values, placeholders and differences",
  "tests compare a few small documents",
  "test/must/json.go test/should/json.go",
  [("substitution of placeholders", "test/must/json.go:substituteVars"), ("masking", "test/should/json.go:maskAnything")],
  ["results of the inner test cases"])

p("C40", "The rotating writer loses nothing",
  "Whatever triggers the rotation and however archiving interleaves with the writing, every message accepted by the rotating writer is found whole, once and in order in exactly one of the archives and the current file, also when archiving fails at times and over closing and opening again. When the time of an interval trigger has come the file is archived also if nothing is written. The size trigger fires exactly when the file has reached the size, the time to the next interval trigger is positive, at most the interval and ends on its boundary. Listings are exactly the matching files, oldest first, in the order of the index where they are named by it; retention gives up exactly the oldest archives beyond the count, and purging removes exactly these and reports what it could not remove. Nothing stays open after closing or listing.",
  "histories schedules fault_sequences", "all triggers, limits, write histories and interleavings with the archiving goroutine",
  "the tests of the package never rotate while writing",
  "countlog/output/rotation/rotation.go countlog/output/rotation/archive_by_move.go countlog/output/rotation/name_by_time.go countlog/output/rotation/name_by_index.go countlog/output/rotation/purge_by_delete.go countlog/output/rotation/retain_by_count.go countlog/output/rotation/trigger_by_size.go countlog/output/rotation/trigger_by_interval.go",
  [("status shared by the writing and the rotating goroutine", "countlog/output/rotation/rotation.go:Write, rotateInBackground")],
  ["files of the log directory", "calls of the strategies"])

p("C41", "The log viewer delivers every event once",
  "After the viewer was started, every event logged is delivered to the polling pages exactly once, unchanged and in the order it was logged by its goroutine, in answers that are each one valid JSON array, however many goroutines log and poll. A poll that finds no event waits for the next one and answers with an empty array after a while; an event that comes just as the waiting ends is delivered, too. When nobody polls, logging never waits: the first 10240 waiting events are kept and only the later ones are dropped. The page contains the index and all components.",
  "histories schedules", "all event histories, texts and polling patterns",
  "the only test of the package runs for an hour and asserts nothing",
  "witch/witch.go witch/logger.go",
  [("event queue", "witch/logger.go:eventQueue"), ("answer", "witch/logger.go:moreEvents")],
  ["HTTP responses"])

p("C42", "Dumped variables render faithfully",
  "The snapshot of a variable describes its value, with shared and cyclic pointers, faithfully.",
  "inputs", "all values",
  "the package does not compile at the pinned commit",
  "dump/dumpvar.go", [("map and pointer encoders", "dump/")], ["snapshot text"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
