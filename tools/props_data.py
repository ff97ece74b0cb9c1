SCHED = "stateless model checking of the real code: every interleaving within the preemption bound under a controlled scheduler, plus the race detector on those schedules"
SCHED_NOTE = "Exhaustive within the stated bounds (see evidence: executions, transitions, distinct outcomes). Trusted: the source rewriting that routes go/chan/select/sync/atomic/time through the scheduler, sequential consistency between scheduling points (data races are looked for separately), and the harness oracle."

prop("C01", "Executor runs every handler once; stop cancels and waits for all of them",
 "Every handler given to an unbounded executor is run exactly once with a context that is cancelled exactly when the executor is stopped. The waiting stop returns only after every handler accepted before it has finished, or when the wait's own context ends, and neither a handler that has finished or panicked nor a logger that uses the executor blocks it; the non-waiting stop returns at once, and giving a handler to the executor never waits for a handler.",
 ["schedules", "configurations"], "for all interleavings of submitters, handlers, stoppers and waiters, and all mixes of handler behaviours",
 "The executor has no tests; the guarantee is about interleavings of Go, Stop and handler completion.",
 ["concurrent/unbounded_executor.go", "concurrent/executor.go"],
 [("handler accounting by start location", "UnboundedExecutor.Go"), ("cancel and poll until no handler is active", "Stop/StopAndWait/StopAndWaitForever")],
 SCHED, SCHED_NOTE)
prop("C02", "A panicking handler is contained and reported exactly once",
 "When a handler run by an executor panics with any value, the process, the executor and the other handlers go on undisturbed and the executor can still be used, stopped and waited for. The panic is reported to the configured panic reporter exactly once with the original value, except for the stop signal, which is not reported.",
 ["schedules", "inputs"], "for all panic values and all interleavings of panicking and well-behaved handlers with stop",
 "No test makes a handler panic; all panic values and moments matter.",
 ["concurrent/unbounded_executor.go"],
 [("recover around the handler", "UnboundedExecutor.Go"), ("panic reporter", "concurrent.LogPanic")],
 SCHED, SCHED_NOTE)
prop("C03", "Blocking async writer: lossless, ordered, uncorrupted; Close drains it",
 "Every message written to a blocking asynchronous writer is passed on to its sink exactly once, unmodified even when the caller reuses its buffer at once, never concurrently, and in the order in which the writes completed; a sink write that fails or panics loses nothing but itself, and each failure is reported once. Write accepts the whole message and reports success, waiting when the queue is full. Close returns after everything written before it has reached the sink (for a sink that keeps up within the grace period), closes a closable sink exactly once, after the last write, and returns the sink's close error.",
 ["schedules", "configurations", "fault_sequences"], "for all interleavings of producers, the writer goroutine and Close, all queue lengths, and slow, failing or blocked sinks",
 "The only test sleeps a second and looks at nothing; drain-on-close and ordering depend on schedules.",
 ["countlog/output/async/async.go"],
 [("queue and copy of the caller's buffer", "blockingQueueWriter.Write"), ("writer loop and drain after cancellation", "asyncWrite"), ("stop, wait, close sink", "Close")],
 SCHED, SCHED_NOTE)
prop("C04", "Non-blocking async writer never blocks; each message delivered xor dropped",
 "Writing to a non-blocking asynchronous writer never waits for the sink, accepts the whole message and reports success. Every message written before Close is either delivered to the sink exactly once, unmodified and in order, or reported to the drop callback exactly once with its content, and it is dropped only when the queue (default length 1024) is full. Without a callback, drops are counted and reported safely from any number of goroutines.",
 ["schedules", "configurations", "fault_sequences"], "for all interleavings of producers, the writer goroutine and Close, all queue lengths, and slow, failing or blocked sinks",
 "The only test sleeps a second and looks at nothing; drop accounting depends on schedules and on a full queue.",
 ["countlog/output/async/async.go"],
 [("try-send and drop callback", "nonBlockingQueueWriter.Write"), ("default drop handler", "NewAsyncWriter")],
 SCHED, SCHED_NOTE)
prop("C05", "Each logged event reaches its sink as one whole, unmixed record",
 "However many goroutines log at the same time, through the same or different event handlers and sinks, every emitted event results in exactly one write call on the sink carrying exactly the bytes of that event's record, never mixed with another event's bytes. The same event formats to the same bytes whichever event was logged before or is being logged concurrently, and a failing sink disturbs no other event.",
 ["schedules", "inputs"], "for all interleavings of logging goroutines, record sizes around buffer growth, formats and sink failures",
 "Tests log from one goroutine; mixing of buffers needs an interleaving or a record larger than the buffer.",
 ["countlog/output/writer.go", "countlog/root.go", "countlog/countlog.go", "msgfmt/formatter.go"],
 [("per-event buffer", "output.writeEvent.Handle"), ("handler cache", "countlog.getHandler")],
 SCHED, SCHED_NOTE)
prop("C16", "Goroutine-local storage is private, inherited by copy, and cleaned up",
 "Every run of a function wrapped for goroutine-local storage starts with exactly the values its creator had when it was wrapped (copied with Copy() where offered; none for the empty variant), and what is stored or changed afterwards on either side, in any other run or in any other goroutine is never visible in it. When the outermost wrapped function ends, normally, by panic or by Goexit, the goroutine's storage is gone; when a nested one ends, the outer storage is back as it was. Outside any wrapped function reading yields nothing and storing is refused with a panic.",
 ["schedules", "programs"], "for all programs of nested, spawned, deferred and repeated wrapped functions and all interleavings of goroutines, also in the same lock shard",
 "Tests set and read one value in one goroutine.",
 ["gls/gls.go", "gls/goid.go"],
 [("sharded goroutine id to storage map", "gls.GetGls/ResetGls/DeleteGls"), ("wrappers", "gls.WithGls/WithEmptyGls"), ("goroutine id", "gls.GoID")],
 SCHED, SCHED_NOTE)
prop("C17", "Counted events are conserved: exported points sum to the events logged",
 "For every event and every combination of dimension values, the counts exported to the collector over time sum up to exactly the number of events logged with these dimension values before the last export, each point carrying the event, the timestamp and its dimension names and values; no count is lost, duplicated or attributed to another dimension, however many goroutines log and export at the same time. Every started event is exported once per second until the executor is stopped; an event that cannot be counted affects neither the caller nor later counts, and a collector that panics loses nothing but the point given to it, and the panic is reported.",
 ["schedules", "histories"], "for all interleavings of logging goroutines with exports, sequences of events and numbers of dimensions",
 "Tests export once from the goroutine that counted.",
 ["countlog/stats/counter.go", "countlog/stats/window.go", "countlog/stats/state.go", "countlog/stats/stats.go"],
 [("sharded window and its locks", "stats.Window"), ("swap and merge at export", "Window.Export"), ("dimension extraction", "dimensionExtractor"), ("export timer", "Window.exportEverySecond")],
 SCHED, SCHED_NOTE)
FS = "explicit-state exploration of the real rolling logger: all operation sequences (and schedules, faults, crash points) within bounds, directory compared with a reference model after every step"
FS_NOTE = "Exhaustive within the stated bounds on the real code and a real scratch directory, with virtual time and a controlled scheduler for the clean-up goroutine. Trusted: the source rewriting, the reference model, the scratch file system."
prop("C18", "Rolling log file keeps every accepted write, in order, within the size limit",
 "Every write accepted by the rolling log file is found exactly once, contiguous and in order, in the concatenation of its backups (oldest first) and its current file, across size-triggered and explicit rotations, close, reopening and restarts, also with concurrent writers, rotators and closers. No file grows beyond the size limit, a write larger than the limit is refused without any effect, a write that still fits into the open file does not rotate it, every rotation starts an empty current file with the old file's owner and permissions, and backups are named after the log file and the rotation time.",
 ["histories", "schedules", "configurations"], "for all sequences of writes (of all sizes around the limit), rotations, closes, restarts and clock steps, all starting states, and all interleavings",
 "The upstream tests do not compile here and sample a handful of sequences.",
 ["countlog/output/lumberjack/lumberjack.go"],
 [("size accounting and rotation", "Logger.Write/openExistingOrNew/rotate"), ("backup naming", "backupName")],
 FS, FS_NOTE)
prop("C19", "Retention and compression touch only own backups beyond the limits",
 "After a rotation has been processed, exactly the own backups beyond the configured number (newest kept; plain and compressed form of one backup count once) or older than the configured age are gone, and with compression every remaining one is replaced by a gzip file with the identical content, owner and permissions; without limits nothing is ever removed. Files that are not backups of this log file, the current file and backups within the limits are never touched, for any file name, time format, local or UTC time, and set of existing files.",
 ["histories", "configurations", "schedules"], "for all sequences of rotations and clock steps, retention settings, directory contents and schedules of the clean-up goroutine",
 "The upstream tests do not compile here and sample a handful of settings.",
 ["countlog/output/lumberjack/lumberjack.go"],
 [("selection of files to remove and compress", "Logger.millRunOnce"), ("recognition of own backups", "timeFromName/oldLogFiles"), ("compression", "compressLogFile")],
 FS, FS_NOTE)
prop("C20", "Rolling log file loses no accepted write to file errors or a crash",
 "Whatever file operation of the rolling log file or its clean-up fails, is cut short or is the last one before the process dies, every write that was accepted is still there exactly once, intact and in order, in the plain or compressed backups and the current file, and no other file is harmed. An operation fails only when a file operation under it failed, a new logger on the same file carries on writing and rotating without losing anything, no file grows beyond the size limit, and a single failure without a crash leaves no broken compressed backup.",
 ["crash_points", "fault_sequences", "histories"], "for every file operation of every script, with an error, a short write, or a crash before, during or after it",
 "Tests inject no faults and no crashes.",
 ["countlog/output/lumberjack/lumberjack.go"],
 [("rename, create and write order", "Logger.openNew/rotate/Write"), ("compress then remove", "compressLogFile")],
 FS, FS_NOTE)
PURE = "explicit-state enumeration on the real code: every input, delivery and operation sequence within bounds, each step compared with an independent reference model"
PURE_NOTE = "Exhaustive within the stated bounds on the real code (no sampling); a watchdog turns endless loops into violations. Trusted: the reference model and the bounds being large enough."
prop("C13", "What a parser reads depends on the bytes only, not on how they arrive",
 "What a parse.Source shows and every read and skip helper returns, consumes and reports is a function of the bytes of the input and the reader's final error only: not of how the reader cuts them into chunks, whether it returns the error with the last bytes or after them, empty reads, or the size of the buffer. No byte is lost, repeated or reordered, an error is reported only once the bytes before it are consumed, and every call ends, also on more than is there. The caller's buffer is the only memory of the caller that is written.",
 ["inputs", "histories"], "for all inputs, all ways of chunking and ending them, all buffer sizes and all sequences of operations",
 "Tests read one string in one way; the behaviour at chunk borders and at the end depends on the delivery.",
 ["parse/parse.go", "parse/read/any.go", "parse/read/int.go", "parse/read/range.go", "parse/skip/range.go", "parse/skip/space.go"],
 [("refilling the buffer and the final error", "Source.Consume/ConsumeN/PeekN"), ("runes across chunks", "Source.PeekRune"), ("scan helpers", "read.AnyExcept1/UnicodeRange, skip.Space")],
 PURE, PURE_NOTE)
prop("C14", "Integers are read exactly, or their overflow is reported",
 "Reading a signed or unsigned 32 or 64 bit integer from a source yields exactly the value of the decimal digits (with sign, where the type has one) in front, and consumes exactly these; a value that does not fit into the type is always reported as an error different from the end of the input, and never silently turned into another number. This holds for every number of digits and leading zeros, whatever follows, and however the input is delivered.",
 ["inputs"], "for all digit strings around every multiple of the type limits, all short inputs, all ways of delivering them",
 "Tests read a few small numbers; overflow is missed only by special values.",
 ["parse/read/int.go"],
 [("overflow detection while accumulating", "read.Uint64"), ("sign and limits", "read.Int64/Int32/Int")],
 PURE, PURE_NOTE)
prop("C15", "Operator precedence parsing builds exactly the tree the operators say",
 "For every table of prefix, infix and postfix operators, parse.Parse and parse.String build the tree that precedence and associativity of the operators prescribe, nested parses included, and stop in front of the first token that is not an infix or postfix operator. Input with a missing operand or a missing closing token is reported as an error, and never accepted, crashed on or looped on, however it is delivered.",
 ["inputs", "configurations"], "for all expressions over prefix, infix, postfix operators and parentheses, all operator tables and all inputs, well-formed or not, within the bounds",
 "Tests parse a handful of expressions with one operator table.",
 ["parse/parse.go"],
 [("precedence climbing", "parse.Parse"), ("error reporting", "Source.ReportError/Error"), ("expected tokens", "Source.Consume1")],
 PURE, PURE_NOTE)
prop("C10", "Formatting prints exactly what the format says for the arguments given",
 "Printing with a msgfmt format (Sprintf, Fprintf, Printf, FormatterOf) yields the literal text of the format with each {name} and {name, function, ...} replaced by the value of the first argument of that name: strings and Stringers as their text, bytes as escaped text, times in the given layout, everything else as JSON; functions the user registers get their arguments as given. The result depends on the format and the arguments of this call only, never on an earlier or concurrent call with the same format and arguments of other types or names. A malformed format, an unknown function, a missing or mistyped argument yields text that starts with '%! (INVALID FORMAT) ', never a panic or an endless loop; Fprintf makes exactly one Write and returns its result, Printf and Println write the same to the standard output.",
 ["inputs", "histories", "schedules"], "for all formats made of the tokens of the syntax, all argument lists, all histories of calls and all interleavings of two callers",
 "Tests print some twenty formats once each; malformed formats and the cache keyed by the format need other inputs and histories.",
 ["msgfmt/msgfmt.go", "msgfmt/formatter.go", "msgfmt/parse.go", "msgfmt/custom.go"],
 [("formatter cache", "msgfmt.FormatterOf"), ("format parser", "msgfmt format lexer"), ("value formatters by type", "formatterOf argument type")],
 PURE, PURE_NOTE)
prop("C11", "JSON numbers, strings and bytes are exact for every value",
 "The JSON encoder writes every integer of every width as exactly its decimal digits; every string as a valid JSON string that decodes to the same runes; every byte slice as a JSON string with non-printable bytes as \\xNN text; every float with an error of at most half a millionth up to 0x4ffffff and exactly above, and null where JSON has no number for it. It only appends to the given buffer, whatever its length and capacity, and never panics.",
 ["inputs"], "for all integers around every digit boundary, all short byte strings over all classes of bytes, all (thorough) 32 bit floats",
 "Tests encode a few dozen values; the defects sit at digit boundaries, at the end of strings and between escapes.",
 ["msgfmt/jsonfmt/encoder_int.go", "msgfmt/jsonfmt/encoder_str.go", "msgfmt/jsonfmt/encoder_bytes.go", "msgfmt/jsonfmt/encoder_float.go"],
 [("three digits at a time", "WriteUint64/WriteInt64 and friends"), ("escaping", "WriteString/WriteBytes"), ("six digits lossy", "WriteFloat64/WriteFloat32")],
 PURE, PURE_NOTE)
prop("C12", "The JSON of a value is valid and has exactly the value's structure",
 "For every value of every type built from basic types, pointers, interfaces, slices, arrays, maps, structs (embedded, tagged, recursive), errors and Marshalers, the JSON encoder yields one valid JSON document with exactly its elements, map entries and exported, encodable fields under their names; nil slices are [], other nils null, errors their message, Marshalers their own text, and map keys of any type strings. Pointer, interface and container make no difference, configured extensions and the handling of unexported fields apply at every depth, and the outcome does not depend on which types were encoded before or are being encoded concurrently.",
 ["inputs", "histories", "schedules", "configurations"], "for all types of the grammar up to a depth and their small values, all ordered pairs of hand-written types, four configurations and all interleavings of two goroutines building encoders",
 "Tests encode one value of a dozen types; memory layout (single pointers, empty arrays), recursion and the encoder cache need other types and orders.",
 ["msgfmt/jsonfmt/encoder.go", "msgfmt/jsonfmt/encoder_map.go", "msgfmt/jsonfmt/encoder_dynamic.go", "msgfmt/jsonfmt/encoder_stuct.go", "reflect2/unsafe_map.go"],
 [("encoder per type, cached", "frozenConfig.EncoderOf"), ("single-pointer layout", "onePtrEncoder/onePtrInterfaceEncoder"), ("maps", "mapEncoder"), ("interfaces", "dynamicEncoder")],
 PURE, PURE_NOTE)
prop("C06", "Levels select exactly the events that are written; calls report errors",
 "An event is handed to the sink exactly once if its level is enabled, and not at all otherwise: warnings, errors, fatals and panics always; trace, debug, info and Log(level) from the minimum level on, and in a context not below the level suppressed there; aggregated events (calls, or a property agg) without an error are written individually from half a level higher on and counted from their own level on, failed calls are always written, as warnings (accesses: errors). A call returns nil without an error, and otherwise an error with the formatted event and the cause. Timers run and ShouldLog is true exactly for enabled levels, whatever was logged under a name before and whatever the minimum level was then, with and without a collector.",
 ["configurations", "histories", "inputs"], "for all minimum levels, logging functions, errors, suppressed levels, aggregations, and histories of up to three events of one name",
 "Tests log a handful of events at the default level and look at nothing.",
 ["countlog/countlog.go", "countlog/context.go", "countlog/timer.go", "countlog/root.go", "countlog/spi/spi.go", "countlog/stats/stats.go"],
 [("gating by function", "countlog.Trace/Debug/Info/Log/*Call"), ("context levels", "Context.SuppressLevelsBelow"), ("individual entries of aggregated events", "statsAndOutput.Handle, spi.MinCallLevel")],
 PURE, PURE_NOTE)
prop("C07", "Logging never harms the caller or other events, and loses nothing silently",
 "Whatever properties, names, errors and recovered values an event has (odd lists, names that are no strings, nil, unsupported types, Stringers, errors and Marshalers that panic or fail), and whichever component of the logger (sink, format, writer, aggregator) panics or fails, how often and when, the logging call returns normally with its proper result and never ends or corrupts the process. An event that cannot be written is reported through loglog.Error, an event that could not be counted is still written once, and every other event, of the same or another name and place, before, after or at the same time, is written exactly once with its own content.",
 ["inputs", "fault_sequences", "histories", "schedules"], "for all property lists of a catalogue in all formats, all subsets of failing calls of every component, all histories of up to three (four) events and all interleavings of two goroutines",
 "Tests log well-formed events to working components.",
 ["countlog/countlog.go", "countlog/root.go", "countlog/shape.go", "countlog/output/writer.go", "countlog/output/hrf/hrf.go", "countlog/output/json/json.go", "countlog/output/compact/compact.go"],
 [("recovery and the second attempt", "oneHandler/statsAndOutput.Handle, nomalModeOnPanic"), ("handlers per place after a failure", "redirector"), ("reports", "fallbackModeOnPanic, loglog.Error")],
 PURE, PURE_NOTE)
prop("C09", "Every record shows exactly its event, whatever was logged before or meanwhile",
 "Each record written in one of the formats (hrf, compact, json, printf) shows exactly its event: the level's name, the event's name or its text with the {name}s filled in, its time, its error, the context's properties (hrf), and every property under its name, whatever it is, with its own value, in order; json records are one valid JSON document per line. The place shown is one this event name was logged from. This does not depend on what other events, of the same name with other properties, types, contexts, errors or levels, were logged before or are being logged at the same time, nor on the caller reusing the properties afterwards.",
 ["inputs", "histories", "schedules", "configurations"], "for all events of a catalogue of functions, names, property lists, errors and contexts in all formats, all histories of two (three) events of one name, and all interleavings of two goroutines",
 "Tests format one event with hand-made sites; the cached handler of a name only matters from the second event on.",
 ["countlog/output/hrf/hrf.go", "countlog/output/compact/compact.go", "countlog/output/json/json.go", "countlog/output/printf/printf.go", "countlog/countlog.go", "countlog/shape.go"],
 [("handler per name and shape", "countlog.getHandler"), ("formatter per site", "Format.FormatterOf"), ("properties by position", "output.PropertyAt")],
 PURE, PURE_NOTE)
prop("C21", "Values read and changed through reflect2 are as if by the language itself",
 "For every type, reading and changing values through reflect2 has the same result as the language or package reflect: New, Set, Indirect, PackEFace, IsNil of any type; Append, Grow, SetIndex, GetIndex, SetNil, MakeSlice, LengthOf and Cap of slices; SetIndex and GetIndex of arrays; SetIndex, GetIndex, TryGetIndex, MakeMap and Iterate of maps (every entry once); Get and Set of struct fields, also promoted and unexported ones, however they were looked up. This holds for the checked, the unsafe.Pointer and the safe (ConfigSafe) operations alike, for every sequence of operations, whenever the garbage collector runs; no other memory is changed, and a type looked up is that type, whatever was looked up before or at the same time.",
 ["inputs", "histories", "schedules", "configurations"], "for all types of a catalogue of 96 and slices, arrays, maps and structs of them, all sequences of up to three (four) operations, a garbage collection after any operation, and concurrent lookups",
 "Tests use ints and strings and one operation each; layouts (one-pointer structs and arrays, interfaces, big or empty elements), growth and collections need others.",
 ["reflect2/reflect2.go", "reflect2/unsafe_type.go", "reflect2/unsafe_slice.go", "reflect2/unsafe_array.go", "reflect2/unsafe_map.go", "reflect2/unsafe_struct.go", "reflect2/unsafe_field.go", "reflect2/unsafe_eface.go", "reflect2/unsafe_iface.go", "reflect2/safe_slice.go", "reflect2/safe_map.go"],
 [("wrapping of types, cached", "frozenConfig.Type2/TypeOf/wrapType"), ("layout of values in interfaces", "likePtrType, UnsafeIndirect"), ("growth", "UnsafeSliceType.UnsafeGrow, calcNewCap"), ("fields", "UnsafeStructField, pathOf")],
 PURE, PURE_NOTE)
prop("C22", "Checked operations of reflect2 reject arguments of other types and bad indexes",
 "An operation of reflect2 that takes interface{} arguments, called with an argument that is not exactly the pointer type it works on (another named type, a value instead of a pointer, a pointer to a pointer, another element or key type, nil), or with an index out of range of the slice or array (negative or not below the length, also if below the capacity), a negative length, or a length above the capacity, panics before it read or changed anything through it: memory safety never depends on the caller passing the right type.",
 ["inputs"], "for all checked operations of all types of a catalogue, each argument replaced by values of about 560 other types (some of the same name) and nil, and all indexes around the bounds",
 "Tests never pass a wrong argument.",
 ["reflect2/unsafe_type.go", "reflect2/unsafe_slice.go", "reflect2/unsafe_array.go", "reflect2/unsafe_map.go", "reflect2/unsafe_field.go", "reflect2/unsafe_struct.go"],
 [("check of types", "assertType"), ("check of indexes", "assertIndex")],
 PURE, PURE_NOTE)
prop("C23", "Closing resources closes each once and loses no error",
 "Close and CloseAll close every resource given exactly once, in order, whatever the others return; Close returns the resource's error, CloseAll and MergeErrors every error in order, and nil exactly if there is none. Each failure is logged once, as an error with the given properties followed by its own error; a CloseAll with properties and without failures is logged once, for debugging. Nothing of the caller, its property list and the memory behind it included, is changed, also when several goroutines close with the same properties.",
 ["inputs", "histories", "schedules"], "for all sequences of results of up to 4 (6) resources, all lists of properties of a catalogue, levels, and all interleavings of two goroutines with the same properties",
 "Tests close one resource without an error.",
 ["closer.go"],
 [("closing and merging", "Close/CloseAll/MergeErrors"), ("properties of the event", "Close/CloseAll")],
 PURE, PURE_NOTE)
