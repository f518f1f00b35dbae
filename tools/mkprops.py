#!/usr/bin/env python3
"""writes /verif/properties.jsonl (the single place where the property texts live)"""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, **kw):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    a.update(kw)
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a))


p("C01", "Executor: stop-and-wait returns only when every task has ended",
  "Stopping an executor and waiting returns only after every task handed to that executor before the wait began has ended, or because the context of the waiter itself ended; it does return once one of the two is the case. Stopping (with or without waiting) cancels the context every task of the executor was given, including tasks handed over later, and nothing but a stop cancels it. Tasks started from the same source line, tasks that panic, exit or start further tasks are all accounted for.",
  ["schedules", "histories"], "every interleaving of hand-overs (also concurrent ones and ones made by running tasks), task ends (return, panic, stop signal, Goexit), stops, any number of waiters and ends of their contexts",
  "No test of the executor exists; a test would sample one schedule, and the failure needs a particular order of hand-over, end and check.",
  ["concurrent/unbounded_executor.go"], [("per call site counter under a mutex", "UnboundedExecutor.Go, checkGoroutines"), ("polling wait", "StopAndWait")],
  observe_at=["return of StopAndWait / StopAndWaitForever", "Done of the task context"])

p("C02", "Executor: each task runs exactly once and its panic stays inside",
  "Every function handed to an executor runs exactly once, in a goroutine of its own, and handing it over does not wait for it to run or for any other task to end. A panic in a task never ends the process or disturbs another task or the executor: it is passed to the panic hook exactly once with the value that was panicked with, except for the stop signal, which is not reported, and nothing is reported for a task that did not panic; when a wait for the executor returns because all tasks ended, their panics have been reported.",
  ["schedules", "histories", "inputs"], "every interleaving as for C01, and every panic value (errors, strings, numbers, pointers, uncomparable values)",
  "No test of the executor exists; a lost or duplicated run, or a report that is missed for one kind of value, shows only under particular histories.",
  ["concurrent/unbounded_executor.go", "countlog/countlog.go"], [("recover in the deferred function of the task goroutine", "UnboundedExecutor.Go"), ("LogPanic hook", "concurrent.LogPanic")])

p("C03", "Blocking async writer: every write reaches the sink once, in order, intact",
  "With a blocking queue, every Write returns the full length and no error, and the bytes it was given (as they were when it was called, whatever the caller does to the buffer afterwards) are written to the sink in exactly one sink write; messages reach the sink one at a time, in an order consistent with the order in which the Writes took place; none is ever dropped. Write waits while the queue is full and goes on when there is room again, also after sink errors. Close returns only after all messages written before it was called were handed to the sink (as long as the sink takes them within the grace period of one second), then closes the sink exactly once if it can be closed, and returns that error.",
  ["schedules", "histories", "inputs"], "every interleaving of writers, the draining goroutine, slow or failing sinks and Close; every queue length",
  "The tests only push messages through and look at a file; ordering, buffer reuse, back pressure and the drain at Close depend on the schedule.",
  ["countlog/output/async/async.go"], [("copy of the buffer into a channel", "blockingQueueWriter.Write"), ("drain loop and stop", "asyncWrite, Close")])

p("C04", "Non-blocking async writer: never waits, every message delivered or reported",
  "With a non-blocking queue, Write never waits for the sink and always returns the full length and no error. Each message is either written to the sink exactly once, intact (whatever the caller does to the buffer after Write returned) and in order, or handed to the drop callback exactly once, with its bytes, before its Write returns; a message is dropped only if as many messages as the queue is long are waiting at that time; without a callback the first drop and every thousandth after it is reported on the library's error log instead. Drops and sink errors do not affect other messages, and Close behaves as with a blocking queue.",
  ["schedules", "histories", "inputs"], "every interleaving of writers, draining, stalls and errors of the sink, and Close; every queue length",
  "No test counts drops against deliveries; which messages are dropped depends on the schedule.",
  ["countlog/output/async/async.go"], [("select with default on the queue", "nonBlockingQueueWriter.Write"), ("OnMessageDropped", "AsyncWriterConfig")])

p("C05", "Rolling log file: no accepted write is lost, split, reordered or overwritten",
  "At every moment the backups in the order they were rotated, followed by the current file, contain exactly the bytes of the writes accepted so far, in order, each write whole inside one file (as long as no retention limit is configured); this holds across closing and reopening, explicit rotation, restarts after a crash between the steps of a rotation, and rotations that fall into the same unit of the timestamp. A write larger than the maximum size is refused with an error and changes nothing; a rotation happens exactly when a write would make the file larger than the maximum size (or, on opening, not smaller than it), so no file made by the logger is larger than the maximum.",
  ["histories", "inputs", "crash_points", "configurations"], "every sequence of writes of any size, rotations, closes, reopenings, clock steps and crash states, for every maximum size and timestamp format",
  "The tests each run one short script with a fixed clock; two rotations in the same time unit, equality at the size limit and restarts in intermediate states are not reached.",
  ["countlog/output/lumberjack/lumberjack.go"], [("size accounting and rotate", "Write, openExistingOrNew, rotate"), ("backup name that is not in use", "backupName, lastIndex")])

p("C06", "Rolling log file: retention keeps exactly the newest backups, intact",
  "After a rotation (or an opening) with limits configured, the backups that remain are exactly those among the newest MaxBackups and not older than MaxAge days by the time in their names (limits of 0 meaning no limit; a backup and its compressed form count as one), and nothing else in the directory (the current file, files of other names, directories) is removed or changed. With compression on, every remaining backup ends up as a gzip file with exactly its content, also when a previous compression was interrupted at any point, and the uncompressed file is removed only after that.",
  ["histories", "inputs", "crash_points", "configurations"], "every directory content (backups of any age, compressed or not, interrupted compressions, foreign files), every limit, UTC or local time",
  "The tests use a handful of directories; combinations of limits, compression, time zones and left-overs of crashes are not reached.",
  ["countlog/output/lumberjack/lumberjack.go"], [("selection of files to remove and compress", "millRunOnce, oldLogFiles, timeFromName"), ("compress then remove", "compressLogFile")])

p("C07", "Goroutine local storage is private, inherited as a snapshot and cleaned up",
  "A value set in a goroutine is what Get returns in that goroutine (the very value, not a copy) until it is set again, and no other goroutine ever sees it, whatever other goroutines do at the same time. A function wrapped to inherit starts with a copy of what the wrapping goroutine had at the time of wrapping (copiable values being copied), one wrapped to start empty starts with nothing; when it ends, by returning or panicking, the storage is gone. Without storage Get returns nil and Set panics; the goroutine id is the runtime's and no two live goroutines share it.",
  ["schedules", "histories"], "every interleaving and nesting of wrapped and plain goroutines, sets, gets and ends, over all shards",
  "The tests use two goroutines; leaks between goroutines that fall in the same shard and snapshots taken at the wrong time need more.",
  ["gls/gls.go", "gls/goid.go"], [("sharded maps with locks", "GetGls, ResetGls, DeleteGls"), ("snapshot and cleanup", "WithGls, WithEmptyGls"), ("goid field of runtime.g", "GoID")])

p("C08", "countlog: an event is logged exactly when its level says so, errors always",
  "A log call hands its event, with the given properties and the level of the called function, to the event writer exactly once if the level is at least the configured minimum, and otherwise has no effect; Warn, Error and Fatal are always logged. A Call function with an error is always logged at warning level (access logs at error level) with that error, and returns an error whose text is the formatted event, a colon and a space and the text of the error; without an error it returns nil and is logged individually only if its level also reaches the minimum for calls (half a level above the minimum). The same holds for the functions of a log context, which also passes its own properties along.",
  ["histories", "inputs", "configurations"], "every function, level configuration (also changed between calls), event text, error and property list",
  "The tests call a few functions at the default level and mostly look at nothing.",
  ["countlog/countlog.go", "countlog/context.go", "countlog/root.go", "countlog/spi/spi.go"], [("level comparison at the entry", "Trace .. Fatal, Log, *Call"), ("call filtering", "statsAndOutput.Handle"), ("error decoration", "log")])

p("C09", "countlog: logging never breaks the caller, and no event is rendered as another",
  "Whatever was logged before or is logged at the same time, under the same event name or others, with other property names, types or counts, each event that is output is rendered from its own event text, level, error and properties. A log call never panics, blocks or ends the process because of its event text, its properties (missing, odd, nil, not matching the text) or because a formatter, a property's own methods, the writer or the collector fails or panics: the problem is reported to the logger's own log and later events are still logged.",
  ["histories", "schedules", "inputs", "fault_sequences"], "every sequence and interleaving of log calls sharing event names with different shapes, every failing sink or value",
  "One test logs the same event with two shapes and looks at nothing; formatters are cached per event, so the result depends on the whole history.",
  ["countlog/countlog.go", "countlog/root.go", "msgfmt/msgfmt.go", "countlog/output/writer.go"], [("handler cache with shape check", "getHandler, addSiteHandler"), ("recover around handlers", "oneHandler.Handle, statsAndOutput.Handle")])

p("C10", "Counters: every counted event is exported exactly once",
  "With a collector configured, for each counted event and each combination of the values of its dimensions, the values exported so far plus what the next export will deliver equal the number of events counted, at every moment and whatever the goroutines counting and exporting do at the same time; events with different dimension values are never merged, and each point carries the event name and the dimension names and values in property order. Counts are exported once per second until the context of the exporter ends.",
  ["schedules", "histories", "inputs"], "every interleaving of counting goroutines and exports, every number of dimensions and dimension values",
  "There is no test of the statistics; a count lost or doubled between an export and a concurrent increment needs a particular schedule.",
  ["countlog/stats/window.go", "countlog/stats/counter.go", "countlog/stats/state.go", "countlog/stats/stats.go"], [("sharded window with locks", "Window.Mutate, exportShard"), ("dimension as map key", "extractDimension, copyDimension")])

p("C11", "Message formatting is a function of the template and the arguments",
  "Formatting returns the literal text of the template verbatim with every {key} replaced by the rendering of the argument of that name: strings as they are, byte slices with non-printable bytes, backslash and the field separator escaped, times by the given layout, values that can print themselves by doing so and everything else as JSON. The result depends on nothing else: not on what was formatted before with the same template, nor on what is formatted at the same time. A template that cannot be satisfied (unknown key, unclosed brace) gives a text that says so and shows the arguments, never a panic.",
  ["inputs", "histories", "schedules"], "every template, argument list and history of previous calls with the same template, from any number of goroutines",
  "The tests format a handful of templates, each once; compiled templates are cached, so the history matters.",
  ["msgfmt/msgfmt.go", "msgfmt/parse.go", "msgfmt/formatter.go", "msgfmt/formatter_bytes.go", "msgfmt/formatter_stringer.go"], [("template parser", "msgfmt/parse.go"), ("formatter cache with shape check", "FormatterOf"), ("formatter selection by type", "formatter.go")])

p("C12", "JSON formatting is valid and decodes to the value",
  "The JSON written for a value built from booleans, integers of all sizes, floats, strings, bytes, errors, values that marshal themselves, pointers, slices, arrays, structs, interfaces and maps with string, boolean or integer keys is valid JSON and denotes exactly that value: integers exactly, floats exactly or rounded at the sixth decimal, strings with every character intact, field names as tagged, elements in order, nothing added or missing. It depends only on the value, not on which types were written before, and self-referential types are handled. What marshals itself is put as it says, or as the text of its error. A configuration (unexported fields included, extensions with encoders of their own for some types) holds for everything in the value.",
  ["inputs", "programs"], "every value of every such type, nested to any depth",
  "The tests compare a few values per type; escaping at particular positions, digit boundaries and nested combinations are not reached.",
  ["msgfmt/jsonfmt/encoder.go", "msgfmt/jsonfmt/encoder_int.go", "msgfmt/jsonfmt/encoder_float.go", "msgfmt/jsonfmt/encoder_str.go", "msgfmt/jsonfmt/encoder_bytes.go", "msgfmt/jsonfmt/encoder_map.go", "msgfmt/jsonfmt/encoder_stuct.go", "msgfmt/jsonfmt/encoder_slice.go", "msgfmt/jsonfmt/encoder_array.go", "msgfmt/jsonfmt/encoder_pointer.go", "msgfmt/jsonfmt/encoder_dynamic.go"], [("encoder per type", "EncoderOf"), ("digit tables", "encoder_int.go"), ("escaping", "encoder_str.go, encoder_bytes.go")])

p("C13", "Source: what is read does not depend on how the input arrives",
  "Every sequence of peeks, consumes, reads and skips on a source gives the same results and leaves the same rest, whether the input is a string or a reader that delivers it in chunks of any sizes (also together with the end of file). Nothing is skipped or seen twice, and the end of the input is reported exactly when everything was consumed. The first failure stays reported and is not hidden by the end. Integers are read as their exact value or an overflow is reported, and readers of runs of bytes or characters stop exactly at the first one that does not belong.",
  ["inputs", "histories", "configurations"], "every input, chunking and sequence of operations",
  "The tests read short strings with a few fixed buffer sizes; values cut by a chunk boundary at every position are not reached.",
  ["parse/parse.go", "parse/utf8.go", "parse/read", "parse/skip"], [("peek/consume over chunks", "Source.PeekN, ConsumeN, Consume"), ("errors and the end", "Source.ReportError, Consume1"), ("number readers", "parse/read")])

p("C14", "Operator precedence parser builds the one tree precedence demands",
  "Parsing a sequence of operands and operators with declared precedences groups them as precedence and left associativity demand, consumes exactly the tokens of the expression, and stops at the first token that cannot continue it; prefix operators and nested parsing with a given precedence follow the same rule. Input that is not an expression is reported as an error and never panics or loops.",
  ["inputs", "programs"], "every token sequence and precedence assignment",
  "The tests parse three or four expressions.",
  ["parse/parse.go", "parse/example"], [("precedence climbing loop", "parse.Parse")])

p("C15", "reflect2: unsafe and safe access agree with the Go language",
  "For every operation on pointers, structs, slices, arrays, maps and interfaces, with arguments of the declared types and indices within range, the fast implementation (with interface values and with unsafe pointers) and the safe one give the same results, read at once, and leave the same memory as the corresponding Go expression: what is set is what is read back, by value, by field (embedded ones included) or through pointers, appending and growing keep the elements and never write outside the slice, only nil values are said to be nil, iterating over a map nobody changes meanwhile visits each entry exactly once, and unrelated fields, elements, entries and variables stay as they were. The fast implementation refuses arguments of another type before it touches any memory. What is said about a type is what Go says.",
  ["inputs", "histories", "programs"], "every sequence of operations on values of every kind and element type (direct and indirect interface representation included)",
  "The tests perform single operations on single values per type.",
  ["reflect2/reflect2.go", "reflect2/unsafe_map.go", "reflect2/unsafe_slice.go", "reflect2/unsafe_struct.go", "reflect2/unsafe_field.go", "reflect2/unsafe_array.go", "reflect2/unsafe_type.go", "reflect2/safe_map.go", "reflect2/safe_slice.go", "reflect2/safe_struct.go", "reflect2/safe_field.go", "reflect2/safe_type.go"], [("pointer arithmetic on type information", "unsafe_*.go"), ("reflect based counterpart", "safe_*.go")])

p("C16", "Closing: every resource is closed once and every error comes back",
  "Closing a list of resources closes each of them exactly once, in order, also when earlier ones fail, and returns an error exactly if at least one of them failed, which contains all the errors in order; each failure is logged with its own error and the given properties, and the caller's properties are left as they were. Merging errors returns nil exactly if all are nil and otherwise keeps all that are not, in order.",
  ["inputs", "histories"], "every list of resources and pattern of failures, every property list",
  "No test exists.",
  ["closer.go"], [("loop over resources", "CloseAll"), ("MultiError", "MergeErrors")])

p("C17", "Every event is one whole write, also under concurrency",
  "Each event output by the event writer, and each formatted print, reaches its writer in exactly one Write call holding exactly the bytes of that event, however many goroutines log at the same time; the bytes stay unchanged until that Write returns. An error or panic of one write affects no other event.",
  ["schedules", "histories", "fault_sequences"], "every interleaving of logging goroutines, slow, failing and panicking writers",
  "The tests write from one goroutine; buffers are pooled, so corruption needs two.",
  ["countlog/output/writer.go", "msgfmt/msgfmt.go"], [("pooled buffers", "writeEvent.Handle, recylceWriter.Write, fprintf")])

p("C18", "Log lines carry exactly the event: json, compact, human readable, printf",
  "A line in each output format contains, in the documented order and nothing else, the level, time, location, the formatted message, the error and every property with its name and its value: the JSON format is one valid JSON object per line with the event, the properties in order, the timestamp and the location; the compact format, the human readable format and a printf layout render each field as the message formatter does. Lines are self-contained: rendering one appends to the given buffer and changes nothing before it.",
  ["inputs", "configurations"], "every event text, property list, error, level, context and layout",
  "The existing tests of two of the formats fail, the others render one event.",
  ["countlog/output/json/json.go", "countlog/output/compact/compact.go", "countlog/output/hrf/hrf.go", "countlog/output/printf/printf.go"], [("formatter pipelines", "FormatterOf of each format")])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
