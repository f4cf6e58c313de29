#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
        "mechanism": [{"name": n, "where": w} for n, w in mech],
        "observe_at": list(observe), "hook_needed": hook}})

prop("C01", "Goroutines working on their own values never affect each other",
 "When several goroutines each parse, build, change, import, compare, iterate and marshal only values of their own (sharing at most read-only inputs such as source text, imported Go data and option values), every call returns what it returns when that goroutine runs alone. There is no data race, panic or deadlock between them, whichever way their steps interleave and whatever ran in the process before.",
 ["schedules", "histories"], "every interleaving of every set of client programs over disjoint values, from a cold or warm process",
 "The test suite runs every call from one goroutine; hidden shared state (a package variable, pool, cache or scratch buffer) only shows when two calls overlap at a particular step.",
 ["jsonvalue_internal.go", "option.go", "unmarshal.go", "marshal.go", "import_export.go", "internal/buffer/buffer_impl.go", "jsonvalue.go"],
 [("per-call pool, buffer and option copies; atomics for the parse-size predictor", "jsonvalue_internal.go: newPool/release; marshal.go: Marshal; option.go: getDefaultOptions")],
 [("internal", "the only package-level mutable state: size predictor, default options, type constants", "jsonvalue_internal.go")],
 ["return values of every public call", "race detector", "goroutine termination"])

prop("C02", "Concurrent readers of one value are safe and leave it unchanged",
 "Any number of goroutines may use the read operations of one value at the same time without a write lock (type tests, conversions, Get and MustGet families, Len, Range/ForRange/Iter, Marshal with any options, String, Export, Equal and comparisons, copying by Import; only Caseless is excluded): each gets exactly what it would get alone. The value's content, member order and identity of members are the same afterwards, and no data race occurs.",
 ["schedules", "inputs"], "every interleaving of concurrent read operations over every document",
 "Tests read from one goroutine and never look for writes performed by a read (lazy indexes, cached encodings, sorting in place).",
 ["get.go", "jsonvalue.go", "iteration.go", "marshal.go", "sort.go", "compare.go", "import_export.go", "beta/contain.go"],
 [("read paths do not write the value; the caseless index is only built by Caseless operations", "get.go: getFromObjectChildren")],
 [("children.lowerCaseKeys", "lazily built index, the one thing a lookup may write", "jsonvalue.go")],
 ["return values", "race detector", "marshal output before and after"])

prop("C03", "Default marshal options act as one atomic goroutine-safe setting",
 "SetDefaultMarshalOptions and ResetDefaultMarshalOptions may be called while other goroutines marshal or import: every Marshal behaves as under exactly one complete default set that was current at some moment during that call, with its own options layered on top. Options given to one call never leak into the default or into any other call, and a setting replaces the previous default as a whole.",
 ["schedules", "histories"], "every interleaving of option setters, resetters and marshaling calls with every option combination",
 "Tests change the default from one goroutine and restore it; a torn, merged or leaked option set needs an overlap or a particular call history.",
 ["option.go", "jsonvalue_internal.go", "marshal.go"],
 [("default options published as a complete new value and copied per call", "option.go: SetDefaultMarshalOptions, getDefaultOptions, combineOptions")],
 [("internal.defaultMarshalOption", "current default option set", "jsonvalue_internal.go")],
 ["bytes returned by Marshal/MarshalString/MarshalJSON", "race detector"])

prop("C04", "Parsing does not depend on what the process parsed before",
 "Unmarshal, UnmarshalString and UnmarshalNoCopy of the same text give the same value (or an error) and never panic, whatever number, size and density of texts was parsed earlier or concurrently, successfully or not, in the life of the process, including a cumulative volume beyond two gigabytes. Values parsed earlier are never altered by later parsing.",
 ["histories", "schedules"], "every history of parses (sizes, densities, failures, totals) and every interleaving of their bookkeeping",
 "Parsing sizes its value pool from process-wide statistics; tests parse a few hundred small texts, so never reach overflow switches, extreme ratios or lost updates.",
 ["jsonvalue_internal.go", "unmarshal.go", "jsonvalue.go"],
 [("pool falls back to single allocations when the prediction is short", "jsonvalue_internal.go: poolImpl.get")],
 [("internal.predict", "running bytes-per-value statistics", "jsonvalue_internal.go")],
 ["parsed values", "panics"])

prop("C05", "Caller-owned buffers and slices are never modified, retained or shared",
 "The library never modifies a byte slice, string, slice, map or path argument it is given, nor a value parsed or built from one when the caller later overwrites it (except the slice handed to UnmarshalNoCopy). Every byte slice, string, slice and map it returns belongs to the caller: it shares no memory with earlier or later results or with the value, and stays as it was through later calls, overwriting and garbage collection.",
 ["histories", "schedules", "fault_sequences"], "every sequence of calls with buffers reused, overwritten and collected between and during calls",
 "Tests do not scribble over inputs after parsing or over outputs after marshaling, nor keep results across later calls; the unsafe string/byte casts make aliasing silent.",
 ["jsonvalue.go", "unmarshal.go", "marshal.go", "internal/unsafe/unsafe.go", "internal/buffer/buffer_impl.go", "iteration.go", "marshaler_unmarshaler.go", "new.go"],
 [("copy of the input before in-place unescaping; a fresh buffer per marshal", "jsonvalue.go: Unmarshal, UnmarshalString; internal/buffer")],
 [("V.srcByte, V.valueStr", "views into the private copy of the text", "jsonvalue.go")],
 ["argument buffers", "returned buffers", "values after overwriting"])

prop("C06", "Values cross an encoding/json stream over a faulty link exactly once",
 "Used as json.Marshaler/json.Unmarshaler (directly or as struct, slice and map members) with encoding/json encoders and decoders over a transport that splits, delays, truncates, corrupts or breaks and reconnects, every acknowledged message is decoded once, in order and equal to what was sent. A decode that fails returns an error and leaves the receiving value as it was, and a decoded value stays valid when the decoder reuses its buffer.",
 ["fault_sequences", "schedules"], "every chunking, delay, cut, corruption and reconnect of the stream, every message sequence",
 "Tests decode single complete texts from memory; buffer reuse, partial reads and failures between messages never occur.",
 ["marshaler_unmarshaler.go", "jsonvalue.go", "marshal.go", "import_export.go"],
 [("UnmarshalJSON parses a private copy and assigns the receiver only on success", "marshaler_unmarshaler.go")],
 [], ["decoded values", "receiver after failed decode", "errors"])

prop("C07", "A stored snapshot restores losslessly or is refused after a crash",
 "A value (nested up to 10 000 levels) written as JSON or through MarshalBinary and read back completely restores to an equal value, with the same member order when marshaled in set order. If a crash truncated a stored object or array, or left extra bytes of an older snapshot after it, restoring returns an error and an inert non-nil NotExist value; and however stored bytes were corrupted, restoring and then using the result never panics or hangs.",
 ["crash_points", "fault_sequences", "inputs"], "every document, every crash point in its storage, every torn, lost or flipped byte",
 "Tests try a handful of malformed texts; they do not cut or damage a document at every place.",
 ["unmarshal.go", "marshaler_unmarshaler.go", "marshal.go", "jsonvalue.go"],
 [("bounds-checked single pass parser that needs the closing bracket and refuses trailing data", "unmarshal.go")],
 [], ["restored value", "errors", "panics"])

prop("C08", "A failed change or import reports an error and changes nothing",
 "When Set, Append, Insert, Delete (or their Must forms) or Import cannot be carried out, because of a bad path, position or type, an uninitialised child, or a marshaler that fails, returns bad data or panics part way, the caller gets an error (or its own panic) and a non-nil NotExist value. The document it was applied to, including members a half-built path would have needed, marshals exactly as before, and later operations work as if the failed one had not been made.",
 ["fault_sequences", "histories"], "every operation sequence with failures injected at every point of every operation",
 "Tests check that some errors are returned but rarely compare the whole document afterwards and never inject failures into callbacks midway.",
 ["set.go", "insert_append_delete.go", "import_export.go", "set_must.go", "insert_append_delete_must.go", "conv.go"],
 [("new sub-trees are attached only after the inner operation succeeded; import errors are carried to At/InTheEnd/Before/After", "set.go: atObject, atArray; insert_append_delete.go")],
 [], ["errors", "marshal output before and after"])

prop("C09", "Channel iterators deliver each member exactly once and never leak",
 "IterObjects and IterArray deliver every member of the value exactly once (arrays in index order) with the member's own key or index and value, then close the channel; on other or empty values the channel is closed without a delivery. This holds for any number of iterators and readers running at once and however slowly the consumer reads, and the producing goroutine always ends even if the consumer stops early.",
 ["schedules", "fault_sequences"], "every schedule of producers and consumers, every point of abandonment",
 "Tests drain one iterator at once; abandonment, slow consumers and several iterators under other schedules are not run, and a leaked goroutine is invisible to them.",
 ["iteration.go"],
 [("channel buffered for all members, closed by the producer", "iteration.go: IterObjects, IterArray")],
 [], ["received items", "channel close", "live goroutines"])

prop("C10", "A lock-guarded shared document behaves as one sequential JSON tree",
 "When goroutines share a document, taking a read lock for reads and a write lock for Set, Append, Insert, Delete, SortArray and Caseless calls as documented, every call's result and the final content are those of a plain JSON tree to which the calls were applied one at a time in lock order. This includes automatic creation of missing objects and arrays on the path, negative indexes counted from the end, slice-form paths, replacement, and the order in which members were set.",
 ["schedules", "histories"], "every interleaving of every client program over one shared document",
 "Tests use short fixed sequences from one goroutine; long mixed histories and concurrent readers between writes are not covered.",
 ["set.go", "get.go", "insert_append_delete.go", "iteration.go", "marshal.go", "sort.go", "jsonvalue.go"],
 [("tree of maps and slices updated in place", "set.go, insert_append_delete.go")],
 [("children.arr / children.object / incrID", "members and set sequence", "jsonvalue.go")],
 ["return values", "marshal output", "race detector"])

prop("C11", "Requested member order is honoured whatever the hash-map order",
 "Whatever order the runtime's maps yield, Marshal with a key order option (set sequence, key sequence, less function, default string sequence; the last one given wins) emits members in exactly that order at every depth, and RangeObjectsBySetSequence visits them in set order, where setting an existing key again moves it to the end. Every member appears exactly once (null members not at all under OmitNull), so repeated calls give identical bytes; without an order option only the order may vary.",
 ["histories", "configurations", "schedules"], "every history of sets and deletes, every option combination, every map iteration order",
 "Go randomises map order per run, so tests see a few orders of small objects and cannot choose the adverse one.",
 ["sort.go", "marshal.go", "iteration.go", "option.go", "set.go"],
 [("set sequence numbers per key; sorting of keys before writing", "set.go: setToObjectChildren; sort.go")],
 [("childWithProperty.id", "set sequence number", "jsonvalue.go")],
 ["marshal bytes", "callback sequence"])

prop("C12", "Case-insensitive access agrees with the current keys after any history",
 "After any sequence of parsing, Set, Delete, Append, copying and Caseless calls on any level, a Caseless Get returns the member with exactly the given key if there is one, otherwise some member whose key differs only by case if there is one, otherwise a not-found error; Caseless Delete removes exactly that one member. Case-sensitive operations stay exact before and after, and the outcome does not depend on hash-map order beyond the choice among equal candidates.",
 ["histories", "schedules"], "every history of changes and lookups mixing letter cases, every map iteration order",
 "The case-insensitive index is built on first use and patched by every later change; tests cover a few orders of first use and change.",
 ["get.go", "jsonvalue.go", "insert_append_delete.go", "set.go"],
 [("index of lower-cased keys kept in step by Set and Delete", "jsonvalue.go: addCaselessKey, delCaselessKey; get.go: initCaselessStorage")],
 [("children.lowerCaseKeys", "lower-cased key index", "jsonvalue.go")],
 ["Caseless results", "marshal output"])

prop("C13", "Copies of a value are independent of the original",
 "A value copied by Import or New (alone or as a member of a Go struct, slice or map), or by marshaling and parsing, equals the original at that moment, keeps its member order, and from then on shares nothing with it: any later change, Caseless use or buffer reuse on one, even concurrently from another goroutine, is never visible through the other (the slice handed to UnmarshalNoCopy excepted).",
 ["histories", "schedules"], "every document and history before the copy and every interleaving of changes after it",
 "Tests compare a fresh copy once; sharing of nested members, sequence numbers or indexes shows only after later changes, and a data race only under concurrency.",
 ["jsonvalue.go", "import_export.go", "new.go", "marshaler_unmarshaler.go"],
 [("recursive deep copy", "jsonvalue.go: deepCopy; import_export.go: parseJSONValueDeepCopier")],
 [], ["marshal output of both sides", "race detector"])

prop("C14", "Marshal yields one complete valid document or an error, never half",
 "Every form of Marshal, with any options and indent, either returns an error and no bytes, or returns one complete valid JSON text holding exactly the value's members; an unsupported float or uninitialised member at any depth is either converted as the options say or makes the whole call fail. A failed or panicking Marshal has no effect on later calls.",
 ["fault_sequences", "configurations", "histories"], "every document with failing members placed anywhere, every option combination, every history of failed calls",
 "Tests place an unsupported float at the root or alone and never check the bytes returned when a nested member fails.",
 ["marshal.go", "sort.go", "option.go", "conv.go", "jsonvalue.go"],
 [("errors propagated from members; per-call buffer and options", "marshal.go: marshalToBuffer")],
 [], ["bytes and error returned", "later calls"])

prop("C15", "Callbacks may re-enter the library, stop early or panic harmlessly",
 "A callback given to Range, SortArray, a marshal less-function or a MarshalJSON/MarshalText method may call any library function on the same value (reading) or on other values, return early, or panic at any invocation: calls inside it return what they return outside, iteration stops exactly where told, and panics reach the caller. Afterwards no lock, buffer, option or partial result is left behind: every value other than an array being sorted is as before (the array keeps exactly its members), and later calls are unaffected.",
 ["fault_sequences", "histories", "schedules"], "every callback invocation as a point of re-entry, early stop or panic",
 "Tests use callbacks that return normally and do not call back into the library.",
 ["iteration.go", "sort.go", "marshal.go", "import_export.go", "option.go"],
 [("no global state held across callbacks", "marshal.go, sort.go, iteration.go")],
 [], ["callback-internal results", "later results", "visited members"])

# ---- pure functions of their input: not decidable by simulation, not claimed ----
pure = "A pure function of one input: tests sample inputs."
prop("C16", "Every valid JSON text parses to the value it denotes",
 "Every RFC 8259 text parses without error to the value it denotes, with strings unescaped and numbers kept exactly as written.",
 ["inputs"], "every JSON text", pure, ["unmarshal.go"], [("single pass parser", "unmarshal.go")])
prop("C17", "Numbers keep their exact value across conversions",
 "Integers within 64 bits and floats read back exactly through the typed accessors of their type, and out of range text is refused.",
 ["inputs"], "every number", pure, ["unmarshal.go", "new.go", "jsonvalue.go"], [("number state machine", "unmarshal.go: parseNumber")])
prop("C18", "Equal and the ordering comparisons are consistent",
 "Equal is reflexive, symmetric and transitive over valid values and ignores member order and number notation; ordering agrees with decimal values.",
 ["inputs"], "every pair of values", pure, ["compare.go"], [("decimal comparison", "compare.go")])
prop("C19", "Import and Export agree with encoding/json",
 "Importing Go data gives the value that encoding/json would encode for it, tags included, and Export is its inverse.",
 ["inputs"], "every Go value", pure, ["import_export.go"], [("reflection walk", "import_export.go")])
prop("C20", "Escaping options choose the form, never the meaning, of strings",
 "Whatever combination of UTF-8, HTML and slash options is used, every string decodes back to itself.",
 ["inputs", "configurations"], "every string under every option set", pure, ["conv.go", "option.go"], [("per-character escape table", "option.go: parseEscapingFuncs")])
prop("C21", "Text that is not JSON is refused",
 "Text that is not valid JSON yields an error.",
 ["inputs"], "every byte string", pure, ["unmarshal.go"], [("parser", "unmarshal.go")])
prop("C22", "beta.Contains reports exactly the documented subset relation",
 "Contains is true exactly when the second value is a sub-object, contiguous sub-array or equal scalar of the first at the given path.",
 ["inputs"], "every pair of values", pure, ["beta/contain.go"], [("recursive comparison", "beta/contain.go")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
