#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (one place to edit)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe or []}})

p("P01", "A bounded string always holds exactly what its operations say, in its buffer",
  "For every sequence of mutating operations on a fixed-capacity string, the resulting content is exactly what the same sequence gives on an ordinary unbounded character sequence with each result cut at the capacity, the content is followed by a terminator inside the buffer, and nothing outside the buffer is read or written. Sources longer than the capacity are cut, never written past it; a source containing a terminator counts up to that terminator; a source that is part of the string itself is accepted.",
  ["inputs", "histories"], "all character contents, lengths, counts and prior contents, over every mutator and every pair of successive mutators, for capacities 0..4",
  "The unit tests try a few literal strings; truncation at the exact capacity, stale content behind a shorter new content, removal beyond the current length and aliasing sources need particular length relations.",
  ["include/Xsmp/String.h"], [("length clamp and terminator in assign/append/remove", "include/Xsmp/String.h")])

p("P02", "Bounded-string observers agree with the text they hold",
  "Every comparison, search, sub-string, element access and iteration on a fixed-capacity string gives the result that the same request gives on a plain view of its content (with unsigned byte ordering), and positions outside the content are reported by an exception exactly where range-checked access or a sub-string start is documented to throw. Two strings compare equal if and only if their contents are equal, whatever their capacities or stale bytes.",
  ["inputs"], "all pairs of contents up to 3 characters including bytes above 127, all search patterns up to 2 characters, all positions and counts",
  "Tests compare a handful of ASCII literals; sign of bytes, stale bytes after the terminator and boundary positions are never sampled.",
  ["include/Xsmp/String.h"], [("delegation to the content view; comparison operators", "include/Xsmp/String.h")])

p("P03", "An owning C string is an independent deep copy and is freed exactly once",
  "After any sequence of constructions, copies, moves, assignments (including self-assignment and assignment from its own text) and destructions of owning C strings, each one holds an independent copy of the text it was last given, moved-from objects can be assigned and destroyed, a failed allocation leaves the previous text in place, and every allocation is released exactly once with no access to released memory.",
  ["histories", "inputs"], "all sequences of up to 3 operations on up to 3 objects with all contents up to 3 characters",
  "Tests use fixed literals and never reuse moved-from objects, alias sources or check ownership.",
  ["include/Xsmp/cstring.h", "src/Xsmp/cstring.cpp"], [("deep copy in constructors and assignments, release in destructor", "src/Xsmp/cstring.cpp")])

p("P04", "A fixed array reads, writes, iterates and compares element by element in bounds",
  "For a fixed-size array, every element accessor and iterator denotes the element at its index, checked access throws exactly when the index is not smaller than the size, fill and swap affect exactly the elements of the arrays involved, and equality and ordering are the element-wise lexicographic ones. An array of size zero has no element and can be filled, swapped and compared.",
  ["inputs"], "all element values and all indices for sizes 0, 1, 3 and nested 2x2 arrays",
  "Tests (not part of the build here) use one array of constants; the last index, index = size and first-difference orderings are not covered.",
  ["include/Xsmp/Array.h"], [("bounds check in at(); lexicographical comparison", "include/Xsmp/Array.h")])

p("P05", "Guarded data admits many readers or one writer, never both, and never deadlocks",
  "For every interleaving of threads using the guarded container's read and write handles (including unlocking and locking a handle again, early release and moves), no thread reads or writes the data while another thread may write it, readers may coexist, every handle releases its hold exactly once, and no interleaving leaves a thread blocked forever.",
  ["schedules", "histories"], "all interleavings of 2-3 threads performing up to 3 handle operations each",
  "Tests contain no multi-threaded schedule; a missing or doubled unlock, or a wrong lock mode, shows only in particular interleavings.",
  ["src/Xsmp/ThreadSafeData.h"], [("shared/unique lock held by the handles", "src/Xsmp/ThreadSafeData.h")])

p("P06", "Integer comparison and range helpers give the mathematical answer",
  "For every pair of integer types and every pair of values, the comparison helpers give the result of comparing the mathematical values, and the range helper answers true exactly when the mathematical value is representable in the target type.",
  ["inputs"], "all values of all 8x8 pairs of (un)signed 8..64 bit integer types",
  "2^128 pairs per type combination; tests do not exercise the helpers directly.",
  ["src/Smp/utility.h"], [("sign-aware comparison", "src/Smp/utility.h")])

p("P07", "Library loading and package entry points call exactly the right symbols",
  "For every outcome of the dynamic loader, the loading helpers return the handle or symbol the loader gave for the requested name, report failure exactly when the loader fails, never ask the loader when no name is given, form the platform's file name from the whole requested name, and give the error text of the latest failing call only. The package entry points initialise the services for exactly the simulator and registry given and return the services' own answer; the services package adds each of its services once to each simulator it is initialised for.",
  ["fault_sequences", "inputs"], "all loader outcomes (library present/absent, symbol present/absent), all short library and symbol names, all sequences of up to 4 calls",
  "Tests would need libraries on disk for each failure combination; none does.",
  ["src/Xsmp/LibraryHelper.cpp", "src/Xsmp/LibraryHelper.h", "src/Xsmp/xsmp_services.pkg.cpp"], [("dlopen/dlsym wrappers", "src/Xsmp/LibraryHelper.cpp")])

p("P08", "Libraries are initialised once, finalised in reverse order, and rejected cleanly",
  "Loading a library into a simulator calls its Initialise function exactly once, with this simulator and its type registry, and only if the library has both entry functions. A library that cannot be found (or has no name), lacks an entry function or fails to initialise is refused with LibraryNotFound or InvalidLibrary, which carries the simulator as sender and the name of the library, and each refusal is logged as an error when there is a logger. When the simulator is destroyed, each loaded library is finalised exactly once, in the reverse order of loading, after a simulation in Standby was exited and while its models and services still exist; a refused library is never finalised, and one whose Initialise raises is not loaded.",
  ["histories", "fault_sequences", "inputs"], "all sequences of up to 4 loads with every loader outcome, nested loads, every simulator state, with and without a logger",
  "Tests would need libraries on disk for each failure combination; none does.",
  ["src/Xsmp/Simulator.cpp"], [("LoadLibrary and the destructor", "src/Xsmp/Simulator.cpp")])

p("P09", "Errors carry exactly the object, values and names they are about",
  "Every exception the library raises has as sender the object that refused the request, has the name of its kind, and returns from its getters exactly the objects, values, primitive kinds (expected and invalid not exchanged), states, sizes, indices and names of the refused request, kept as its own copies of the texts; its message names the objects' paths, the texts and the values concerned, and what() gives name, description and message.",
  ["inputs"], "every exception kind of the library raised directly with all values (64-bit, all pairs of kinds and states), and raised by the real objects for each refused request",
  "Tests only check that an exception of the kind is raised.",
  ["src/Xsmp/Exception.cpp", "include/Xsmp/Exception.h", "src/Xsmp/Container.cpp", "src/Xsmp/Publication/", "src/Xsmp/Field.cpp"], [("throw functions", "src/Xsmp/Exception.cpp")])

p("P10", "A variant value converts without loss or is rejected",
  "Storing a number in a variant under a requested kind, and reading it back as any numeric type, either preserves the mathematical value (for floating point: up to the documented machine-epsilon tolerance) or raises the invalid-kind exception; a rejected store or a rejected read of a non-text variant leaves its previous value unchanged. Booleans, characters and texts are only accepted under their own kind.",
  ["inputs"], "all values of every source type x all 16 kinds x all destination types",
  "Tests check sampled values per pair; off-by-one bounds at type limits and wrong switch cases for rare pairs are invisible to them.",
  ["src/Smp/AnySimple.cpp"], [("range-checked conversion", "src/Smp/AnySimple.cpp")])

p("P11", "A variant owns its text and equality means equal kind-compatible values",
  "After any sequence of sets, copies, moves, text extraction and destruction of variants, each variant holds its own independent copy of its text, no text is leaked, released twice or read after release, and moved-from variants are empty. Two variants with the same kind compare equal exactly when their values are equal (floating point within machine epsilon; texts by content).",
  ["histories", "inputs"], "all sequences of up to 3 operations on 2 variants with texts up to 2 characters and arbitrary scalars",
  "Tests never look at ownership after mixed text/scalar assignments.",
  ["src/Smp/AnySimple.cpp"], [("release before assignment; deep copy of text", "src/Smp/AnySimple.cpp")])

p("P12", "A UUID is what its text says, and parses back from its own text",
  "Parsing the 36-character text form yields the UUID with exactly those hexadecimal digits in order, every text that is not of that form is refused with an exception without reading outside it, and comparison is a strict total order consistent with equality.",
  ["inputs"], "all texts up to 40 characters, all pairs/triples of 128-bit values",
  "Tests sample a few literals; single wrong separators or digits in every position are not enumerable by sampling.",
  ["src/Smp/Uuid.cpp"], [("field-wise hexadecimal parsing", "src/Smp/Uuid.cpp")])

p("P13", "Object names are validated, and an object's path resolves back to that object",
  "A name is accepted exactly when it is a letter followed by letters, digits and underscores, or one array index (digits within square brackets), and an object can never be created with another name. The path of every object is its chain of names from the root with the documented separators, and resolving that path, absolute or relative, returns that very object while unknown segments, parents above the root and null inputs give null.",
  ["inputs", "configurations"], "all names up to 6 characters; all object trees up to depth 3 and all paths up to 3 segments including '.', '..', and unknown segments",
  "Tests check a few names and paths.",
  ["src/Xsmp/Helper.cpp", "src/Xsmp/Object.cpp"], [("name validation and path walk", "src/Xsmp/Helper.cpp")])

p("P14", "Collections keep order, answer by index and by name, and refuse duplicates",
  "A collection iterates and indexes its elements in insertion order, finds by name exactly the element bearing that name and nothing for unknown or null names, refuses a second element with the same name unless duplicates are allowed, and returns nothing for an index outside it; removal or clearing leaves the other elements and their order unchanged.",
  ["histories", "inputs"], "all sequences of up to 4 insertions/removals over names from a small alphabet, all 64-bit indices",
  "Tests add two elements.",
  ["include/Xsmp/Collection.h", "src/Xsmp/Collection.cpp"], [("ordered vector plus name lookup", "include/Xsmp/Collection.h")])

p("P15", "A container never exceeds its bounds and owns its components",
  "For every history of additions and deletions, a container holds between zero and its upper bound components (no bound when unlimited), never two with the same name nor one of the wrong type, a refused addition changes nothing, deletion works exactly for contained components when the lower bound allows it, and every contained component is destroyed exactly once.",
  ["histories", "configurations"], "all lower/upper bounds in -1..3 and all sequences of up to 4 operations",
  "Tests use one bound configuration.",
  ["include/Xsmp/Container.h", "src/Xsmp/Container.cpp"], [("AddComponent/DeleteComponent checks", "src/Xsmp/Container.cpp")])

p("P16", "A reference respects its bounds and never keeps a removed component",
  "For every history of additions and removals, a reference lists exactly the components added and not removed, in order, never more than its upper bound (no bound when unlimited), refuses components of the wrong type and removal of components it does not hold or below its lower bound, and a refused operation changes nothing.",
  ["histories", "configurations"], "all lower/upper bounds in -1..3 and all sequences of up to 4 operations",
  "Tests use one bound configuration.",
  ["include/Xsmp/Reference.h", "src/Xsmp/Reference.cpp"], [("AddComponent/RemoveComponent checks", "src/Xsmp/Reference.cpp")])

p("P17", "A component moves only along its documented lifecycle states",
  "For every sequence of lifecycle calls on a component, each call succeeds exactly from the states documented for it, moves to the documented next state and runs the matching user hook exactly once; any other call raises the invalid-state exception and leaves the state unchanged, and a refused publish, configure or connect runs no hook.",
  ["histories"], "all sequences of up to 4 lifecycle calls, with and without user hooks",
  "Tests walk the nominal sequence.",
  ["src/Xsmp/Component.cpp", "include/Xsmp/ComponentHelper.h"], [("state guard in Publish/Configure/Connect/Disconnect", "src/Xsmp/Component.cpp")])

p("P18", "An event reaches each subscribed sink exactly once with its argument",
  "For every history of subscriptions and unsubscriptions, emitting an event notifies every currently subscribed sink exactly once with the emitting sender and the emitted argument and notifies no other sink; double subscription, subscription of a sink with another argument type and unsubscription of an unknown sink are refused without effect; removing the links to a component drops exactly the subscriptions of its sinks; a sink may subscribe or unsubscribe sinks while it is notified.",
  ["histories", "inputs"], "all sequences of up to 4 operations on 2 sources and 3 sinks with symbolic arguments",
  "Tests subscribe one sink.",
  ["include/Xsmp/EventSource.h", "src/Xsmp/EventSource.cpp", "include/Xsmp/EventSink.h", "src/Xsmp/EventSink.cpp"], [("subscriber set", "src/Xsmp/EventSource.cpp")])

p("P19", "Fields hold the last value set, and a forced value wins until unforced",
  "A simple field returns the last value set through any of its interfaces, refuses values of an incompatible kind without changing, and while forced keeps the forced value whatever is set or computed, a freeze keeps the current value, and unforcing makes the next set value visible again.",
  ["histories", "inputs"], "all sequences of up to 4 set/force/freeze/unforce/arithmetics with symbolic values",
  "Tests check one nominal sequence.",
  ["include/Xsmp/Field.h", "src/Xsmp/Field.cpp"], [("forcible field logic", "include/Xsmp/Field.h")])

p("P20", "Connected fields deliver every pushed value, item by item, to each input",
  "Pushing an output field copies its current value to every connected input field (arrays and structures member by member, forced inputs keeping their forced value) and to no other field; connections are accepted exactly between equivalent types, once per pair; assigning or setting a typed output field pushes at once, and after the links to a component are removed no value flows to it while all other links stay.",
  ["histories", "inputs"], "all connect/set/push/remove sequences of up to 4 steps over simple, array and structure fields with symbolic values",
  "Tests connect one pair with constants.",
  ["include/Xsmp/Field.h", "src/Xsmp/Field.cpp"], [("Connect/Push", "src/Xsmp/Field.cpp")])

p("P21", "Array field bulk access checks size and index and moves each element",
  "Reading or writing an array field by element or as a whole transfers each element to and from its own index, refuses a wrong length, an index out of range or a wrongly-kinded element (or an unknown literal of an enumeration), and never reads or writes outside the array or the field; items and members of published arrays and structures carry their index or name, have the field as parent, and are found by their path.",
  ["inputs"], "all indices and lengths (64 bit), all element values and kinds, for arrays of size 1..3",
  "Tests use one array and a few constants.",
  ["include/Xsmp/Field.h", "src/Xsmp/Field.cpp", "src/Xsmp/Publication/Field.cpp"], [("index and length checks", "include/Xsmp/Field.h")])

p("P22", "Restoring what was stored gives back the same state",
  "For every supported type and value, restoring from the data that storing produced yields an equal value (containers with the same elements in the same order), consumes exactly the bytes that were stored, and leaves no element of the previous content behind.",
  ["inputs"], "all values of primitive and structured elements, containers of 0..2 elements, arbitrary prior content of the target",
  "Tests round-trip a few constants into fresh objects.",
  ["include/Xsmp/Persist.h", "include/Xsmp/Persist/"], [("per-type store/restore helpers", "include/Xsmp/Persist/")])

p("P23", "The type registry keeps one type per UUID and describes it faithfully",
  "A UUID is registered at most once (a second registration is refused and changes nothing), a look-up by UUID or primitive kind returns exactly the type registered for it or nothing, each registered type reports the attributes given at registration, and integer, float and enumeration types accept only the primitive kinds and literals documented.",
  ["histories", "inputs"], "all pairs of registrations with arbitrary UUIDs, kinds, ranges and literals",
  "Tests register a fixed set of types.",
  ["src/Xsmp/Publication/TypeRegistry.cpp", "src/Xsmp/Publication/Type.cpp"], [("registration map", "src/Xsmp/Publication/TypeRegistry.cpp")])

p("P24", "A request accepts exactly the values its parameter types allow",
  "A parameter or return value is stored exactly when its kind is the parameter's kind and its value lies in the parameter type's range, text length or literal set; otherwise the documented exception is raised and the previous value stays. Index and name look-ups agree, and any index outside the parameters is refused.",
  ["inputs"], "all 32-bit indices, all kinds, all values against arbitrary integer/float ranges, text lengths and literals",
  "Tests sample one in-range and one out-of-range value.",
  ["src/Xsmp/Publication/Request.cpp", "src/Xsmp/Publication/Type.cpp", "src/Xsmp/Request.cpp"], [("isValid", "src/Xsmp/Publication/Request.cpp")])

p("P25", "The simulator follows its state machine for every command sequence",
  "For every sequence of simulator commands, each command is effective exactly in the states documented for it, leads to the documented next state, emits the matching leave and enter events exactly once and in order, and is otherwise ignored or refused without changing state. Initialisation entry points run once in order of addition, each command makes exactly the missing transitions of the components of the tree (a parent's before its children's), Abort is final even from an event handler, a hold asked for at the end of the time step happens there, Store and Restore carry every object of the tree, and the first service of each standard kind is the standard service.",
  ["histories"], "all sequences of up to 3 (quick) or 4 (thorough) commands from construction, from Standby and from Executing, any command from a handler of any event, trees of up to 7 components in any state",
  "Tests walk one nominal sequence.",
  ["src/Xsmp/Simulator.cpp"], [("state checks and event emission", "src/Xsmp/Simulator.cpp")])

p("P26", "The scheduler runs every event at its time, in order, the right number of times",
  "For every set of scheduled simulation, mission, epoch, zulu and immediate events, a run up to a time runs each due event exactly at its own simulation time, in time order and in posting order for equal times (immediate events first), cyclic events exactly their count of repetitions spaced by their cycle (unlimited when negative), and nothing that is not due; mission and epoch events whose own time has meanwhile passed are skipped; this also holds for events posted by running events, by handlers of the time change events or by other threads. Nothing runs after the simulation is held or aborted, and a later run carries on where it stopped. Zulu events run in zulu time order, not before their time, and never together with another event. The simulation time never goes backwards nor ahead of the wall clock times the target speed, and a run that waits for the wall clock ends when it is held. Concurrent use is free of data races and dead-lock.",
  ["histories", "schedules", "inputs"], "all sets of up to 3 events with small symbolic times, cycles and repetition counts, over one or two runs; the same with one event posted, one hold or one abort at any point; 2 threads with one preemption",
  "Tests schedule two or three events at constant times.",
  ["src/Xsmp/Services/XsmpScheduler.cpp"], [("time-ordered event tables", "src/Xsmp/Services/XsmpScheduler.cpp")])

p("P27", "Rescheduling or removing an event affects that event and no other",
  "For every history of adding, retiming, changing cycle or repetition and removing events, in Standby or from a running event, an event still scheduled runs at its latest requested times, a removed event never runs again, all other events are unaffected, operations on unknown or finished events or of another time kind are refused, and invalid times or cycles are refused without effect (retiming to the past removes the event). Restoring a stored scheduler gives back exactly the events it held.",
  ["histories", "inputs"], "all sequences of 2 (quick) or 3 management calls over 2 events of every time kind with small symbolic times, then a run; up to 2 calls from inside a run; single calls with arbitrary 64-bit values; one store and restore with a run or call between",
  "Tests call each management function once.",
  ["src/Xsmp/Services/XsmpScheduler.cpp"], [("event tables and id map", "src/Xsmp/Services/XsmpScheduler.cpp")])

p("P28", "Epoch and mission time stay tied to simulation time",
  "For every history of time settings, epoch time minus simulation time changes only by setting the epoch time, mission time is epoch time minus the mission start, which only setting the mission start or the mission time changes; a newly set epoch time, mission time or mission start is what is read back; each change is announced once by the matching global event, when it has taken effect. Simulation time can be set only between PreSimTimeChange and PostSimTimeChange, never backwards nor beyond the next scheduled event, follows the events of a run, and cannot be set after it. Zulu time is the time of the system clock. The times survive storing and restoring. Concurrent readers and writers see only times that were set, without data races or dead-lock.",
  ["histories", "schedules", "inputs"], "all sequences of 4 (quick) or 5 calls with arbitrary 62-bit times; runs over two events; 2 threads with up to 2 preemptions",
  "Tests use a few constants.",
  ["src/Xsmp/Services/XsmpTimeKeeper.cpp"], [("offset bookkeeping", "src/Xsmp/Services/XsmpTimeKeeper.cpp")])

p("P29", "Global events: stable ids, one delivery per subscriber, safe under threads",
  "Each event name has one identifier, the same for every query, with the predefined names and identifiers matching; emitting an event runs each entry point subscribed to it exactly once, in the order of subscription, and no other, also when entry points subscribe or unsubscribe during the emission; an entry point that fails does not keep the others from running and aborts the simulation; double subscription, unknown subscription and unknown identifiers are refused; user-defined names and subscriptions are restored from a stored state; concurrent use is free of data races and deadlock.",
  ["histories", "schedules", "inputs"], "all sequences of up to 4 calls over 2 events and 3 entry points, re-entrant calls, all interleavings of 2 threads with 2 calls each",
  "Tests are single-threaded with one or two subscribers.",
  ["src/Xsmp/Services/XsmpEventManager.cpp"], [("name/id maps and subscriber sets", "src/Xsmp/Services/XsmpEventManager.cpp")])

p("P30", "The link registry counts links exactly",
  "For every history of added and removed links, the link count between two components is the number of additions minus the number of effective removals, removal succeeds exactly when the count is positive, and a component can be removed exactly when all its remaining sources can drop their links; removing all links to a component asks each of its sources once, also when sources share a name or drop further links while being asked. Links added and removed by several threads are all counted.",
  ["histories"], "all sequences of up to 4 calls over 3 components",
  "Tests add and remove one link.",
  ["src/Xsmp/Services/XsmpLinkRegistry.cpp"], [("per-target multiset of sources", "src/Xsmp/Services/XsmpLinkRegistry.cpp")])

p("P31", "Dates and durations compute exactly in nanoseconds",
  "Every arithmetic, comparison and conversion operation on dates and durations gives the exact nanosecond result of the same operation on integers (absent overflow), construction from hours, minutes, seconds and sub-second parts adds exactly those parts, and epochs are converted with the documented fixed offset so that conversion back is the identity.",
  ["inputs"], "all 64-bit values free of overflow, all constructor arguments in a bounded range",
  "Tests sample constants.",
  ["include/Xsmp/Duration.h", "include/Xsmp/DateTime.h", "src/Xsmp/Duration.cpp", "src/Xsmp/DateTime.cpp"], [("integer nanosecond representation", "include/Xsmp/Duration.h")])

p("P32", "The logger maps each message kind to one stable identifier and name",
  "Each log message kind name has one identifier, the same for every query and never shared with another name, the predefined names have their predefined identifiers, and the kinds are part of the stored state. Every message is written once, in the order logged, to exactly the appenders configured for its kind and sender path, as the appender's layout or pattern says and with the times at which it was logged; a broken configuration or pattern does no harm. Concurrent queries and logging are free of data races, lose no message and always let the service stop.",
  ["histories", "schedules", "inputs"], "all sequences of up to 3 queries over arbitrary short names, all patterns of up to 3 parts, all level and path filters of two appenders, interleavings of 2 threads with up to 3 preemptions",
  "Tests query the predefined kinds; none looks at what is written.",
  ["src/Xsmp/Services/XsmpLogger.cpp"], [("kind maps", "src/Xsmp/Services/XsmpLogger.cpp")])

p("P33", "Factories are registered once per UUID and create the described component",
  "A factory is found by exactly its UUID, a second factory with the same UUID is refused, and each created instance carries the requested name, description and parent, has the factory's UUID and is independent of other instances; unknown UUIDs create nothing.",
  ["histories", "inputs"], "all UUID pairs that differ in one byte, all sequences of up to 3 registrations and creations over 3 identifiers, all names of up to 2 characters",
  "Tests register one factory.",
  ["include/Xsmp/Factory.h", "src/Xsmp/Factory.cpp", "include/Xsmp/FactoryCollection.h", "src/Xsmp/FactoryCollection.cpp"], [("factory collection", "src/Xsmp/FactoryCollection.cpp")])

p("P34", "Raw storage reads back exactly the bytes that were written, or fails",
  "For every sequence of stores followed by the same sequence of restores, each restore yields exactly the bytes of the corresponding store; a short, missing or unreadable file is reported by the documented exception and never accepted as complete data, and a write or directory failure is reported as CannotStore at the latest when the file is complete.",
  ["inputs", "fault_sequences"], "all byte contents and all stream failure points",
  "Tests never inject stream failures.",
  ["src/Xsmp/StorageReader.cpp", "src/Xsmp/StorageWriter.cpp"], [("stream state checks", "src/Xsmp/StorageReader.cpp")])

p("P35", "Text forms of UUIDs, variants, enumerations and times are exact",
  "An enumeration value is written as its literal name (an unknown value with its number), a variant as exactly its value and kind (characters escaped as in C, integers with the suffix of their kind, texts in quotes), and a UUID in its canonical 8-4-4-4-12 form, which parses back to the same UUID. Dates and durations are written and read with exactly the requested format (by default %F %T and %T) and their exact value, and a text that is not in the format never yields an indeterminate value. Writing leaves the settings of the stream and its usability unchanged, and a UUID is written the same whatever they are.",
  ["inputs"], "all values of every kind, all UUIDs field by field, all formats of up to 2 characters, 256 combinations of stream settings",
  "Tests sample constants.",
  ["src/Smp/StreamOperators.cpp", "src/Xsmp/DateTime.cpp", "src/Xsmp/Duration.cpp", "src/Smp/Uuid.cpp"], [("stream operators", "src/Smp/StreamOperators.cpp")])

p("P36", "The Python bindings expose the same behaviour as the C++ interfaces",
  "Every operation reachable from Python has the effect, result and exception of the C++ operation it wraps, and no Python call sequence leads to use of a destroyed simulator object.",
  ["histories"], "all Python call sequences",
  "Tests cover a handful of scripted scenarios.",
  ["src/python/", "python/xsmp/"], [("pybind11 wrappers", "src/python/ecss_smp.cpp")])

p("P37", "A publication shows exactly what was published, once, as it was published",
  "The fields, properties and operations a component shows are exactly those published, in order, each with the name, description, parent, type, view, access and flags it was published with, in the form its type asks for, and found by name and by full name. A field name is published once, whatever the way it is published (by memory, by type, as array, as structure, or as a field given by the caller); a second one is refused. A property or operation published again is the same object with the new description (an operation without its former parameters). What is refused leaves no trace, and after unpublishing nothing is shown and everything can be published again. What is published inside a structure or array is shown only inside it.",
  ["inputs", "histories"], "all histories of 3 publications in 5 forms under 2 names, all views and flags; every primitive kind",
  "Tests publish each form once; duplicates across forms, re-publication and order need histories.",
  ["src/Xsmp/Publication/Publication.cpp", "src/Xsmp/Publication/Property.cpp", "src/Xsmp/Publication/Operation.cpp", "include/Xsmp/Collection.h"], [("publication", "src/Xsmp/Publication/Publication.cpp")])

p("P38", "Entry points, field equivalence, ancestry and value conversion are exact",
  "Every execution of an entry point runs its action exactly once and nothing else; when the simulator executes it, nothing it raises escapes, an error naming the entry point, what was raised and the object that raised it is logged (when there is a logger), and the simulation is aborted exactly when it fails. A component shows exactly the entry points made for it, one per name, in order. Two fields are equivalent exactly when they have the same form, kinds and sizes, member by member, whatever their names and flags. An object is an ancestor of exactly itself and what lies below it, and the nearest object of a type is found upwards from the object itself. Text copied from a variant is cut at the size of its place and terminated, nothing beyond it is written, and enumerations, texts and numbers pass through a variant unchanged.",
  ["inputs", "histories"], "3 executions that may fail, all failures; all trees of 4 objects; all pairs of 44 shapes of fields; all texts of up to 5 characters, all values",
  "Tests run one entry point and compare two fields; which exception, which shape and which length matters only in combination.",
  ["src/Xsmp/Helper.cpp", "include/Xsmp/Helper.h", "src/Xsmp/EntryPoint.cpp", "src/Xsmp/EntryPointPublisher.cpp", "include/Xsmp/AnySimpleConverter.h"], [("helpers", "src/Xsmp/Helper.cpp")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        if len(x["title"]) > 80: print("LONG", x["title"])
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
