p("C01", "A frozen value never changes",
  """Once a value is frozen (created frozen, frozen in place, or obtained as a frozen copy) nothing reachable through the
  public API can change it or anything reachable from it: every mutating method panics without effect on it and on all
  its nested collections, entries, keys and binaries, and mutating any slice, byte buffer, pointer, struct or callback
  argument that was passed in or handed out leaves it unchanged.""",
  ["histories", "inputs"], "every frozen value of the alphabet, every accessor that hands something out, and every mutation attempted on what was handed out",
  "The tests try single mutators on single frozen values; immutability must hold for every combination of value shape, accessor and later mutation.",
  ["internal/array.go", "internal/map.go", "internal/binary.go", "internal/struct.go", "internal/native.go", "internal/mapstruct.go"],
  [("frozen flag checked by mutators", "internal/array.go, internal/map.go, internal/binary.go"), ("recursive freeze and frozen copy", "Freeze/FrozenCopy methods"), ("copy on export of Go data", "GoSlice, GoBytes, ReflectTo")],
  observe=["all accessors of dgo.Array, dgo.Map, dgo.Binary, dgo.MapEntry, vf.FromValue"])

p("C02", "Freeze and the copy methods are deep and independent",
  """Freezing a value in place freezes everything nested in it and never changes its content. A frozen copy is equal to its
  source, is frozen at every level and never freezes or shares mutable state with the source; a thawed copy or a
  non-frozen copy is equal to its source, is mutable at every level of nested array, map, binary and entry value, and
  later mutations of either side at any level are invisible to the other.""",
  ["histories", "inputs"], "all value shapes up to a nesting bound with every mix of frozen and mutable levels, all sequences of copy, freeze and nested mutation up to a depth",
  "Tests check one level of nesting for one operation; independence is a property of all nestings and all later mutations.",
  ["internal/array.go", "internal/map.go", "internal/binary.go", "internal/sensitive.go"],
  [("Copy/FrozenCopy/ThawedCopy/Freeze", "internal/array.go, internal/map.go, internal/binary.go")])

p("C03", "Derived collections share no mutable state with their sources",
  """Every operation that returns a new array or map (with, without, merge, slice, select, reject, map, sort, unique,
  flatten, keys, conversion between array and map, copies) leaves its receiver and its arguments unchanged, and adding to,
  removing from or replacing elements of the receiver, an argument or any derived collection afterwards is invisible in
  all the others, also when many collections are derived from one source.""",
  ["histories"], "all histories of deriving and mutating operations over several live arrays and maps up to a depth",
  "Aliasing shows only when two derived collections and a later mutation meet; tests derive one collection and look at it.",
  ["internal/array.go", "internal/map.go"],
  [("copying before modification", "With*, Merge, Without*, Slice, Select, Reject, Sort, Unique, Flatten, ToMap, ToMapFromEntries")])

p("C04", "A map is a dictionary that preserves insertion order",
  """After any sequence of put, put-all, remove, remove-all, merge, with, without, copy and freeze operations a map holds
  exactly the associations that a dictionary which remembers insertion order would hold (replacing a value keeps the
  position of its key), all queries, iterations and returned previous values agree with that dictionary, and keys that are
  equal are the same key no matter how they collide internally or which representation (Go or dgo value) is used to look
  them up.""",
  ["histories", "inputs"], "all operation sequences up to a depth from empty, pre-filled and frozen maps of sizes around every growth boundary, over keys that share hash codes and table slots",
  "Collision chains, growth and removal interact: which bug shows depends on the key set and on the order of operations, tests use few keys that never collide.",
  ["internal/map.go"],
  [("hash table with chained nodes", "internal/map.go"), ("doubly linked insertion order", "internal/map.go")],
  state=[("associations", "ordered key/value pairs", "internal/map.go")])

p("C05", "An array is a list",
  """After any sequence of add, insert, set, remove, pop, slice, with, select, reject, map, sort, unique, flatten, copy and
  freeze operations an array holds exactly the elements that a plain list would hold, all queries, searches, iterations
  and returned elements agree with that list, and positions outside of the list are rejected without effect.""",
  ["histories", "inputs"], "all operation sequences up to a depth from several initial arrays, with in-range and out-of-range positions",
  "Tests exercise each method once on one array; the result of an operation must not depend on the history (capacity, sharing) that produced its receiver.",
  ["internal/array.go"], [("slice operations", "internal/array.go")])

p("C06", "Every way to build a map gives the same map as putting one by one",
  """A map built from a flat list of keys and values, from an array, from entries or pairs, from a Go map, by merging, or
  by decoding equals the map obtained by putting the same associations one by one in the same order (the last association
  of a duplicated key wins, Go maps are ordered by their sorted keys), and every query and later modification behaves the
  same on it.""",
  ["inputs", "histories"], "all association lists up to a length over keys that collide or are duplicated, all constructors, followed by every single map operation",
  "Each constructor has its own table building code; tests never compare them with each other, nor use duplicate or colliding keys.",
  ["internal/map.go", "internal/array.go", "vf/map.go", "streamer/decoder.go"],
  [("bulk construction", "internal/map.go, internal/array.go")])

p("C07", "Equality is an equivalence consistent with hash codes and map lookup",
  """Equality between any two values (without NaN) or types is reflexive, symmetric and transitive, agrees with structural equality of
  their content irrespective of how they were created, frozen or represented and irrespective of map order, and equal
  values that don't contain themselves have equal hash codes and are interchangeable as map keys and in searches.""",
  ["inputs"], "all pairs and triples over a universe of values and types of every kind, in all their representations",
  "It relates all pairs and triples of kinds; the tests compare a handful of pairs, one direction at a time.",
  ["internal/compare.go", "internal/integer.go", "internal/float.go", "internal/string.go", "internal/array.go", "internal/map.go", "internal/ternary.go"],
  [("Equals/deepEqual", "all value and type implementations"), ("HashCode/deepHashCode", "all value and type implementations")])

p("C08", "Comparison is a consistent order and Sort is a stable sort by it",
  """Comparing two values gives opposite answers when the operands are swapped, is transitive (integers beyond the precision
  of a float excepted when floats are involved), gives zero for equal values, and agrees with the natural order of
  integers, floats, strings, booleans, binaries and (element by element, then by length) arrays, with nil before everything
  else and values of different kinds not comparable; sorting returns a permutation of its receiver in which comparable
  elements are ordered, nil comes first, and ties keep their relative order.""",
  ["inputs"], "all pairs and triples over a universe of comparable values and all arrays up to a length over it",
  "An order law quantifies over triples; tests compare fixed pairs.",
  ["internal/compare.go", "internal/array.go", "internal/integer.go", "internal/float.go"],
  [("CompareTo/deepCompare", "internal/*.go"), ("Sort", "internal/array.go")])

p("C09", "Self-referencing values and recursive types are handled in finite time",
  """For every array or map that directly or indirectly contains itself and every type that refers to itself through an
  alias, printing, hashing, equality, comparison, freezing, copying, type inference, generic types, instance and assignability checks,
  and validation terminate with an answer instead of exhausting the stack; copies have the same shape and share no mutable
  collection with the original, values are equal exactly when their infinite unfoldings are (with equal hash codes), a
  recursive type accepts exactly the values its definition describes, and unrolling it does not change which values it accepts.""",
  ["inputs"], "all small graphs of arrays and maps with back references and a family of recursive type definitions, all pairs",
  "Each operation has its own recursion guard and every cycle shape exercises it differently; tests use one or two shapes.",
  ["internal/compare.go", "internal/alias.go", "util/indenter.go"],
  [("seen lists and recursion guards", "internal/compare.go, internal/compare.go")])

p("C10", "The type of a value is exact",
  """Every value is an instance of its own type, and, unless it is or contains a sensitive value or a type, a value is an
  instance of another value's type exactly when the two values are equal; one value's type is assignable from another
  value's type exactly when the values are equal, and the type's exact-value accessor returns an equal value.""",
  ["inputs"], "all pairs over a universe of values of every kind and nesting",
  "It quantifies over all pairs of values; tests check each exact type against one or two other values.",
  ["internal/exact.go", "internal/array.go", "internal/map.go", "internal/string.go", "internal/integer.go", "internal/float.go"],
  [("exact types", "internal/exact.go")])

p("C11", "A value is an instance of a type exactly when the type's definition says so",
  """For every type that can be expressed (ranges, lengths, enumerations, patterns, arrays, tuples, maps, struct maps,
  unions, intersections, exclusive unions, negations, meta types, functions, sensitive, optional and exact types, nested
  in any way) the instance test gives precisely the answer of the type's documented meaning, for every value. What the type
  itself tells about its limits, sizes, elements, keys, entries, operands and exact value describes the same instances.""",
  ["inputs"], "all types of a grammar up to a nesting bound against all values of a universe that has witnesses on both sides of each boundary",
  "The product of type constructors and values is explored by tests at isolated points; boundaries, nesting and combinations are not.",
  ["internal/*.go"], [("Instance/DeepInstance", "all type implementations in internal")])

p("C12", "Assignability is sound, reflexive, transitive and consistent with instances",
  """If one type is assignable from another, every instance of the other is an instance of the one; every type is
  assignable from itself and from each of its exact instances, any accepts everything, a union accepts each of its
  members, and among types without intersections, exclusive unions and negations the relation is transitive. Where the
  value sets make it obviously true for ranges, lengths, element, key and value types of the same kind, assignability
  also answers true.""",
  ["inputs"], "all pairs (and triples) of types of a grammar up to a nesting bound, checked against a universe of witness values",
  "A soundness law over pairs of types and all values; tests check selected pairs.",
  ["internal/*.go"], [("Assignable/DeepAssignable/AssignableTo", "all type implementations in internal")])

p("C13", "The generic form of a type accepts everything the type accepts",
  """The generic form of a type is assignable from the type and accepts all its instances, taking the generic form twice gives
  the same type as taking it once, and the generic form of the type of a value names only kinds: it has no ranges, lengths
  or exact values at any level, and its element, key and value types are the least generic type of the elements that
  accepts all of them, or any when there is none.""",
  ["inputs"], "all types of a grammar up to a nesting bound and the types of all values of a universe",
  "Generic is defined per type constructor and must compose; tests sample a few combinations.",
  ["internal/type.go", "internal/*.go", "typ/utils.go"], [("Generic", "internal/*.go")])

p("C14", "Struct map validation agrees with the instance test",
  """For every struct map type and every map, validating the map reports no errors exactly when the map is an instance of
  the type, the verbose validation gives the same verdict, and the errors name precisely the missing required keys, the
  unrecognized keys (there are none when the type is open) and the keys with a value of the wrong type.""",
  ["inputs"], "all struct map types with up to three entries (required or optional, open or closed) against all maps over the same keys and one more",
  "Three implementations of the same decision must agree on every combination of presence, optionality and openness.",
  ["internal/mapstruct.go"], [("Validate/ValidateVerbose/Instance", "internal/mapstruct.go")])

p("C15", "Creating a value from a type yields an instance of the type or fails",
  """Creating a new value from a type and arguments either panics with an error or returns a value that is an instance of
  the type, and leaves its arguments unchanged. Conversions between numbers, strings (with an optional radix or format),
  booleans, binaries, times, arrays and maps return the right value for every convertible input - where a float or a time
  becomes an integer by dropping its fraction - and fail for every other input instead of wrapping around or ignoring it.""",
  ["inputs"], "all constructible types of an alphabet against all argument values of an alphabet that includes numeric boundaries, radix and format variants and malformed input",
  "Conversion boundaries (integer limits, fractions, radix prefixes, durations, encodings) form a product which tests sample.",
  ["internal/integer.go", "internal/float.go", "internal/string.go", "internal/boolean.go", "internal/binary.go", "internal/time.go"],
  [("New factories", "internal/*.go")])

p("C16", "A function call accepts exactly the arguments its type describes",
  """Calling a dgo function wrapped around a Go function succeeds with the results of the Go function exactly when the number
  of arguments matches and each argument can be converted to the type of its parameter (nil being the zero value of any
  type), in particular for every list of arguments that is an instance of the parameters of the function's type (function
  parameters excepted), and otherwise fails without calling it, variadic functions included; the function's type describes its parameters and
  results, and equality, assignability and instance of function types follow parameters and results component by component.""",
  ["inputs"], "all Go function signatures of an alphabet against all argument lists up to a length",
  "Tests call a handful of functions with matching arguments.",
  ["internal/function.go", "internal/arguments.go"], [("Call, function types", "internal/function.go")])

p("C17", "Sensitive values never reveal what they wrap",
  """The text form of a sensitive value, of any collection, entry or type that contains one and of any error reported about it never contains the wrapped content (the type of a wrapped type, which names it, excepted), equality and hashing of sensitive values follow the wrapped values without a
  non-sensitive value ever being equal to a sensitive one, and unwrapping returns the very value that was wrapped.""",
  ["inputs"], "all nestings up to a depth of a sensitive value in collections, all printing and error producing operations",
  "A leak needs the right path of nested printing; tests print one sensitive string.",
  ["internal/sensitive.go", "stringer/typestring.go", "util/indenter.go"], [("redacted string form", "internal/sensitive.go")])

p("C18", "Printing a type and parsing the text gives an equal type",
  """For every type that can be built from the documented type syntax, parsing its printed text (with the same aliases) yields a type that is equal
  to it, prints the same text again and accepts the same values, and the text written by hand for a type yields the type
  that the documentation assigns to it with operator precedence and parentheses respected.""",
  ["inputs", "programs"], "all types of a grammar up to a nesting bound, including every nesting of operators, enumerations with special characters and struct keys that are keywords",
  "Printing must parenthesize and quote for every nesting of operators and every string; tests print fixed types.",
  ["stringer/typestring.go", "parser/parser.go", "parser/lexer.go"],
  [("typeBuilder", "stringer/typestring.go"), ("recursive descent parser", "parser/parser.go")])

p("C19", "The type parser is total and deterministic",
  """For every input text the parser either returns a value or panics with an error that names a position inside the text;
  it never crashes with a runtime error, loops, exhausts the stack on moderate nesting, or depends on what was parsed
  before. Text with unbalanced brackets, unterminated strings or trailing tokens is rejected.""",
  ["inputs", "programs"], "all token sequences up to a length over an alphabet of all token kinds, and all byte strings up to a length over an alphabet of delimiters, quotes, escapes and control characters",
  "Tests have a list of malformed inputs; totality is about every input.",
  ["parser/parser.go", "parser/lexer.go", "util/reader.go", "parser/package.go"], [("error reporting", "parser/parser.go")])

p("C20", "Printing a literal value and parsing the text gives an equal value",
  """For every value made of nil, booleans, integers, finite floats, strings, non-empty arrays and maps, parsing its printed text (compact or indented) yields the exact type of an equal value with the same order, and the indented and compact forms have the same tokens.""",
  ["inputs"], "all values up to a nesting bound over scalars that include numeric limits and strings with every class of special character",
  "Quoting, numeric formatting and nesting are sampled at a few points by the tests.",
  ["util/indenter.go", "util/string.go", "internal/*.go", "parser/parser.go"], [("AppendTo/String", "internal/*.go")])

p("C22", "JSON encoding and decoding preserves plain data",
  """Encoding any value made of nil, booleans, integers, finite floats, valid UTF-8 strings, arrays and maps with string keys
  (other than the reserved keys of the dialect) to JSON, with any deduplication level or dialect, gives a valid JSON
  document with the same content and key order, and decoding it gives back an equal value of the same kinds (floats stay
  floats) and order; equal sub-values, special characters and repeated structures never change the result, streaming the
  value to a collector or consumer of any capability gives the same value, and decoding any valid JSON document gives the
  value the JSON denotes: numbers without fraction and exponent in the 64 bit range are integers, other numbers floats.""",
  ["inputs"], "all data values up to a nesting bound over scalars with every class of special character and numeric limit, with every sharing pattern",
  "The encoder's state machine (delimiters, keys, references) depends on the nesting history; tests encode single samples.",
  ["streamer/json.go", "streamer/streamer.go"], [("jsonEncoder state machine", "streamer/json.go"), ("jsonDecoder", "streamer/json.go")])

p("C23", "Rich data survives streaming and decoding",
  """Streaming any acyclic value made of data, binaries, timestamps, sensitive values, types, aliased types, values of named
  types and maps with arbitrary keys with rich data enabled, directly or via a collector or JSON, in either dialect, with
  any deduplication level, and decoding the result yields an equal value of the same kind at every level; sub-values
  streamed as references come back as equal values at every place they occurred, and the same holds for values with cycles
  when deduplication is on. A reference is always the position, in the sequence of all values and keys, of a value that was
  added before, and strings shorter than the threshold of the consumer are never referenced. With rich data off everything
  that the consumer can't represent as data is rejected with an error, and so are values that have no representation.""",
  ["inputs", "configurations"], "all rich values up to a nesting bound with every sharing pattern of a few repeated sub-values, all dedup levels, both dialects, all collectors",
  "Whether a reference resolves right depends on the positions of all earlier values; tests stream a handful of shapes.",
  ["streamer/streamer.go", "streamer/decoder.go", "streamer/json.go", "streamer/datacollector.go", "streamer/basiccollector.go", "streamer/dialect.go", "streamer/pcore/pcoredialect.go"],
  [("reference positions", "streamer/streamer.go, streamer/basiccollector.go"), ("dataDecoder", "streamer/decoder.go")])

p("C24", "Decoding arbitrary input either fails with an error or yields a value",
  """For every byte sequence presented to the JSON decoder, in either dialect, the result is either the value that the document
  denotes or a reported error: never a runtime error, a hang, or a silently accepted malformed, truncated or trailing
  text; numbers that are out of range, references that aren't integers or that don't refer to an earlier value or key, and
  rich data with content of the wrong kind are reported. Cyclic references, unknown kinds of rich data and unusual use of
  the reserved keys yield a usable value or an error.""",
  ["inputs", "fault_sequences"], "all JSON token sequences up to a length, every truncation of a set of documents, and all references in and out of range",
  "Tests feed a few malformed inputs.",
  ["streamer/json.go", "streamer/decoder.go"], [("jsonDecoder", "streamer/json.go")])

p("C25", "Go values round-trip through dgo values",
  """Converting a Go value of any supported type (all integer and float kinds, strings, booleans, byte slices, times,
  regexps, errors, dgo values, slices, maps, pointers and interfaces of these, nested, and structs and other types at the top) to a dgo value and
  back to the same Go type gives a deeply equal Go value (a number held by an interface becomes an int64 or float64, typed
  slices and maps held by it may change element type but not content), and conversion to or from a Go type that cannot represent the value fails
  instead of wrapping around or truncating; nil becomes the zero value and a float32 is rounded.""",
  ["inputs"], "all Go types of a grammar up to a nesting bound with boundary values, all pairs of numeric value and numeric target kind",
  "The conversion table is a product of kinds and boundaries; tests convert a few.",
  ["internal/value.go", "internal/integer.go", "internal/float.go", "internal/array.go", "internal/map.go", "vf/value.go"],
  [("Value/ValueFromReflected/ReflectTo", "internal/*.go")])

p("C26", "Conversion from Go data isolates frozen values from the Go data",
  """A frozen value created from Go data (slices, maps, byte buffers, arrays of values, nested) is a snapshot: modifying the
  Go data afterwards, at any level, never changes the value (this also holds for types created from slices), and Go data extracted from a frozen value can be modified without changing
  the value.""",
  ["histories", "inputs"], "all nestings up to a depth of Go slices, maps, byte buffers and dgo values, all constructors and extractors, mutation at every level",
  "Tests modify the outermost slice of one shape.",
  ["internal/array.go", "internal/map.go", "internal/binary.go", "internal/value.go"],
  [("copy on import and export", "internal/*.go")])

p("C27", "A struct-backed map behaves as a map over the exported fields",
  """A map created from a Go struct or a pointer to one has exactly the exported fields that the struct
  declares as string keys in declaration order (an embedded struct is one field, fields promoted from it and unexported
  fields are not keys) and all queries agree with the current content of the struct; putting a value stores it in the field
  or fails without effect when there is no such field or the value doesn't fit, keys can't be removed, frozen maps and
  copies share nothing that can be modified with the struct, and derived maps never write to it.""",
  ["histories", "inputs"], "all sequences of map operations up to a depth over structs with fields of several kinds and embedded structs",
  "Tests call each method once on one struct.",
  ["internal/struct.go"], [("structVal", "internal/struct.go")])

p("C28", "A loader returns what its parents or its finder define and never redefines",
  """Loading a name returns the value of the nearest enclosing definition (parent loader first, then own entries, then the
  finder) with namespaces resolved from left to right and created on demand, the finder is asked at most once for a name
  that was found, a loaded value never changes afterwards, and attempts to redefine a name with a different value fail
  without changing anything, also when the finder returns several values of which one conflicts. What a loader holds can't
  be altered through a map that was used to create it or that was obtained from it.""",
  ["histories"], "all sequences of load, get, namespace and new-child operations up to a depth over nested names, with finders that return values, several values, loaders, nil or fail",
  "Tests follow single load sequences.",
  ["loader/loader.go"], [("loader entries, namespaces, parent delegation", "loader/loader.go")])

p("C29", "Concurrent loading is atomic",
  """When several goroutines load names, create namespaces or read the same loader at the same time, and its finder and
  namespace creator give equal results for equal names, every goroutine gets the same value for the same name, the result
  of every call equals what some sequential order of the calls gives, a name is never published twice with different
  values, and no call deadlocks, fails spuriously or races on memory.""",
  ["schedules"], "all interleavings up to a preemption bound of two and three goroutines with up to two operations on colliding names, including finders and namespace creators as scheduling points",
  "No test loads from more than one goroutine; the locking protocol (read, unlock, find, lock, add) has windows that only specific interleavings hit.",
  ["loader/loader.go"], [("entry lock and re-check on add", "loader/loader.go")], hook=None)

p("C30", "Alias registration is isolated and safe for concurrent use",
  """Concurrent declaration of type aliases, by text that is parsed or by use of an adder, loses no alias. Of two declarations
  of one name in text one fails, also when they are concurrent. Readers see either none or all of the aliases of one
  declaration, alias maps obtained before it are unaffected by it, an adder or a text that fails declares nothing,
  declarations made for an alias map of one's own don't alter the default aliases, and no interleaving deadlocks or
  races.""",
  ["schedules", "histories"], "all interleavings up to a preemption bound of two and three goroutines registering and reading aliases, and all sequential histories up to a depth",
  "Tests register aliases from one goroutine.",
  ["internal/alias.go", "tf/type.go", "parser/parser.go"], [("aliasAdder copy-on-write", "internal/alias.go")])

p("C31", "The named type registry is consistent",
  """A named type that has been registered is returned for its name by every lookup from then on, registering a name again
  fails and changes nothing, removal makes the name free again, lookup by Go type finds a type that is registered with that
  implementation type, and assignability follows the implementation and interface types; also when goroutines register,
  remove and look up concurrently.""",
  ["schedules", "histories"], "all histories of register, look up, remove and instance tests up to a depth and all interleavings up to a preemption bound of two and three goroutines",
  "Tests register a type and look at it.",
  ["internal/named.go"], [("registry", "internal/named.go")])

p("C32", "Values and types can be shared between goroutines for reading",
  """Any number of goroutines may at the same time use any read-only operation on the same frozen value or on the same type,
  including the first use of lazily computed parts, without data races, and each gets the same answer as without
  concurrency.""",
  ["schedules"], "all interleavings up to a preemption bound of two goroutines for each pair of read operations on shared values and types whose lazy parts are not computed yet, with a race detector watching every execution",
  "No test reads a value from two goroutines; lazily cached data is written by readers.",
  ["internal/string.go", "internal/type.go", "internal/named.go", "internal/alias.go"], [("lazy hash codes and lazily built types", "internal/string.go, internal/*.go")])

p("C33", "The pcore dialect reads what it writes",
  """In the pcore dialect the type parser is total and deterministic over all token sequences, and every type or value expression of the pcore language denotes the type or value that the language defines for it. Text that is not an expression is rejected with an error that has a position, never with a Go runtime error, and a rejected text declares nothing.""",
  ["inputs", "programs"], "all token sequences up to a length and all type expressions of a grammar up to a nesting bound",
  "Tests parse fixed expressions.",
  ["streamer/pcore/parser.go", "streamer/pcore/lexer.go"], [("pcore parser", "streamer/pcore/parser.go")])

p("C34", "Binary encodings are inverses",
  """Decoding the encoded form of any binary in the same encoding gives back the same bytes, the base64 encodings never accept text outside their alphabet (line breaks are ignored) or with wrong padding, the strict one also no nonzero trailing bits, and text that isn't valid for the requested format is rejected
  instead of altered.""",
  ["inputs"], "all byte strings up to a length over boundary bytes, all formats, and all texts up to a length over an alphabet of valid, invalid, padding and line break characters",
  "Tests encode one byte string per format.",
  ["internal/binary.go"], [("Encode/BinaryFromEncoded", "internal/binary.go")])
