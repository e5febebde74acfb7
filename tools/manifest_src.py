SCHED = "stateless model checking: systematic exploration of all schedules of goroutines of the real code within bounds (controlled scheduler, sleep sets, preemption bounds, race detector), plus exhaustive histories against a reference model"
HIST = "explicit-state model checking: exhaustive enumeration of operation histories on the real code against a reference model"
INP = "bounded exhaustive model checking: every input of the stated space is executed on the real code and compared with an independent reference model"
NOTES = {
 "C02": (HIST, "All histories of freeze, copies and nested mutations over two live values up to the stated depth, with a heap model that tracks sharing; every live value is compared with the model after every step."),
 "C11": (INP, "All types of the grammar up to nesting 3 against some 700 values in all representations, compared with a denotational model of each type. Trusts the model of the denotations."),
 "C12": (INP, "All ordered pairs of 9644 types (nested ones with each other in the thorough tier only) and all triples of the nesting 2 types without intersection, exclusive union and negation. Unsoundness is decided by witness values, so an inclusion error that no value of the universe shows is missed."),

 "C01": (HIST, "Every method (found by reflection) of every frozen value shape and of everything it hands out is called with every argument of an alphabet, everything handed in or out is then modified, and the frozen value is compared after every call. Call depth 2; trusts the observation functions."),
 "C03": (HIST, "Every pair of derivations followed by every mutation of every live collection at every level leaves all the others unchanged. Bounds on depth and live values as in the evidence."),
 "C06": ("explicit-state model checking: exhaustive enumeration of association lists over all constructors, each followed by every map operation, against a reference dictionary", "All association lists within the bounds; trusts the reference dictionary."),
 "C04": (HIST, "Every history within the stated bounds agrees with the reference dictionary after every step. Bounds: depth 3 (thorough 4), 8 colliding keys, 2 values; trusts the reference model and public accessors."),
 "C05": (HIST, "Every history within the stated bounds agrees with the reference list after every step. Bounds: depth 3 (thorough 4), 4 element values; trusts the reference model."),
 "C07": (INP, 'All ordered pairs of some 14000 representations of values and builds of types (nesting 3, every third nested type in the quick tier). Denotations of types are compared through witness values.'),
 "C08": (INP, 'All pairs and triples of 267 values and all arrays up to length 5 (thorough 7) over 15 alphabets, against a reference order.'),
 "C10": (INP, 'All ordered pairs of some 1000 values in all representations. Trusts the reference equality.'),
 "C13": (INP, 'All types of the grammar up to nesting 3 against the value universe, and the types of some 15700 values against a reference definition of their generic form. Types that combine a negation with a union are left out of the acceptance clause (known finding of C12).'),
 "C14": (INP, 'All struct map types with up to three entries against all maps over the alphabet (2.5M pairs in the quick tier).'),
 "C18": (INP, 'Token sequences up to 5-8 over seven alphabets (thorough 6-10), 32000 types of a grammar up to nesting 3 and every string of one byte. Trusts the reference grammar, which is written from docs/types.md and the parser. Aliases referenced before their declaration, struct keys that have an alias and sensitive[literal] are only checked for acceptance.'),
 "C19": (INP, 'All viable token prefixes up to 5-8 tokens extended by every token and all texts up to 4-7 characters over eight character alphabets (thorough one or two more). Trusts the reference lexer and grammar.'),
 "C20": (INP, 'Every string of one or two bytes, every string of up to 4 (thorough 5) characters over 28 special characters, all characters up to U+3000 (thorough all), every power of two and ten and its neighbours in 6-12 positions, and all values of up to 6 (thorough 7) nodes. The empty array has no literal form ({} is the empty map). Trusts the reference lexer.'),
 "C34": (INP, 'Every binary of up to 2 bytes (thorough 3) and of up to 5 boundary bytes, every text of up to 5 (thorough 6) characters over 15 characters in all five formats through all entry points, all final base64 quantums, all byte strings over 25 UTF-8 boundary bytes, all unknown format names up to 3 characters, all reader scripts up to 4 steps. The reference decoder is written from RFC 4648.'),
 "C17": (INP, '28 kinds of secrets in all chains of up to two (thorough three) of 16 containers under 200 operations that produce text or errors; all pairs of 160 (thorough all) values for equality, hash and lookup. Explicit rich streaming of sensitive content is by design not a leak (C23). Marks are searched textually (plain, base64, hex, decimal forms).'),
 "C15": (INP, 'Every type up to nesting 2 (thorough 3) against 3000 argument lists (values, numeric boundaries, malformed texts, radixes and formats; frozen and mutable, as value and as arguments), compared with a reference of the conversions followed by the denotation of the type; every text of up to 5 (thorough 6) characters over 12 number characters in 4 radixes; all powers of two plus and minus 2; every binary exponent of floats; a product of 15 years, months, days, clocks and zones for times; named types with every combination of constructor, implementation type and assignability check.'),
 "C25": (INP, "All Go types of a grammar of 31 base types under slice, map and pointer up to nesting 2 (thorough 3): every boundary value of each through three entry points and back; every dgo value of a universe with all integer and float boundaries to every such Go type (including dgo interfaces), frozen and mutable, against a reference of what the type can represent. Named scalar types and structs are natives, covered at the top and behind a pointer only (a frozen collection can't hold a native)."),
 "C16": (INP, "Excluded: Go functions with parameters that are fixed size Go arrays or named scalars inside collections (those have native values), and arguments with map keys that Go maps can't have."),
 "C09": (INP, 'Flatten and the conversion of a cyclic value to Go data or JSON are excluded since their result would be infinite. Known finding: cyclic values that have different shapes but the same unfolding are equal and have different hash codes.'),
 "C22": (INP, 'Maps that use the reserved keys of the dialect, invalid UTF-8 and infinite floats are excluded (JSON can not represent them).'),
 "C23": (INP, 'Types whose text is excluded in C18 are excluded. Cycles without deduplication are excluded (endless by design). Known finding: types do not survive the pcore dialect.'),
 "C24": (INP, 'What a document with cyclic references or with reserved keys in unusual places denotes is not defined: the check only requires that there is no runtime error and that the result is usable.'),
 "C28": (HIST, "All sequences of operations up to depth 3 (thorough 4) over loaders of several shapes against a reference loader; finders return values, several values, loaders, nil or fail."),
 "C29": (SCHED, "Two goroutines with one call each: all interleavings (some loaders: preemption bound 3); two calls against one and three goroutines: preemption bounds 2 and 1 (thorough more). Finders must give equal results for equal names."),
 "C30": (SCHED, 'Text that refers to an alias while another goroutine replaces that alias through an adder may use either meaning.'),
 "C31": (SCHED, 'A lookup by Go type that runs while one type for it is removed and another one added may find none.'),
 "C32": (SCHED, 'All interleavings of two goroutines with at most one preemption (thorough 2) at synchronizing operations; the race detector judges every execution. The hash code of a native and of anything by address is excluded.'),
 "C26": (INP, "Two step histories (import or extract, then modify one place) over all Go types up to nesting 2 with samples, 36 nested mixtures of Go data and mutable dgo values, 55 entry points that give a frozen value, and all places of the data; extraction to all Go types up to nesting 2. A *time.Time that is handed out is the internal one (known finding of C01) and isn't modified."),
 "C27": (HIST, 'All histories of two operations with all values and of three operations (thorough four) with fewer values over 18 structs, up to four live maps. Natives (nested structs) are views of the field and are excluded from freezing and from derived maps.'),
 "C33": (INP, 'Exhaustive token sequences, texts and type expressions against a reference lexer and grammar; sizes that the language approximates follow the existing tests.'),
}
NA = {}
