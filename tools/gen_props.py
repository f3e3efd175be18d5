import json
P=[]
def p(id,title,statement,over,text,why,files,state,mech,obs,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs,hook_needed=hook)))
U="crates/diman_unit_system/src/"
L="crates/diman_lib/src/"
p("C01","Expanding a unit system is reproducible",
 "Expanding the same unit-system definition always yields the same generated code and the same diagnostics, in the same order. Nothing else may show in the output: not the per-process hash seed, not the thread that runs the macro, and not what the same compiler process expanded before, successfully or not.",
 ["schedules","histories","inputs"],"every definition text, every sequence of hash keys the standard library may hand out, every history of earlier (good, faulty, panicking) expansions in the same process and every thread they run on",
 "A test run sees one hash seed and compares no two expansions; trybuild fixtures have at most one multi-entry error, so a different iteration order is invisible.",
 [U+"dimension_math.rs",U+"resolve/ident_storage.rs",U+"resolve/mod.rs",U+"resolve/error.rs",U+"codegen/dimensions.rs"],
 [("resolved","resolved definitions, ordered by name",U+"resolve/ident_storage.rs"),("fields","exponent per base dimension",U+"dimension_math.rs")],
 [("ordered maps for everything that reaches the output",U+"resolve/ident_storage.rs"),("sorted dimension lists in messages",U+"resolve/error.rs")],
 ["token stream returned by unit_system!","diagnostics emitted by unit_system!"])
p("C02","Definitions mean what they say, in whatever order they are given",
 "In every valid unit system, each dimension, unit and constant gets exactly the dimension and magnitude its defining expression denotes (products and quotients left to right, parentheses, powers, 1, numeric factors, references), and every alias, metric or explicit prefix and prefixed alias gets the magnitude prefix times unit. The result does not depend on the order of the statements (forward references included) or on the hash seed.",
 ["programs","schedules","configurations"],"every valid system of definitions, every permutation of its statements, every hash key sequence, with integer and with rational exponents",
 "Tests use a handful of hand written systems in one order; the resolver is a worklist whose progress depends on statement order, and the space of expressions, prefixes, aliases and permutations is unbounded.",
 [U+"resolve/ident_storage.rs",U+"types/mod.rs",U+"types/prefixes.rs",U+"types/expression.rs",U+"dimension_math.rs",U+"parse/mod.rs",U+"parse/attributes.rs",L+"magnitude.rs",L+"ratio.rs",L+"dimension_exponent.rs",U+"codegen/units_and_constants.rs",U+"codegen/dimensions.rs",U+"codegen/dimension_type.rs"],
 [("unresolved","definitions not yet evaluated",U+"resolve/ident_storage.rs")],
 [("worklist resolution",U+"resolve/ident_storage.rs"),("template expansion of prefixes and aliases",U+"types/mod.rs"),("expression evaluation",U+"types/expression.rs")],
 ["units::*, constants::* and dimensions::* of the generated module"])
p("C03","A faulty definition does not harm unrelated ones",
 "When a unit system contains faulty definitions (undefined, cyclic, duplicate, of the wrong kind, with a wrong annotation, or with a wrong base or symbol), expansion still terminates without panicking, every definition that does not depend on a faulty one is generated exactly as it would be without the faults, and no error is reported against it. Prefixed and aliased variants of a unit that refers to something undefined do not add errors of their own.",
 ["programs","fault_sequences","schedules"],"every valid system, every set of faulty statements injected into it at every position, every statement order and hash key sequence",
 "The trybuild fixtures each hold one or two faults in one small system and one order, and compare messages, not the code generated for the rest.",
 [U+"resolve/ident_storage.rs",U+"resolve/mod.rs",U+"resolve/error.rs",U+"codegen/mod.rs"],
 [("unresolved","definitions that survived the filters",U+"resolve/ident_storage.rs")],
 [("filter undefined / autogenerated / multiply defined items",U+"resolve/ident_storage.rs"),("emit error and carry on with a partial result",U+"resolve/mod.rs")],
 ["token stream and diagnostics of unit_system!"])
p("C04","Every faulty definition is reported",
 "A unit system in which some definition is faulty never compiles silently, whatever the statement order and hash seed: an undefined identifier, a recursive definition, a name defined twice, a definition in terms of the wrong kind of item, an annotation that is undefined, not a dimension or not exactly the dimension of the expression, two base units for one dimension, a base unit for a non-base dimension, a symbol used twice, a base unit without symbol, a numeric factor in a dimension, an attribute where it means nothing, and a missing or repeated type declaration each produce an error that names or points at the culprit. Several faults at once are all reported, except that after a syntax error or an unused-attribute or numeric-factor error the others may be left for the next attempt.",
 ["programs","fault_sequences","schedules"],"every valid system, every set of injected faults, every statement order and hash key sequence",
 "Each trybuild fixture shows one instance of one fault; annotation checks for example only ever saw dimensions that differ in the checked direction.",
 [U+"resolve/mod.rs",U+"resolve/ident_storage.rs",U+"resolve/error.rs",U+"dimension_math.rs",U+"parse/mod.rs",U+"parse/attributes.rs"],
 [],[("checks before and after resolution",U+"resolve/mod.rs"),("dimension comparison",U+"dimension_math.rs"),("attribute checks",U+"parse/attributes.rs")],
 ["diagnostics of unit_system! and the exit status of the compiler"])
p("C05","Serialised quantities survive interrupted, fragmented streams",
 "Where every base dimension has a base unit with a symbol, a quantity of any float or vector storage type and any dimension that is serialised to a stream and read back as the same type has bit for bit the same value (a NaN stays a NaN), and one read as a quantity of another dimension is refused. This holds however the stream splits, delays or interrupts its reads and writes, with several quantities on one stream, and with integer and rational exponents.",
 ["inputs","schedules","fault_sequences","configurations"],"every unit system, dimension, storage type and value; every split into short reads and writes with interruptions and retries; every interleaving of concurrent writers and readers",
 "Tests parse a few fixed strings and round-trip a few values from memory; no stream, no rational exponent and no derived dimension beyond a few is ever round-tripped.",
 [U+"codegen/serde.rs",U+"codegen/debug_trait.rs",L+"runtime_unit_storage.rs",L+"magnitude.rs",L+"dimension_exponent.rs",L+"ratio.rs"],
 [("units_array","symbol, dimension and magnitude table compiled into each impl",U+"codegen/debug_trait.rs")],
 [("string form written by Serialize",U+"codegen/serde.rs"),("unit string parser of Deserialize",U+"codegen/serde.rs")],
 ["Serialize and Deserialize of quantities"])
p("C06","A damaged or failing stream never yields a wrong quantity",
 "Deserialising a quantity from input that was truncated, corrupted, duplicated or spliced gives either an error or exactly the value that the delivered text denotes: one number (or one bracketed vector of the right length, nothing before the bracket) followed by whitespace separated unit symbols with optional integer exponents (rational ones where the dimensions are rational) whose total dimension is the requested one; bare numbers are only accepted for dimensionless scalars. Text of that form, with numbers as the storage type itself parses them, is accepted. I/O and format errors come back as errors, and no input makes it panic.",
 ["inputs","fault_sequences","crash_points"],"every unit system, storage type and requested dimension; every byte string a stored record can become through truncation, torn writes, bit flips, splices and duplicated or lost fragments; every I/O error position",
 "A dozen fixed bad strings are tested, in two systems; corrupted records are an unbounded input space.",
 [U+"codegen/serde.rs",L+"runtime_unit_storage.rs"],
 [],[("visit_str of the scalar and vector visitors",U+"codegen/serde.rs"),("read_unit_str / dimension check",U+"codegen/serde.rs")],
 ["Deserialize of quantities"])
p("C07","Formatted quantities are right, on failing sinks too",
 "Where every base dimension has a base unit, formatting a quantity with Debug writes the stored value exactly as its storage's Display would with the same formatter options, followed by a space and a unit expression that denotes exactly the quantity's dimension with factor one; for a dimensionless quantity nothing need follow. If the sink or the storage's own formatting fails, that failure is returned, what was written is a prefix of the full text and nothing is written afterwards; formatting never panics.",
 ["inputs","fault_sequences","configurations"],"every unit system, dimension, storage type, value, formatter option; every position at which the sink fails or is interrupted",
 "Tests format about ten values of two systems into a String, which cannot fail.",
 [U+"codegen/debug_trait.rs",L+"runtime_unit_storage.rs",L+"ratio.rs"],
 [("units_array","units of magnitude one with their symbols",U+"codegen/debug_trait.rs")],
 [("first matching unit symbol, else product of base symbols",U+"codegen/debug_trait.rs")],
 ["Debug of quantities"])
p("C08","Random quantities are exactly random floats with units",
 "For every random source, sampling a quantity uniformly between two quantities (half-open or inclusive, once or through a reusable sampler) gives what the rand crate gives for the bare floats between the bare bounds from the same random words, within the bounds, consuming as many words, and the bounds are rejected exactly when the bare ones are. A source that fails or panics half way leaves the sampler usable and unchanged.",
 ["inputs","schedules","fault_sequences"],"every pair of bounds, f32 and f64, every stream of random words including extreme ones, every interleaving of samplers sharing a source, every failure position",
 "The one test draws from one range with one generator and checks only the range.",
 [U+"codegen/rand.rs"],[("UniformQuantity","the prepared sampler",U+"codegen/rand.rs")],
 [("delegation to UniformFloat",U+"codegen/rand.rs")],
 ["gen_range, Uniform and UniformSampler over quantities"])
p("C09","Messages of quantities arrive unchanged between MPI ranks",
 "A message of any number of quantities of any float or vector storage type, sent by one MPI rank and received by another, arrives with the same number of elements and bit for bit the same values, whether either side sees the elements as quantities or as their storage type. The bytes on the wire do not depend on which of the two views was used, nor on what was sent before or at the same time from other threads. Nodes of unlike architecture can convert them, and MPI's own operations (sum, product, maximum, minimum) combine quantities like their storage.",
 ["inputs","schedules","fault_sequences"],"every storage type, dimension, message length (empty included), value and mix of typed and untyped endpoints; every schedule of ranks and threads, every delay, overtaking, rendezvous and fragmentation of the messages in flight, between nodes of like and unlike architecture",
 "Tests pack and unpack a single value at the same rank and type; messages of several elements and mixed views are never exercised.",
 [U+"codegen/mpi.rs",U+"codegen/storage_types.rs",U+"codegen/quantity_type.rs"],
 [("DATATYPE","lazily created, process wide MPI datatype per storage type",U+"codegen/mpi.rs")],
 [("Equivalence impls",U+"codegen/mpi.rs"),("transparent representation",U+"codegen/quantity_type.rs")],
 ["mpi Buffer/Equivalence of quantities"])
p("C10","Quantities stored in HDF5 files survive faults and restarts",
 "Datasets and attributes of quantities, arrays and structures of them are, in every history of creating, writing, partially overwriting, reading, resizing, flushing and reopening, what they would be if they held the plain storage type: the type stored in the file is that of the storage type, the values read are bit for bit those written, whether written or read as quantities or as plain values and by whichever unit system, in the same process, in another thread or after a restart; each operation fails or succeeds as it would with plain values. This includes histories in which the process is killed at any point or the disk delays, shortens, tears, refuses or loses what is written: nothing is lost, misread or reported as good that would not be with plain values.",
 ["inputs","crash_points","fault_sequences","schedules"],"every storage type and composition of it, shape (empty included), layout, filter, value, selection and history; every crash point and every short, interrupted, torn, failing or lost read or write of the file, full disks and held locks; every schedule of threads with files of their own",
 "There is no test of the HDF5 support at all.",
 [U+"codegen/hdf5.rs",U+"codegen/storage_types.rs",U+"codegen/quantity_type.rs"],
 [],[("H5Type impls",U+"codegen/hdf5.rs"),("transparent representation",U+"codegen/quantity_type.rs")],
 ["hdf5 datasets and attributes of quantities"])
p("C11","Concurrent and abandoned uses do not disturb each other",
 "Any number of callers that format, serialise, deserialise, sample and convert quantities at the same time, from any threads, nested inside each other's callbacks, or abandoned half way by an error or a panic in a callback, each get exactly the result they would have got alone.",
 ["schedules","fault_sequences","histories"],"every interleaving of callers at every callback into their sinks, sources, storages and formats; every abandonment point; every nesting",
 "All tests are single-threaded, run to completion and never nest.",
 [U+"codegen/debug_trait.rs",U+"codegen/serde.rs",U+"codegen/rand.rs",L+"runtime_unit_storage.rs",L+"magnitude.rs"],
 [("(none intended)","the generated code keeps no shared state apart from the MPI datatypes",U+"codegen/")],
 [("statelessness: unit tables are constants, samplers are values",U+"codegen/debug_trait.rs")],
 ["every run-time entry point that calls back into user code"])
p("C12","Dimensional errors do not compile",
 "A program that adds, subtracts, compares, assigns, passes or converts quantities of different dimensions is rejected by the compiler, and one whose dimensions agree is accepted.",
 ["programs"],"every program using the library",
 "trybuild fixtures sample a dozen programs.",
 [U+"codegen/num_traits/operator_trait.rs",U+"codegen/quantity_type.rs",U+"codegen/float_methods.rs"],[],
 [("dimension as const generic parameter",U+"codegen/quantity_type.rs")],["compiler verdict"])
p("C13","Unit conversion is exact up to rounding",
 "Creating a quantity with a unit and reading it in another unit of the same dimension gives value times the ratio of the unit magnitudes, up to floating-point rounding, for every storage type, unit, product or quotient of units and order of operands.",
 ["inputs"],"every value, unit pair and storage type",
 "Tests check a few dozen conversions.",
 [U+"codegen/unit_type.rs",L+"magnitude.rs",U+"codegen/quantity_type.rs"],[],
 [("Unit::new, value_in, unit operators",U+"codegen/unit_type.rs")],["values"])
p("C14","Arithmetic agrees with the underlying storage",
 "Every operator, comparison, assignment operator, sum and mathematical method on quantities computes exactly what the same operation computes on the stored values in base units, and the dimension of the result is the one the operation implies.",
 ["inputs"],"every operand, storage type and operation",
 "Tests sample a few values per operator.",
 [U+"codegen/num_traits/operator_trait.rs",U+"codegen/float_methods.rs",U+"codegen/vector_methods.rs",U+"codegen/generic_methods.rs"],[],
 [("delegating impls",U+"codegen/num_traits/operator_trait.rs")],["values"])
p("C15","The shipped SI system states the true values",
 "Each unit and constant of the predefined SI system has its internationally defined magnitude, dimension and symbol.",
 ["inputs"],"every entry of the predefined system",
 "Tests check a few entries.",
 ["src/si.rs"],[],[("the table itself","src/si.rs")],["diman::si"])
p("C16","Reduced feature sets behave like the full one",
 "With every supported combination of features, including no_std, the operations that exist compute the same results as with all features.",
 ["configurations"],"every feature combination",
 "CI builds five combinations.",
 ["Cargo.toml",L+"lib.rs",L+"magnitude.rs",L+"dimension_exponent.rs"],[],
 [("cfg gates",L+"lib.rs")],["values"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
