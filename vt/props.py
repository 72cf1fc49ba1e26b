"""The properties of veeg/disir-c: source of properties.jsonl and MANIFEST.json (vt/mk.py)."""
GEN = "Pre-states are symbolic (ASSUME statements are the preconditions, listed in the evidence); libc allocation/formatting/number parsing and logging are assumed as modelled in c/stubs.c; units labelled bounded hold up to the stated bound."
PROPS = [
dict(id="P01", title="Typed values round-trip and type mismatches change nothing",
 statement="A value of a given type that is accepted by a set call on a config keyval (or on a mold default) is returned bit for bit by the matching get call, text being the caller's bytes copied into storage of its own with its exact size. A set or get of another type on a finalized keyval or default is refused with WRONG_VALUE_TYPE (on a keyval whose root is a mold, or a context without values, with WRONG_CONTEXT) and leaves the stored value and the caller's output untouched; NULL contexts and NULL outputs are refused with INVALID_ARGUMENT. A keyval under construction that is given values of several types in any order stores the last one, without losing, leaking or double freeing text storage.",
 over=["inputs", "histories"], all="every int64, every double including NaN and infinities, every boolean byte, every text and size, every prior content and type of the value, and sequences of sets of mixed type",
 why="The tests set a handful of values in one order; aliasing of input and stored text, shrinking and growing texts, representation changes between number and text and allocation failures are never reached.",
 files=["lib/util.c", "lib/context_value.c", "lib/include/value.h", "include/disir/context/value.h"],
 mech=[("typed setters and getters", "lib/util.c"), ("context level guards", "lib/context_value.c")],
 observe=["dc_set_value_* / dc_get_value_* on keyval and default contexts"],
 note="Scalar setters/getters and the text setter are under enforced contracts with frame conditions for all inputs (text sizes up to 2^31-2, symbolic witness byte); the public functions are checked against them on symbolic contexts; call sequences and public text calls are bounded. " + GEN),
dict(id="P02", title="Value comparison is a true order and copies compare equal",
 statement="Comparing two stored values reports equality exactly when both have the same type and the same content; values of different types never compare equal. For two numbers of the same type (NaN excluded) the sign of the comparison is that of their numerical order over the whole range, and comparison of texts is antisymmetric and transitive. Copying a value into a compatible one makes the two compare equal and leaves the source unchanged, the copied text having its own storage; copying into an incompatible type is refused with WRONG_VALUE_TYPE and changes nothing.",
 over=["inputs"], all="all pairs and triples of values of every type, including extreme integers, huge and tiny doubles, negative zero and empty texts",
 why="The tests compare a few small values; differences that overflow or truncate only show for far apart values.",
 files=["lib/util.c"], mech=[("dx_value_compare", "lib/util.c"), ("dx_value_copy", "lib/util.c")], observe=["disir_compare, disir_update_config, dc_compare"],
 note="Numbers: enforced contract over the full range. Texts: bounded to 6 bytes. " + GEN),
dict(id="P03", title="Value text is bounded, terminated and reports its full size",
 statement="Getting any config keyval's value as text into a buffer of n bytes never writes beyond n bytes, always terminates the text inside the buffer, writes as much of the text as fits and reports the size of the whole text, without modifying the value. The text of a string or enum is its bytes, of a boolean True or False, of an integer its decimal digits. Setting a boolean from text accepts exactly texts starting with 0, f, F (false) or 1, t, T (true); a text that is refused, and a NULL text, give INVALID_ARGUMENT and leave the value unchanged.",
 over=["inputs"], all="all values of all types, all buffer sizes from 1 up, all texts",
 why="The tests use buffers that are large enough; off by one truncation and reporting errors only show at exact sizes.",
 files=["lib/util.c", "lib/context_value.c"], mech=[("dx_value_stringify", "lib/util.c"), ("dc_get_value / dc_set_value", "lib/context_value.c")], observe=["dc_get_value", "dc_set_value"],
 note="Text values: proved for any text and any buffer size; the public call and numbers: buffers up to 24 bytes (bounded). The digits printed for a double are snprintf's and assumed. " + GEN),
dict(id="P04", title="Versions are totally ordered and survive text conversion",
 statement="Version comparison is the lexicographic order on (major, minor) for all 32 bit components: it is antisymmetric, transitive and zero exactly for equal versions. Formatting a version gives major.minor, NULL exactly when the buffer is too small (nothing is ever written beyond it), and converting that text gives the same version back. Conversion accepts exactly texts that begin with number.number with both numbers below 2^32 (a sign is refused), stores exactly those numbers, and refuses everything else and NULL with INVALID_ARGUMENT.",
 over=["inputs"], all="all pairs and triples of versions, all buffer sizes, all texts",
 why="The tests use single digit versions; overflow in the comparison, truncation in the conversion and off by one buffer sizes need specific extreme values.",
 files=["lib/util.c", "include/disir/version.h"], mech=[("dc_version_compare, dc_version_set, dc_version_string, dc_version_convert", "lib/util.c")], observe=["dc_version_*"],
 note="Comparison and copy: enforced contracts over all inputs; formatting: all versions, buffers 0..24 (23 bytes always suffice, so complete); conversion: texts of up to 5 symbols, a symbol being any character or a whole number of any value. " + GEN),
dict(id="P05", title="A keyval's default is the one active at the requested version",
 statement="The defaults of a mold keyval form a list ordered by the version they were introduced at, whatever order they are added in; adding a default keeps every other one in place. The default active at a version is the newest one introduced at or before it, the oldest one when all are newer, and the newest one when no version is given; dc_get_default writes its text, dc_keyval_set_default copies its value into the config keyval (own storage) and dc_get_default_contexts lists all of them in order. A second default for a version already taken is refused with CONFLICTING_SEMVER by a finalized keyval (and is not part of it) and gives INVALID_CONTEXT on one under construction. dc_add_default_* stores the given value with the given version (1.0 without one) and raises the mold's version to cover it. A keyval without defaults or without mold entry is reported (DEFAULT_MISSING, MOLD_MISSING), never dereferenced, and refused calls change and write nothing.",
 over=["inputs", "histories"], all="every list of defaults with any 32 bit versions, every order of insertion, every queried version",
 why="The tests add two or three defaults with small versions in one order and query a few versions.",
 files=["lib/context_default.c", "lib/context_keyval.c", "lib/validate.c", "lib/include/mqueue.h"],
 mech=[("dx_default_get_active, dx_default_finalize, dc_add_default*", "lib/context_default.c"), ("dc_keyval_set_default", "lib/context_keyval.c"), ("validate DEFAULT", "lib/validate.c")],
 observe=["dc_get_default", "dc_keyval_set_default", "disir_generate_config_from_mold", "disir_update_config"],
 note="Lookup and ordered insertion: proved for lists of any length with loop invariants over the real loops; the public calls: lists of up to 4 defaults (bounded). " + GEN),
dict(id="P08", title="Collections return every living entry exactly once, in order",
 statement="A collection holds contexts in the order they were pushed and keeps one reference on each. Its size is the number of entries that have not been destroyed; iterating returns each living entry once, in order, with a reference for the caller, whatever entries are destroyed between the calls, and then EXHAUSTED with the output set to NULL. Pushing keeps all earlier entries and the position of the iterator, growing the storage as needed, and on lack of memory changes nothing. Resetting starts over. References on destroyed entries are released exactly once and finishing releases everything. NULL is refused with INVALID_ARGUMENT.",
 over=["inputs", "histories"], all="every pattern of destroyed entries and position of the iterator",
 why="The tests iterate full collections; destroying entries on both sides of the iterator and exact capacity limits are not reached.",
 files=["lib/collection.c", "lib/context_util.c"], mech=[("dc_collection_*, dx_collection_coalesce", "lib/collection.c")], observe=["dc_collection_*", "dc_get_elements, dc_find_elements, dc_get_default_contexts"],
 note="Bounded: collections of up to 4 entries. Every reachable state of that size is a symbolic pre-state, so sequences of calls of any length are covered step by step. " + GEN),
dict(id="P28", title="Introduced, deprecated and mold versions are kept exactly and aggregated",
 statement="An introduced version given to a section, default, restriction or documentation of a mold, and a deprecated version given to a keyval, section or restriction of a mold, is stored in full and read back unchanged; for every other kind of context, and for contexts of a config, adding is refused and reading gives WRONG_CONTEXT. No call changes any other version, and a refused call changes none and writes no output. Molds and configs report their own version (every other context gives WRONG_CONTEXT); a config's version can be set exactly up to the version of its mold, a higher one being refused with CONFLICTING_SEMVER. Finalizing an element that is accepted raises the mold's version to its introduced and deprecated version when they are higher, and never lowers it; a new mold or config starts at 1.0. NULL is refused with INVALID_ARGUMENT.",
 over=["inputs"], all="every 32 bit version, every kind of context in a mold and in a config, every prior version",
 why="The tests use small versions on a few contexts; a version written to a neighbouring field, lost on one kind of context or compared by one component only needs specific values.",
 files=["lib/context.c", "lib/context_mold.c", "lib/context_config.c"], mech=[("dc_add_introduced, dc_add_deprecated, dc_get_introduced, dc_get_deprecated, dc_get_version, dc_set_version, dc_finalize", "lib/context.c"), ("dx_mold_update_version", "lib/context_mold.c")],
 observe=["dc_get_introduced", "dc_get_deprecated", "dc_get_version", "dc_mold_get_version", "dc_config_get_version"],
 note="Loop free code checked on all versions for each kind of context, hence proved; the type specific finalizers are under contract (any status, no effect on versions). " + GEN),
dict(id="P26", title="Error messages are stored whole and copied without overflow",
 statement="The message set on an instance or a context is the formatted text in full, in storage of its own, whatever message was there before; an empty text, a NULL argument or lack of memory leaves the former message whole. disir_error and dc_context_error return exactly that message, disir_error_clear removes and releases it and leaves the instance ready for the next one, and NULL is returned when there is none. disir_error_copy writes at most the given number of bytes, always terminated: the whole message when it fits, otherwise as much as fits ending in three dots with INSUFFICIENT_RESOURCES (nothing at all into fewer than 4 bytes), and always reports the size of the whole message. Moving a message from one context to another gives up and releases the replaced one and leaves none behind; a fatal error can only be set on a context under construction.",
 over=["inputs", "histories"], all="every text of any length, every previous message and storage size, every buffer size, every allocation failure",
 why="The tests never call disir_error_copy and set few messages; sequences of longer and shorter messages, exact buffer sizes and allocation failure are not reached.",
 files=["lib/log.c", "lib/error.c", "lib/context_util.c"], mech=[("dx_internal_log_to_storage, dx_context_error_set, dx_log_disir", "lib/log.c"), ("disir_error_*", "lib/error.c"), ("dx_context_transfer_logwarn, dc_context_error, dc_fatal_error", "lib/context_util.c")],
 observe=["disir_error", "disir_error_copy", "dc_context_error"],
 note="Proved for texts and buffers of any size below 2^31 (contract of vsnprintf on a witness byte). " + GEN),
dict(id="P06", title="Value restrictions decide exactly which values are accepted",
 statement="A value for an integer or float keyval of a config is allowed exactly when at least one of the value restrictions of its mold keyval that are active (introduced at or before the config's version and not yet deprecated) allows it - a range its closed interval, a numeric its number - or none is active; an enum value is allowed exactly when it equals the text of an active enum restriction. Setting a value that is not allowed on a finalized keyval gives RESTRICTION_VIOLATED and keeps the former value; on a keyval under construction it is stored, INVALID_CONTEXT is returned and the keyval is marked invalid. An enum value is the given number of bytes, whatever follows them. Values of molds, strings and booleans are not restricted by value. A value restriction can only be given to a keyval of a mold whose type it goes with (range and numeric: integer or float, enum: enum), entry restrictions to keyvals and sections; its type cannot change once finalized, and its range, number or text is read back as set (without the fraction on integer keyvals). An added restriction is the last of its element with the given version (1.0 without one) and raises the mold's version to cover it; a refused one, such as a second entry restriction of the same kind for the same version, leaves nothing behind. NULL and other contexts are refused.",
 over=["inputs", "histories"], all="every list of restrictions of any length with any bounds and versions, every int64, double and text, every version of the config",
 why="The tests set a few values against one or two restrictions at version 1.0; limits at the end of the integer range, several overlapping restrictions, restrictions introduced or deprecated at other versions and unterminated enum texts are not reached.",
 files=["lib/context_restriction.c", "lib/context_value.c", "lib/validate.c"],
 mech=[("dx_restriction_exclusive_value_check, dc_set_restriction_type, dc_restriction_set_*/get_*, dc_add_restriction_*", "lib/context_restriction.c"), ("dc_set_value_integer, dc_set_value_float, dc_set_value_enum", "lib/context_value.c"), ("validate_exclusive_restrictions, validate_restriction", "lib/validate.c")],
 observe=["dc_set_value_integer / float / enum", "dc_add_restriction_*", "dc_context_valid"],
 note="The decision over the list of restrictions: proved for lists of any length with loop invariants over the real loop (numbers; enum texts up to 3 bytes). The set calls, validation and the accessors: proved on all values against the contract of the decision. Adding: bounded to one former restriction. " + GEN),
dict(id="P07", title="The number of elements allowed follows the entry restrictions of the version",
 statement="How many elements of a name a config or section of a config may hold follows the newest entry restriction of each kind that its mold element has at the asked version (that of the config, of the mold, or one given): at least one and at most one without any; a maximum below the minimum is raised to it, and a maximum of zero means no limit. An element not yet introduced or already deprecated at the version needs none and may not occur (maximum -1). A config or section is in violation of restrictions, and marked invalid, exactly when for some element of its mold counterpart it holds fewer than the minimum, more than a positive maximum, or any of one that may not occur. Naming, or finalizing, one more element under a finalized parent is refused with RESTRICTION_VIOLATED exactly when the parent holds the maximum already, and a refused name is not stored. A config element's name is the given number of bytes, looked up in the parent's counterpart: an unknown name gives NOT_EXIST and marks the element invalid, the name of another kind of element gives WRONG_CONTEXT; an element its parent holds cannot be renamed.",
 over=["inputs", "histories"], all="every list of entry restrictions and defaults of any length with any versions and non-negative bounds, every version asked for, every number of elements of any number of names",
 why="The tests use one restriction at version 1.0; several restrictions at other versions, deprecated elements, equal and extreme bounds and many kinds of element are not reached.",
 files=["lib/context_restriction.c", "lib/validate.c", "lib/context.c"],
 mech=[("dx_restriction_entries_value, dc_restriction_entries_minimum/maximum", "lib/context_restriction.c"), ("validate_inclusive_restrictions, validate_finalized_parent_constructing_child_violating_max_restriction", "lib/validate.c"), ("dc_set_name, dx_set_mold_equiv", "lib/context.c")],
 observe=["dc_restriction_entries_minimum / maximum", "dc_finalize, dc_context_valid", "dc_set_name"],
 note="The limits: proved for lists of any length with loop invariants over the real loops. The validation: proved for any number of kinds of element with an invariant, against the contracts of collections and element storage. Naming: bounded to names of 3 bytes. Negative bounds of entry restrictions are outside the statement. " + GEN),
dict(id="P09", title="A config, mold or section finds each element by name, index and in order",
 statement="A config, mold or section holds each element added to it once, with one reference, whatever the names (different names with the same hash included) and however many: dc_get_elements lists all of them in the order they were added; dc_find_elements lists exactly those with the name in that order, NOT_EXIST if there are none; dc_find_element gives, with a reference, the one at the index among those, NOT_EXIST if there are not so many. Adding an element that is held gives EXISTS and changes nothing; removing one removes it only and keeps the others in their order; an unknown one changes nothing. When memory runs out, adding or listing is refused, leaks nothing and leaves what is held as it was; growing the map loses nothing. dc_resolve_root_name gives the names from the outermost section to the element separated by dots, each followed by @ and its position among its parent's elements of the same name unless it is the first (an element its parent does not hold is positioned after them). NULL is refused with INVALID_ARGUMENT, contexts that hold no elements (or have no name) with WRONG_CONTEXT.",
 over=["inputs", "histories", "faults"], all="every operation on every layout of map and list (collisions, chains, growth), every failing allocation, every index and number of elements of a name",
 why="Tests use a handful of names in one order; equal hashes, chains, growth of the map, removal in the middle and lack of memory are not reached.",
 files=["3rdparty/void-multimap/multimap.c", "3rdparty/void-list/list.c", "3rdparty/void-list/list_iterator.c", "lib/element_storage.c", "lib/context.c"],
 mech=[("multimap_push_value, multimap_remove_value, multimap_fetch", "3rdparty/void-multimap/multimap.c"), ("list_rpush, list_remove", "3rdparty/void-list/list.c"), ("dx_element_storage_add / remove / get / get_all", "lib/element_storage.c"), ("dc_get_elements, dc_find_elements, dc_find_element, dc_resolve_root_name", "lib/context.c")],
 observe=["dc_get_elements", "dc_find_elements", "dc_find_element", "dc_resolve_root_name", "dc_finalize, dc_destroy of elements"],
 note="dc_find_element is proved for any index and number of elements with a loop invariant against the contracts of find and collection; dc_find_elements/dc_get_elements and the append of the list are proved. The map (up to 3 keys of up to 3 values, 2 to 16 buckets, growth included), the list (up to 4 values), the element storage over both (up to 4 elements, names of up to 2 bytes with a full hash collision) and the name (up to 3 levels) are bounded. " + GEN),
dict(id="P13", title="Calls refuse contexts and arguments they cannot work on and change nothing",
 statement="Every public dc_* function that takes a context refuses a NULL context with INVALID_ARGUMENT, a destroyed one with DESTROYED_CONTEXT, one of no known kind with CONTEXT_IN_WRONG_STATE, and a context of a kind it is not for with WRONG_CONTEXT (adding documentation where none belongs: NO_CAN_DO; beginning a context of no known kind: INVALID_ARGUMENT). A NULL pointer for a required argument is refused with INVALID_ARGUMENT. A call that is refused this way changes no context, gives out nothing, leaves nothing allocated, reads nothing invalid and never aborts the process; destroying or putting a context that is already destroyed only gives up the reference. The internal kind check is OK exactly when the context is of one of the kinds listed, WRONG_CONTEXT for another kind. The names of the kinds and value types are the documented ones; dc_value_type gives the type a keyval, default or restriction was set to, dc_set_value_type sets it where it may be set and refuses everything else.",
 over=["inputs", "histories"], all="every public function on every kind and state of context it is not for, and every NULL argument",
 why="Tests try a few wrong calls; the guards of every function against every kind of context are not enumerated, and a missing one reads the wrong member of a union.",
 files=["lib/context.c", "lib/context_util.c", "lib/context_keyval.c", "lib/context_default.c", "lib/context_restriction.c", "lib/context_documentation.c", "lib/context_mold.c", "lib/context_config.c", "lib/context_section.c", "lib/query.c", "lib/collection.c"],
 mech=[("CONTEXT_NULL_INVALID_TYPE_CHECK, CONTEXT_TYPE_CHECK", "lib/include/context_private.h"), ("dx_context_sp_full_check_log_error, dx_context_dp_full_check_log_error, dx_context_type_check_log_error", "lib/context_util.c"), ("the checks at the head of every public function", "lib/context.c")],
 observe=["the status returned", "the contexts afterwards", "live allocations"],
 note="Loop free or over the fixed list of kinds: proved for every kind of context; the list handed to the internal check is of up to five kinds (the library uses up to four). " + GEN),
dict(id="P12", title="A query leads to exactly the element it names; setting by it is all or nothing",
 statement="A query is printed like printf (one that does not fit 2048 bytes gives INSUFFICIENT_RESOURCES) and read step by step: name, optionally @ and a decimal index within int range (0 if absent), a dot before the next step; anything else (missing name or index, sign, space, trailing characters, index out of range) is INVALID_ARGUMENT, and no buffer is written beyond its size. dc_query_resolve_context follows the steps from the given config, mold or section, each in the element of the one before, and gives the last element with one reference; at the first step that fails it returns that step's status, gives nothing and holds nothing. disir_config_get_keyval_* and dc_config_get_keyval_* give the value of that element if it has the type asked for. disir_config_set_keyval_* and dc_config_set_keyval_* set it if it exists; if not, it is made, with the sections leading to it, exactly when each missing one is the next index of its name, known to the mold as a section (the last as a keyval of this type), and within its maximum. A refused set destroys, once, whatever it made; nothing is left held or allocated. NULL is refused.",
 over=["inputs", "histories", "faults"], all="every query text and index, every combination of existing and missing steps, and every failing inner call",
 why="Tests use well formed queries; odd indexes, failures after some sections were made and lack of memory are not reached.",
 files=["lib/query.c", "lib/disir_config_query.c"],
 mech=[("dx_query_resolve_name, query_resolve_name_to_context, dc_query_resolve_context(_va)", "lib/query.c"), ("dx_query_ensure_ancestors", "lib/query.c"), ("config_get_keyval_generic, config_set_keyval_generic, config_ensure_keyval_leaf", "lib/disir_config_query.c")],
 observe=["dc_query_resolve_context", "disir_config_get_keyval_*, disir_config_set_keyval_*", "dc_config_get_keyval_*, dc_config_set_keyval_*", "leaks after a refused set"],
 note="Getting and setting (every status of every callee) are proved; the text of one step (up to 5 bytes and listed numbers), the walk (up to 4 steps, any printed text) and the making of sections (up to 3 steps, any index, count and maximum, every failing callee) are bounded. " + GEN),
dict(id="P14", title="A config or mold is valid exactly when it keeps every rule of its mold",
 statement="An element of a finished config is valid exactly when its mold knows it, its value has the type of the mold's keyval, its value keeps the value restrictions of the version, and its parent does not hold more elements of the name than the version allows; a config or section is valid exactly when every child is, and when each element of the mold is present at least its minimum and at most its maximum number of times at the config's version; a mold element's name consists of a to z, 0 to 9 and underscore, and a restriction is of a form its parent and type allow. disir_config_valid and disir_mold_valid answer OK exactly when neither the object nor anything in it, however deep, is marked invalid, and list every invalid context exactly once; a failure on the way is reported. Finalizing puts an element in its parent exactly when it is valid or invalid only by what it breaks while its parent is still under construction; nothing invalid enters a finished parent. What is refused stays under construction with its owner; an invalid context that entered its parent is handed back marked invalid with a reference of the caller's own. dc_config_finalize and dc_mold_finalize give out the object with the validity found, or leave everything as it was. No reference or collection is kept by any of this.",
 over=["inputs", "histories"], all="every number of children, every count, minimum and maximum, every type and restriction outcome, every state of element and parent, and every failing inner call",
 why="Tests finalize a handful of valid and invalid elements; combinations of counts, versions, parents' states and failing calls are not sampled, and a lost status makes an invalid config pass as valid.",
 files=["lib/validate.c", "lib/disir_config.c", "lib/disir_mold.c", "lib/context.c", "lib/context_keyval.c", "lib/context_section.c", "lib/context_config.c", "lib/context_mold.c"],
 mech=[("validate_context_validity and the rules under it", "lib/validate.c"), ("dx_invalid_elements, dx_validate_context", "lib/validate.c"), ("dc_finalize, dx_keyval_finalize, dx_section_finalize, dc_config_finalize, dc_mold_finalize", "lib/context.c")],
 observe=["disir_config_valid, disir_mold_valid, dc_context_valid", "the status of dc_finalize, dc_config_finalize, dc_mold_finalize", "the elements of the parent"],
 note="The rules, marking and finishing are loop free: proved for every context; the loops over children, mold elements and names hold up to the stated bounds. Value restrictions and element limits themselves are P06 and P07. " + GEN),
dict(id="P16", title="A generated config holds every element its mold requires, with its default",
 statement="disir_generate_config_from_mold gives a config of the requested version (the mold's own when none is requested) in which every keyval and section of the mold occurs in its place, under the mold's name, exactly as often as the minimum number of entries at that version asks; every keyval carries the value of its default active at that version and sections are filled in the same way. dc_generate_from_config_root fills a config or section likewise. Any failure on the way is reported, leaves no reference, collection or unfinished element behind, and destroys the config that was being made; only a finished config is handed out, an invalid one with INVALID_CONTEXT.",
 over=["inputs", "faults"], all="every version, every minimum and every inner call failing",
 why="Tests generate from a few molds on which nothing fails; the loops over minima, nested sections and failing inner calls are not sampled.",
 files=["lib/generate.c"],
 mech=[("generate_config_from_mold_recursive_step", "lib/generate.c"), ("disir_generate_config_from_mold, dc_generate_from_config_root", "lib/generate.c")],
 observe=["the config handed out", "the status", "references and contexts left over"],
 note="Bounded: a mold with a keyval and a section holding a keyval, five sets of minima from 0 to 2, every inner call failing in turn. Callees are held to their contracts (P05 default active, P07 minima, P12/P13 begin and name, P14 finalize). " + GEN),
dict(id="P20", title="Comparing contexts is OK exactly when they hold the same",
 statement="dc_compare answers OK exactly when both contexts are of the same kind and hold the same: keyvals of the same type with equal values, sections, configs and molds with the same names and for each name the same number of elements, pairwise equal in order; in a mold also equal defaults, restrictions and documentation in number, order, versions, types and values. Otherwise it answers CONFLICT, and the report, if asked for, lists every difference found with its whole text; when equal there is no report. A failure of a part is reported as that failure, NULL contexts are refused with INVALID_ARGUMENT, and no reference, collection or report is kept behind.",
 over=["inputs", "histories"], all="every pair of contexts of every kind, every queue and every failing inner call",
 why="Tests compare a few hand made pairs; a part that is skipped or compared only at its head makes different molds look equal, which no sample shows.",
 files=["lib/compare.c"],
 mech=[("diff_compare_contexts_with_report", "lib/compare.c"), ("compare_default_queues, compare_documentation_queues, compare_restriction_queue", "lib/compare.c"), ("compare_all_elements, compare_all_in_name", "lib/compare.c"), ("dx_diff_report_add", "lib/compare.c")],
 observe=["the status of dc_compare", "the report"],
 note="What is compared for each kind and what dc_compare answers: proved; queues and elements up to three on each side. Memory suffices for the report (a difference that cannot be recorded is only logged). Equality of values is P02. " + GEN),
dict(id="P22", title="Plugins of a group act as one store, in order of registration",
 statement="Reading a config or mold entry of a group asks the group's plugins in order of registration and reads from the first one that says the entry exists, giving that plugin's status; NOT_EXIST is answered when none has it and NO_CAN_DO when the one that has it cannot read. Querying answers EXISTS exactly when some plugin of the group has the entry. Writing and removing is done by the first plugin of the group, once, with the caller's arguments: NO_CAN_DO when it lacks the operation, NOT_EXIST when the group has no plugin, FS_ERROR for a namespace (an entry id ending in a slash; configs only). Listing entries gives every name once, as the first plugin that provides it has it, in order, whatever other plugins fail, releases what is superseded and answers OK. No plugin of another group is ever involved, NULL arguments are refused without any effect, and a refused call leaves a message on the instance. Registering copies the plugin's texts and appends it, or leaves nothing behind and gives NO_MEMORY; the list of registered plugins has one item for each, in order. Releasing an entry keeps the rest of its list linked.",
 over=["inputs", "histories", "faults"], all="every set of plugins, groups and available operations, every answer of every plugin, every list of entries and every failing allocation",
 why="The tests register one working plugin per group; several plugins sharing a group, missing operations, failing plugins, superseded entries behind new ones and lack of memory are not reached.",
 files=["lib/disir_config.c", "lib/disir_mold.c", "lib/disir_plugin.c", "lib/disir_entry.c"],
 mech=[("disir_config_read/write/remove/query/entries", "lib/disir_config.c"), ("disir_mold_read/write/query/entries", "lib/disir_mold.c"), ("disir_plugin_register, disir_plugin_registered", "lib/disir_plugin.c"), ("disir_entry_finished", "lib/disir_entry.c")],
 observe=["which plugin callback is called with what", "the status and output", "the error of the instance", "the list of entries"],
 note="Bounded: up to 3 plugins with arbitrary groups, operations and answers; lists of up to 4 entries. Plugin callbacks are assumed to keep their contract (plugin.h); the map of names is P09. " + GEN),
dict(id="P11", title="Updating a config keeps the user's values and takes new defaults",
 statement="disir_update_config refuses NULL, a target older than the config (CONFLICTING_SEMVER) and one of the same version (NO_CAN_DO), without any effect. Otherwise a config of the target version is generated from the mold and every keyval of the old config, however deep, is looked at once, in order. A value is replaced by the default of the target exactly when that default was introduced after the config's version and the value was the default at the config's version; a value that differs from both is a CONFLICT; every other value is kept. The value each keyval then has is carried over to the target config with its type. A conflict gives the name and both values whole, stays (disir_update_continue answers CONFLICT) until disir_update_resolve gives the target config a value it accepts, and a resolution that fails leaves the conflict. When no keyval is left the answer is OK and the config has the target version, not earlier. A failure is reported; disir_update_finished hands out or destroys the target and releases everything held. An update carried through (dx_update_config_with_changes) resolves each conflict with the config's value, with the mold's value only where the former is not allowed and that was asked for, and then replaces the caller's config; on failure the caller keeps the old one.",
 over=["inputs", "histories", "faults"], all="every config, mold and pair of versions, every sequence of resolutions and every failing call or allocation",
 why="The tests update a few configs of flat keyvals; sections in front of keyvals, long texts, refused resolutions, failures in between and what the target config holds afterwards are not looked at.",
 files=["lib/update.c"],
 mech=[("disir_update_config/continue/conflict/resolve/finished", "lib/update.c"), ("dx_update_config_with_changes", "lib/update.c")],
 observe=["statuses", "the values given to the target config", "the texts of a conflict", "the version of the config", "allocations and references"],
 note="Bounded: keyvals in up to 2 nested sections, 2 keyvals with every combination of kinds of default (none, old, new equal, new untouched, new conflicting), fixed versions for those, and every call or allocation failing in turn. The functions called are their contracts (P01, P02, P05, P06, P08, P12, P16). " + GEN),
dict(id="P17", title="Serialising and parsing a config or mold is lossless",
 statement="Writing a valid config or mold with any of the shipped formats and reading the text back gives an entry with the same names, types, values, versions, documentation and structure.",
 over=["inputs", "programs"], all="every valid config and mold", why="Tests write and read a few fixtures.",
 files=["lib/json", "lib/fslib", "plugins"], mech=[("JSON and TOML readers and writers", "lib")],
 na="the readers and writers are C++ (jsoncpp, std::string, exceptions, templates): no deductive verifier here accepts C++ (CBMC's C++ front end does not parse libstdc++), and a rewritten look-alike would be a model"),
dict(id="P18", title="Archive export and import preserve every entry",
 statement="Exporting entries to an archive and importing it elsewhere gives back every entry with its content and version.",
 over=["inputs", "configurations"], all="every set of entries and archive", why="Tests use one fixture archive.",
 files=["lib/archive.cc", "lib/export.cc"], mech=[("archive writer and reader", "lib")],
 na="implemented in C++ over std::map, std::filesystem-like helpers and libarchive: outside the input language of every deductive verifier installed here"),
]
