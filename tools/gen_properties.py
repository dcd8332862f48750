#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that it stays valid JSON and reviewable)."""
import json, os
R='include/field_read/'; W='include/field_write/'
P=[]
def p(id,title,statement,over,text,why,files,mech,observe):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None)))
API=["struct_cast_le/be result and stream position","stream_cast_le/be result and stream content"]
p("C01","Round trip: what is written reads back as the same struct",
  "For every schema and every struct whose containers are within their read ceilings, if stream_cast in a byte order succeeds then struct_cast in that order over exactly the bytes written succeeds, consumes all of them, and yields the same value for every field the caller supplied, while length, discriminant and frozen fields hold the values that went on the wire. Conversely, every byte string struct_cast accepts is reproduced byte for byte by writing the parsed struct back.",
  ["inputs","programs"],"every schema, every assignment of its fields (including stale contents of slots the library fills in itself), both byte orders",
  "Tests round-trip a handful of hand-written structs; combinations of descriptor kinds, stale slots, narrow widths and both orders are unsampled.",
  ["include/cast/struct_cast_impl.hpp","include/cast/stream_cast_impl.hpp",R+"field_reader.hpp",W+"field_writer.hpp",W+"derived_value.hpp"],
  [("read fold","include/cast/struct_cast_impl.hpp"),("write fold","include/cast/stream_cast_impl.hpp"),("as_written view of siblings",W+"derived_value.hpp")],API)
p("C02","Write layout: fields in declaration order, exact widths, no padding",
  "The bytes a successful write appends are exactly the concatenation, in declaration order, of each field's encoding: a scalar in its declared width, arrays and strings element by element, a container's elements only, a nested record as its own layout, an absent optional as nothing and a union as its held alternative only. Nothing else is appended and nothing is padded.",
  ["inputs","programs"],"every writable struct of every schema, both byte orders",
  "Tests compare a few literal byte strings; layout must hold for all nestings and lengths.",
  [W+"write_impl.hpp",W+"field_writer.hpp","include/cast/stream_cast_impl.hpp"],
  [("write_impl",W+"write_impl.hpp"),("write_field specializations",W+"field_writer.hpp")],["bytes appended to the stream by stream_cast_le/be"])
p("C03","Read fidelity: every field decoded from its own bytes, no more consumed",
  "A successful read decodes each field, in declaration order, from exactly the bytes its schema position and the already decoded siblings give it, leaves the stream positioned right after the last field's last byte, and never looks at bytes beyond it. Containers hold exactly the number of elements their length says, with the element values of the wire.",
  ["inputs","programs"],"every schema and every input byte string, including trailing bytes",
  "Tests read fixed fixtures; fidelity is a statement over all byte strings and all nestings.",
  [R+"read_impl.hpp",R+"field_reader.hpp","include/field_size/field_size_deduce.hpp"],
  [("read_impl",R+"read_impl.hpp"),("deduce_field_size","include/field_size/field_size_deduce.hpp")],["parsed struct","stream position after struct_cast"])
p("C04","Byte order: reversed per scalar only, at the declared width",
  "For the same struct the big-endian encoding differs from the little-endian one only by reversing the bytes of each individual scalar, at its declared width and at every nesting depth (array, multi-dimensional array, vector, record, optional, union alternative); single-byte elements and strings are identical in both. Reading in an order inverts writing in that order, so the decoded number is the one the bytes denote in that order.",
  ["inputs","programs"],"every schema, every scalar type and declared width, both orders",
  "Tests cover a few element types in big-endian; narrow widths and nested aggregates in foreign order are unsampled.",
  ["include/stream/byte_order.hpp",R+"read_impl.hpp",W+"write_impl.hpp"],
  [("byteswap_elements / byteswap_scalar","include/stream/byte_order.hpp"),("read_foreign_*",R+"read_impl.hpp"),("write_foreign_*",W+"write_impl.hpp")],API)
p("C05","Truncated input: fails at the field that ran out, at every cut",
  "For every input that reads successfully, every strict prefix of the bytes it consumed fails with buffer_exhaustion naming the outermost field that owns the first missing byte, unless an earlier check on bytes still present already failed. No truncated input is ever accepted and none yields a struct.",
  ["inputs","fault_sequences"],"every schema, every accepted input, every cut position, every kind of stream",
  "Tests cut one or two files at one place; the claim is over every cut of every input.",
  [R+"read_impl.hpp","include/cast/struct_cast_impl.hpp"],
  [("health test after every stream access",R+"read_impl.hpp")],["struct_cast error and absence of a value"])
p("C06","Failed write leaves exactly the preceding encoding in the stream",
  "When a write fails, the bytes appended are exactly the encoding of everything that precedes the failing field in layout order (for a failure inside nested records, precedes the failing innermost field); every check of a field runs before its first byte. When the stream itself refuses bytes, what it took is a prefix of the full encoding and the result is buffer_exhaustion naming the field being written; a write that the stream refused is never reported as successful.",
  ["inputs","fault_sequences"],"every schema, every struct (valid or not), every position at which the stream starts refusing",
  "Tests check a few failures and rarely the stream content; refusal at every byte is not enumerated.",
  [W+"field_writer.hpp",W+"write_impl.hpp","include/cast/stream_cast_impl.hpp","include/error/cast_error.hpp"],
  [("check-before-write order",W+"field_writer.hpp"),("short-circuiting fold","include/error/cast_error.hpp")],["stream content after a failed stream_cast"])
p("C07","Constraints hold in both directions, wherever they are declared",
  "A value that violates the constraint declared for its field, record, union alternative or union is rejected with validation_failure by a read that decodes it and by a write that would emit it, and a value that satisfies all of them is never rejected on their account. A predefined comparison means the comparison of the numbers, whatever integer type its operand was spelled with (an equality with an operand the field's type cannot represent aside).",
  ["inputs","programs"],"every predefined constraint and user callable, at every position a schema admits one, every value on and around the boundary",
  "Tests check single values per constraint; boundaries, other operand types, nested and alternative positions are combinations.",
  ["include/field_validation/field_value_constraints.hpp","include/cast/struct_cast_impl.hpp","include/cast/stream_cast_impl.hpp",R+"field_reader.hpp",W+"field_writer.hpp"],
  [("constraint_checker in the folds","include/cast/struct_cast_impl.hpp"),("alternative's constraint",R+"field_reader.hpp")],API)
p("C08","Derived lengths: the slot on the wire is the container's size",
  "A field named by a top-level len_from_field is written as the element count of its container, whatever value its slot holds; the struct's slot is never consulted. If two containers share the slot and differ in size the write fails with found_contradicting_length, and if the count does not fit the slot's declared width or type, or violates its constraint, with validation_failure, both naming the length field before any of its bytes are emitted.",
  ["inputs","programs","histories"],"every container kind, slot type and width, shared slots, struct freshly built or re-written after a read and mutation",
  "Tests try one or two sizes per container; width limits, fan-out and stale slots multiply.",
  [W+"derived_value.hpp",W+"field_writer.hpp","include/field_list/field_list_metadata.hpp"],
  [("derive_value",W+"derived_value.hpp"),("length_derived_field_ids","include/field_list/field_list_metadata.hpp")],["bytes of the length slot","stream_cast error"])
p("C09","Conditional and computed lengths are verified, never silently wrong",
  "A length whose container sits inside an optional or a union alternative is written as supplied, and the write fails with found_contradicting_length at the length field exactly when that container is going to be written and its size differs; a computed size that disagrees with its container fails with found_contradicting_length at the container. A length inactive because its optional is absent or another alternative is held imposes nothing.",
  ["inputs","programs"],"every combination of presence, held alternative, supplied length and container size",
  "Tests sample one agreeing and one disagreeing case per shape.",
  [W+"derived_value.hpp",W+"field_writer.hpp"],
  [("verify_conditional_len",W+"derived_value.hpp"),("computed-size check",W+"field_writer.hpp")],["stream_cast error and content"])
p("C10","Discriminated unions: the tag and the alternative always correspond",
  "With match values the discriminant's type can represent, a read selects the alternative whose match value equals the decoded discriminant, and fails with type_deduction_failure at the union, consuming nothing of it, when none does. A write emits the match value of the alternative held, whatever the discriminant slot contains, so a discriminant on the wire always names the alternative that follows.",
  ["inputs","programs"],"every discriminant value, signed and unsigned, every declared width, every alternative kind",
  "Tests use a few tags; every non-matching value and every alternative kind is not sampled.",
  ["include/type_deduction/switch/switch_impl.hpp","include/type_deduction/type/type_impl.hpp",R+"field_reader.hpp",W+"derived_value.hpp"],
  [("evaluate_switch","include/type_deduction/switch/switch_impl.hpp"),("discriminant_obligation",W+"derived_value.hpp")],API)
p("C11","Predicate and computed unions: first matching branch, held one verified",
  "Where the alternative is chosen by an ordered list of predicates or a computed value, a read takes the first branch that holds (the case equal to the computed value) given the siblings on the wire, and fails with type_deduction_failure at the union when none does. A write evaluates the same choice over the values it puts on the wire and fails at the union with type_deduction_failure when none holds or validation_failure when the choice is not the alternative held; otherwise it emits the held alternative.",
  ["inputs","programs"],"every sibling valuation, overlapping and exhaustive ladders, every held alternative, siblings the library fills in itself",
  "Tests use disjoint predicates and matching alternatives; overlap, order and derived siblings are not sampled.",
  ["include/type_deduction/if_else_ladder/ladder_impl.hpp","include/type_deduction/type/type_impl.hpp",W+"field_writer.hpp"],
  [("evaluate_ladder","include/type_deduction/if_else_ladder/ladder_impl.hpp"),("held-alternative check",W+"field_writer.hpp")],API)
p("C12","Optional fields are on the wire exactly when their predicate holds",
  "A read engages an optional, and consumes its bytes, exactly when its predicate holds over the already decoded siblings; otherwise it is empty and no byte is consumed. A write fails with validation_failure at the optional when the predicate over the values being written disagrees with whether the struct holds it, and otherwise emits it exactly when it is held.",
  ["inputs","programs"],"every sibling valuation, every base kind (scalar, array, container, record), predicates over plain, optional, derived and frozen siblings",
  "Tests try present and absent once; predicates over filled-in siblings and chains of optionals are not sampled.",
  [R+"field_reader.hpp",W+"field_writer.hpp","include/field_compute/computation_from_fields_impl.hpp"],
  [("presence check",R+"field_reader.hpp"),("presence agreement",W+"field_writer.hpp")],API)
p("C13","A length off the wire never allocates beyond its ceiling",
  "A wire-driven container whose element count times in-memory element size exceeds its ceiling (declared max_bytes, otherwise the default of 16 MiB or the configured default) makes the read fail with excessive_length at that container before allocating for it and before consuming any of its bytes; a count exactly at the ceiling is accepted. No byte string makes one read request a single allocation above the largest ceiling its schema grants, and a write never reports excessive_length.",
  ["inputs","configurations"],"every length value including those whose byte count overflows, every container kind and position, every configured default",
  "Tests probe a few lengths; overflow, record footprints, alternatives, optionals and the exact boundary multiply, and allocation itself is never measured.",
  [R+"read_impl.hpp",R+"field_reader.hpp","include/field_size/field_size.hpp"],
  [("checked_byte_count",R+"read_impl.hpp"),("bound_in_bytes","include/field_size/field_size.hpp")],["struct_cast error, stream position","sizes passed to operator new"])
p("C14","Errors name the first failing field and a reason true of it",
  "Every failure names, with the id it has in the schema passed to the cast, the first field in declaration order at which the operation cannot proceed (the outermost one for nested records and union alternatives), and a reason that is actually true of that field. A read never reports found_contradicting_length, a write never excessive_length, and an operation with no failing field succeeds.",
  ["inputs","programs"],"every schema, every input or struct with any number of simultaneous violations",
  "Tests have one violation at a time; precedence among several and deep nesting are combinations.",
  ["include/error/cast_error.hpp","include/cast/struct_cast_impl.hpp","include/cast/stream_cast_impl.hpp"],
  [("name attached in the folds","include/cast/struct_cast_impl.hpp"),("nested name discarded",W+"field_writer.hpp")],["cast_error of both directions"])
p("C15","Frozen fields: the constant is written, anything else is not read",
  "A fixed-size field pinned to one value is written as that value whatever its slot holds and a write never fails on its account, while a read accepts it only if every one of its bytes on the wire encodes that value and fails with validation_failure at it otherwise. An equality on a union alternative or a variable-sized field is not frozen: the held value is emitted only if it is equal.",
  ["inputs","programs","histories"],"every magic descriptor and hand-written equality, every stale slot, every single-byte corruption of the constant",
  "Tests corrupt one byte of one magic; every byte, embedded terminators, wide types with narrow literals are not sampled.",
  ["include/field/field_traits.hpp",W+"field_writer.hpp","include/lib/containers/fixed_string.hpp","include/field_validation/field_value_constraints.hpp"],
  [("frozen_value_of","include/field/field_traits.hpp"),("is_frozen_target",W+"derived_value.hpp")],API)
p("C16","Field access follows from the schema alone",
  "Through operator[], a length derived by the library is inaccessible on const and mutable objects alike, a match_field discriminant and a frozen field are readable but not assignable, every other field is readable and assignable, and an id the schema does not declare is inaccessible. A field that is a length only inside an optional or alternative, or feeds only a callable, stays assignable.",
  ["programs"],"every schema and every id",
  "A compile-fail test checks three schemas; the rule is over all ways a field can be referenced.",
  ["include/field_list/field_list.hpp","include/field_list/field_list_metadata.hpp"],
  [("operator[] overload constraints","include/field_list/field_list.hpp"),("derived id tables","include/field_list/field_list_metadata.hpp")],["requires-expressions over operator[]"])
p("C17","Ill-formed schemas do not compile, well-formed ones do in both directions",
  "A schema with duplicate ids, with a size, presence or type that depends on an unknown field or one not declared earlier, with a width larger than its type, with an option its descriptor does not admit or twice the same kind of option, with duplicate alternatives or match values, or with a constrained base under an optional is rejected at compile time. Every other composition of the documented descriptors (a C array under an optional or as a union alternative aside) compiles and can be read and written in both byte orders, up to the 64 dependencies and the hundred or so fields the library and the compiler have room for.",
  ["programs"],"every composition of descriptors and options",
  "Compile-fail tests cover a few programs; dependency order in every position (alternative, optional, ladder) is combinatorial.",
  ["include/api/struct_field_list.hpp","include/api/field_descriptors.hpp","include/field/field_options.hpp","include/field_list/field_list_metadata.hpp","include/type_deduction/type/type_deduction_metafunctions.hpp"],
  [("dependency_check","include/api/struct_field_list.hpp"),("descriptor constraints","include/api/field_descriptors.hpp")],["compiler accepts or rejects the program"])
p("C18","Same result on every stream kind and during constant evaluation",
  "For the same schema, order and bytes or struct, a standard stream, a custom stream and a constexpr stream, at run time or in a constant expression, give the same value or the same reason and field, and a write appends the same bytes to each.",
  ["inputs","programs","configurations"],"every schema, every input, every stream kind",
  "The compile-time tests do not even run in this build, and run-time tests use standard streams on other inputs; agreement is never checked case by case.",
  [R+"read_impl.hpp",W+"write_impl.hpp","include/stream/stream_traits.hpp","include/lib/memory/address_manip.hpp"],
  [("constexpr branches of read/write_native",R+"read_impl.hpp")],API)
p("C19","Casts are independent: records frame back to back, structs unchanged",
  "Consecutive casts on one stream behave as the same casts on separate streams positioned where the previous one stopped: n structs written one after another, of the same or different schemas and within their ceilings, read back as those n structs, and neither direction keeps state between calls. A write changes nothing observable in the struct it is given, so writing it again gives the same bytes. Casts made at the same time by different threads, each on a stream of its own, do not influence one another.",
  ["histories","inputs","schedules"],"every sequence of casts of mixed schemas on one stream, every interleaving of casts on streams of their own",
  "Tests do one cast per stream in one thread; histories and schedules are not explored.",
  ["include/cast/struct_cast_impl.hpp","include/cast/stream_cast_impl.hpp"],
  [("fresh field list per cast","include/cast/struct_cast_impl.hpp"),("const struct on write","include/api/stream_cast.hpp")],API)
p("C20","Hostile bytes: every read returns, without undefined behaviour",
  "For every byte string, a read terminates with either a struct satisfying its schema (every bool in it holding 0 or 1) or one of buffer_exhaustion, validation_failure, type_deduction_failure and excessive_length; it raises no exception, touches no memory outside its objects, leaks none, and the memory it requests is bounded by the schema's ceilings and the bytes available. The same holds for writing any struct a caller can build.",
  ["inputs","fault_sequences"],"every schema and every byte string or struct, well-formed or not",
  "Fixtures are mostly well-formed; sanitizers are not part of the build.",
  [R+"read_impl.hpp",R+"field_reader.hpp","include/lib/containers/fixed_string.hpp","include/lib/memory/address_manip.hpp"],
  [("checked_byte_count",R+"read_impl.hpp"),("fixed_string comparison","include/lib/containers/fixed_string.hpp")],["sanitizer reports, exceptions, allocation sizes, results"])
open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w').write(''.join(json.dumps(x)+'\n' for x in P))
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
print(len(P))
