#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line)."""
import json, os
B = "src/infi/instruct/buffer/"
S = "src/infi/instruct/"
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe or ["public API results"], hook_needed=None)))

# ---------------------------------------------------------------- Buffer half
prop("B01", "Buffer number fields encode and decode every value exactly",
 "An integer field of 1, 2, 4 or 8 bytes packs to the two's complement (or unsigned) representation in the declared byte order and unpacks to the same number; an integer of any other size, down to single bits, is unsigned, is laid out least significant bit first (whole-byte sizes honour big endian), and round-trips. A float field of 4 or 8 bytes packs to the IEEE-754 representation (4 bytes: rounded to nearest even) and unpacks to exactly the number those bytes denote. A number outside the range of its field is refused with an error, never wrapped, truncated or allowed to alter other bits.",
 ["inputs", "configurations"], "every value, size in bits, sign, byte order and bit position of a number field",
 "The tests pack a handful of constants at byte positions; the value space is 2^64 per width and widths/positions multiply it. 8-byte floats, 3-byte big endian and negative bit-sized integers are not touched.",
 [B+"serialize.py", B+"io_buffer.py", B+"macros.py"],
 [("pack_int/unpack_int, pack_bit_int/unpack_bit_int, pack_float/unpack_float", B+"serialize.py"), ("BitAwareByteArray._value_to_value_and_length", B+"io_buffer.py")],
 ["Buffer.pack() bytes", "attribute values after Buffer.unpack()"])
prop("B02", "Packing writes a field's own positions only; everything else is zero",
 "Packing a buffer places each field's encoded bits at exactly the byte and bit positions declared for it, in the declared order of the ranges, and every bit no field covers is zero. Unpacking gives each field a value that depends only on the input bits at its positions. The packed length is the end of the furthest field rounded up to whole bytes, or the declared size padded with zeros; a class whose fields do not fit its declared size is refused.",
 ["inputs", "configurations"], "every set of field positions (contiguous, split, unordered, sub-byte), every assignment of values and every background in the input",
 "Tests use a few hand-written layouts, almost all byte aligned and gap free.",
 [B+"buffer.py", B+"io_buffer.py", B+"field_reference_builder.py"],
 [("OutputBuffer.set / InputBuffer.get", B+"io_buffer.py"), ("Buffer.pack zero padding to byte_size", B+"buffer.py")],
 ["Buffer.pack() bytes", "attribute values after Buffer.unpack()"])
prop("B03", "Unpacking what a buffer packed gives the same field values back",
 "For every buffer object whose values fit their fields, packing it and unpacking the bytes into a new object of the same class yields equal values for every field, and packing that object again yields the same bytes. This holds for every combination of field kinds: numbers, strings, JSON, byte arrays, nested buffers, lists, computed and conditional fields, at fixed or dependent positions.",
 ["inputs", "configurations"], "every class built from the field kinds, and every value of it",
 "Round trips are tested for a few classes with one or two value sets each.",
 [B+"buffer.py", B+"serialize.py", B+"macros.py"],
 [("Buffer.pack / Buffer.unpack", B+"buffer.py"), ("packers and unpackers", B+"serialize.py")])
prop("B04", "All the ways to learn a buffer's size agree",
 "For any buffer object whose fields fill the ranges given to them, the calculated size rounded up to whole bytes, the number of bytes packing produces and the size that unpacking those bytes reports are equal; where the class has a static size, all of them equal that size for every object of the class and its subclasses. Fields whose pack or unpack condition is false contribute nothing to a dynamic size, and bytes following the object in the input do not change the reported size of an object with no open-ended field.",
 ["inputs", "configurations"], "every class with fixed or dependent layout, including inheritance, and every object of it",
 "Tests check byte_size of a few static classes; none compare it with what pack and unpack do for dynamic, conditional or derived classes.",
 [B+"buffer.py", B+"reference/total_size.py", B+"range.py"],
 [("BufferType.calc_byte_size", B+"buffer.py"), ("TotalSizeReference", B+"reference/total_size.py"), ("SequentialRangeList.byte_offset/max_stop", B+"range.py")],
 ["byte_size", "calc_byte_size()", "len(pack())", "return value of unpack()"])
prop("B05", "Computed fields are derived when packing and applied when unpacking",
 "A field with a value to set before packing is packed with that value - a constant, the result of calling the given function with the object, or the value of the given reference (lengths, sizes, positions, arithmetic over other fields) evaluated for this object - and after packing the attribute holds it, whatever the attribute held before. A field with a transformation to set after unpacking ends up with the transformed value. References used this way see the final values of the fields they refer to, regardless of the order in which the fields are declared or packed.",
 ["inputs", "configurations"], "every computed-field expression, every dependency direction between fields and every stale attribute value",
 "A few expressions are tested once, in one declaration order each; set-after-unpack has no test.",
 [B+"field_reference_builder.py", B+"reference/builtins.py", B+"reference/func_call.py"],
 [("set_field_pack_value_ref / set_field_unpack_value_ref", B+"field_reference_builder.py"), ("AssignAttrReference", B+"reference/builtins.py")])
prop("B06", "Positions that depend on other fields resolve correctly both ways",
 "When a field's position is given in terms of other fields - after another field, up to the value or length of another field, the total size, the input length, or arithmetic, minimum and maximum of these - packing places the field where the expression evaluates for the values being packed, and unpacking reads it where the expression evaluates for the values found in the input. The result does not depend on the order in which the fields are declared or named, and an open-ended range takes exactly the bytes its value needs when packed and the rest of the input when unpacked.",
 ["inputs", "configurations"], "every dependency structure between field positions and every set of lengths, including zero",
 "Tests hold one length per layout and name fields in dependency order.",
 [B+"field_reference_builder.py", B+"reference/after_field.py", B+"reference/range.py", B+"reference/builtins.py"],
 [("PackAbsolutePositionReference / UnpackAbsolutePositionReference", B+"field_reference_builder.py"), ("AfterFieldReference", B+"reference/after_field.py")])
prop("B07", "Conditional fields are present exactly when their condition holds",
 "A field whose pack condition is false contributes nothing to the packed bytes and its value is not looked at, and one whose condition is true is packed as if unconditional. A field whose unpack condition is false is set to None without reading the input, replacing any value the object held, and one whose condition is true is read as usual. Conditions may be constants, references, comparisons or functions of the object, and are evaluated for the object being packed or unpacked.",
 ["inputs", "configurations", "histories"], "every condition expression and truth assignment, on fresh and reused objects",
 "The tests have one conditional class and never reuse its objects.",
 [B+"buffer.py", B+"field_reference_builder.py"],
 [("pack_if / unpack_if", B+"buffer.py")])
prop("B08", "Buffer text and byte fields pad, justify, strip and encode as declared",
 "A text field occupies exactly the bytes of its range: the encoded text is padded with the declared pad byte on the side opposite to its justification, text longer than the range is cut at the range's end, and unpacking removes on the padded side first the strip bytes and then the pad bytes, and decodes the rest with the declared encoding. JSON fields unpack to a value equal to the one packed. Byte fields carry their bytes unchanged, bytes beyond the range are cut, and fewer bytes than the range needs are refused.",
 ["inputs", "configurations"], "every text, encoding, pad and strip byte, justification, width and position",
 "One or two strings per justification are tested; right-justified, non-ASCII and exact-width texts are not.",
 [B+"serialize.py", B+"macros.py"],
 [("pack_str/unpack_str, pack_json/unpack_json, pack_bytearray/unpack_bytearray", B+"serialize.py")])
prop("B09", "Lists and nested buffers pack and unpack element by element",
 "A list field packs to the concatenation of its elements' encodings, and unpacking reads elements one after the other, each starting where the previous one ended, until the given count or the end of the range or input; a nested buffer is packed and unpacked as it would be on its own. Where a selector chooses the type of an element from the containing object and the bytes at hand, exactly the chosen type is unpacked (or None with no bytes consumed), and list selectors are told the element's index. Unpacking always terminates: elements that take no space do not make it run forever.",
 ["inputs", "configurations"], "every element type (numbers, strings, fixed and variable size buffers, selected buffers), count, range and nesting",
 "Tests use short lists of fixed-size elements that exactly fill the range.",
 [B+"serialize.py", B+"macros.py"],
 [("pack_list/unpack_list, pack_buffer/unpack_buffer", B+"serialize.py"), ("unpack_selector_decorator", B+"macros.py")])
prop("B10", "Too little or unusable input is reported, never silently decoded",
 "Unpacking a number or text field at a fixed position from an input too short to contain it raises an error, as does packing a value its field cannot hold or encode, an unknown field name at construction, and a position whose ranges overlap or run backwards. Every such call ends, with an error rather than a crash of the interpreter or an endless loop. The failure leaves the object usable: packing or unpacking it with valid data afterwards gives the same result as for a new object.",
 ["inputs", "histories"], "every truncation point and every kind of unusable value, followed by valid use",
 "Tests contain three error cases; none truncates systematically or continues after an error.",
 [B+"serialize.py", B+"buffer.py", B+"io_buffer.py", B+"range.py"],
 [("length checks in unpackers", B+"serialize.py"), ("InstructBufferError wrapping", B+"buffer.py"), ("range assertions", B+"range.py")])
prop("B11", "Buffer objects share no state and packing is repeatable",
 "Packing an object twice gives the same bytes and changes no attribute except computed fields; unpacking replaces the values of all fields, so the result depends only on the class and the input and not on what the object held or did before. Objects of one class, or of related classes, never influence one another, also when a user's function called during one operation packs, sizes or unpacks another object, and changing a value obtained from a default in place does not change the default of later objects. Derived classes have all fields of their bases.",
 ["histories"], "every interleaving of constructing, changing, packing, unpacking and sizing objects of related classes",
 "Tests use one object once.",
 [B+"buffer.py", B+"reference/reference.py"],
 [("per-call contexts and caches", B+"reference/reference.py"), ("default values", B+"buffer.py"), ("field collection over the class hierarchy", B+"buffer.py")])
prop("B12", "References are evaluated once per operation and cycles are reported",
 "Within one pack, unpack or evaluation every reference is evaluated at most once and all uses see that value, so functions supplied by the user run once per operation however many fields use them. Arithmetic, comparison, negation, length, minimum and maximum over references, plain numbers on either side included, evaluate to what the same expression gives on the values; operands that are not numeric are refused. References that depend on one another in a cycle raise an error naming the cycle, leave the evaluation context as it was so that independent references still evaluate, and never loop.",
 ["inputs", "configurations", "histories"], "every reference graph, including shared and cyclic ones, and every order of evaluation after success or failure",
 "Tests evaluate single expressions and one two-node cycle.",
 [B+"reference/reference.py", B+"reference/func_call.py", B+"reference/builtins.py"],
 [("Reference.deref: cache, call_nodes, call_stack", B+"reference/reference.py")])
prop("B13", "Position references denote the byte and bit ranges they spell",
 "Byte references select the bytes they index, slice or list, in the order given; bit references select the given bits counted from the start of the parent's ranges, crossing from one range to the next, and sums of references select the concatenation. Asking whether ranges overlap, how long they are, where they end and which offset a given amount of data reaches gives the answer set arithmetic gives, for any number and order of ranges, empty and open-ended ones included. A bit range outside its parent is refused.",
 ["inputs", "configurations"], "every list of ranges with byte, bit, empty and open-ended bounds, and every composition of references",
 "Tests enumerate about twenty range lists.",
 [B+"range.py", B+"reference/range.py"],
 [("SequentialRange/SequentialRangeList", B+"range.py"), ("ByteRangeFactory, BitRangeFactory", B+"reference/range.py")])
prop("B14", "Bit arrays behave as sequences of bits",
 "A bit array or bit view behaves as the sequence of bits it was created over: reading a slice, iterating, converting to bytes or to a string of bits gives exactly the bits of that slice, zero-filled to whole bytes. Replacing, inserting, deleting, appending, concatenating and zero-filling at any bit position yields the sequence that the same edit yields on a list of bits, whatever the array's start offset and whatever bits lie outside the view. An integer that does not fit the range it is assigned to is refused and the array is unchanged.",
 ["inputs", "histories"], "every bit content, start and end offset, edit position and length, over sequences of edits",
 "Tests perform about a dozen edits, mostly at byte boundaries.",
 [B+"io_buffer.py"],
 [("BitView, BitAwareByteArray", B+"io_buffer.py")])

# ---------------------------------------------------------------- Struct half
prop("S01", "Struct number fields encode and decode every value exactly",
 "Each integer field type writes the fixed-size two's complement or unsigned representation in its byte order and reads back the same number, and each float type does so for IEEE-754 single (rounded to nearest even) and double precision. A value outside the type's range, or not a number, is refused with an error, and nothing is written for that field. Reading consumes exactly the type's size.",
 ["inputs"], "every one of the 30 number types and every value",
 "Tests use one or two values per type.",
 [S+"numeric.py", S+"numeric_macros.py"],
 [("NumericMarshal", S+"numeric.py"), ("type table", S+"numeric_macros.py")])
prop("S02", "Structs serialize in declaration order and read back exactly what was written",
 "Writing a struct emits its fields' encodings in declaration order with nothing between them; reading consumes exactly those bytes, leaving whatever follows in the stream untouched, and yields a struct with equal field values. This holds for any nesting of structs, arrays, strings, bit fields, optional, constant, mapped and padding fields, and for several records read one after the other from one stream, which need not offer more than reading.",
 ["inputs", "configurations", "histories"], "every composition of field types, every value and every sequence of records in a stream",
 "Round trips are tested for a few structs, from strings holding exactly one record.",
 [S+"struct/__init__.py", S+"base.py"],
 [("FieldListContainer.read_fields/write_fields", S+"struct/__init__.py"), ("Struct.create_from_stream/write_to_stream", S+"struct/__init__.py")])
prop("S03", "Reported struct sizes are exact and size bounds hold",
 "The size reported for an object equals the number of bytes writing it produces. The minimum and maximum size reported for a struct or field type bracket the written size of every object of it, and a type reports being of fixed size only if all its objects have the same written size; for types without a variable part the bounds are equal.",
 ["inputs", "configurations"], "every composition of field types and every object",
 "Tests check sizeof on a few structs; bounds only on one or two.",
 [S+"base.py", S+"string.py", S+"array.py", S+"struct/__init__.py", S+"struct/optional.py", S+"struct/selector.py"],
 [("sizeof / min_max_sizeof / is_fixed_size of each marshal", S+"base.py")])
prop("S04", "Struct strings and buffers are padded, stripped and length-prefixed exactly",
 "A fixed-size string is written stripped of padding and padded back to exactly its size on its padding side, and is read back without that padding; a fixed-size buffer is written and read unchanged. A variable-size string or buffer is written as its length (without padding) followed by exactly that many bytes and read back accordingly, also when the length is taken from another field. A value that does not fit is refused instead of shifting the fields after it.",
 ["inputs", "configurations"], "every content (pad bytes inside and at both ends, empty, exact and excessive length), pad byte, direction and length type",
 "Tests use a few short values padded on the right.",
 [S+"string.py", S+"string_macros.py"],
 [("PaddedStringMarshal, VarSizeStringMarshal, _strip, _pad", S+"string.py")])
prop("S05", "Struct arrays keep their elements and their count or byte size",
 "A counted array is written as its element count followed by the elements, a byte-sized array as the total byte size of its elements followed by them, a fixed array as exactly its declared number of elements (any other number is refused). Reading gives equal elements and consumes exactly the array's bytes, for elements of any type, fixed or variable size, with the count or size stored in the array or taken from another field, and from any stream. A byte size that ends inside an element is refused.",
 ["inputs", "configurations"], "every element type, element values, count and size type",
 "Tests use arrays of numbers with two or three elements.",
 [S+"array.py", S+"array_macros.py"],
 [("VarSizeArrayMarshal, FixedSizeArrayMarshal, SumSizeArrayMarshal", S+"array.py")])
prop("S06", "Struct bit fields occupy exactly their bits",
 "Bit fields in a group are laid out least significant bit first in declaration order, or at their declared bit slices, each holding its value modulo its width; writing one never alters another's bits and padding or unassigned bits are zero. Reading gives each field exactly its bits, and the group occupies the number of bytes its bits make up. Reading or writing beyond the group's bits is refused.",
 ["inputs", "configurations", "histories"], "every partition of bytes into bit fields or slices, every value, and every sequence of bit-stream operations",
 "Tests use a few partitions; the exhaustive bit-stream test covers byte-sized writes only.",
 [S+"struct/bit.py", S+"utils/bitstringio.py"],
 [("BitFieldListContainer, PositionalBitFieldListContainer", S+"struct/bit.py"), ("BitStringIO", S+"utils/bitstringio.py")])
prop("S07", "Constant fields always have, write and require their value",
 "A constant field has its declared value in every object and writes that value's encoding whatever was passed at construction. Assigning a different value is refused, and reading input with a different encoding at that place is refused, while the constant's own encoding is always accepted. This holds for numbers, strings and structs as constants.",
 ["inputs", "configurations", "histories"], "every constant, every value read or assigned, interleaved with other operations",
 "Tests use integer constants with one wrong value.",
 [S+"struct/const.py", S+"struct_macros.py"],
 [("ConstField", S+"struct/const.py")])
prop("S08", "Optional fields are written when set and read when their predicate holds",
 "An optional field whose value is unset writes nothing and counts nothing in the size; one with a value is written as its type would be. On reading, the predicate is consulted with the fields read before it: if it holds the field is read, otherwise it keeps its default and no input is consumed. A struct whose optional fields are set exactly when their predicates hold round-trips.",
 ["inputs", "configurations"], "every combination of set and unset optional fields, predicates over earlier fields, and inputs",
 "Tests cover one predicate with both outcomes.",
 [S+"struct/optional.py"],
 [("OptionalField", S+"struct/optional.py")])
prop("S09", "Lazily decoded fields are indistinguishable from eagerly decoded ones",
 "A struct with fields in a lazy group behaves in every observable way like the same struct without the group, except for its printed form before the first access and for when an invalid encoding is reported: any order of reading, assigning, writing and sizing gives the same values and bytes, and reading the struct consumes the same bytes. Input too short for the group is refused when reading; an invalid encoding inside it is refused at every access until it would be replaced by a valid one, and never yields values that were not read.",
 ["histories", "inputs", "configurations"], "every sequence of operations over objects with lazy groups, and every input",
 "Lazy groups have almost no tests.",
 [S+"struct/lazy.py"],
 [("LazyField, LazyFieldListContainer.instantiate_if_needed", S+"struct/lazy.py")])
prop("S10", "Selected structs are read from their very first byte and nothing is lost",
 "Where the type of a struct field is selected by a key read ahead from the input, or by a function that may itself read ahead, the selected type reads from the position where the look-ahead began, so that no byte is skipped, duplicated or lost, and the input following the struct is left in place. A key without a mapped type selects the default type or is refused, and a selected type that consumes less than was looked at is refused. The read-ahead stream returns, for any sequence of reads in either mode, the bytes of the underlying stream in order; writing passes through when nothing is buffered, and is refused otherwise.",
 ["inputs", "configurations", "histories"], "every key, mapping, amount of look-ahead, and every interleaving of look-ahead and ordinary reads",
 "One function selector is tested; key selectors are not.",
 [S+"struct/selector.py", S+"utils/read_ahead_stream.py"],
 [("ReadAheadStream", S+"utils/read_ahead_stream.py"), ("StructSelectorMarshal, FuncStructSelectorMarshal", S+"struct/selector.py")])
prop("S11", "Truncated struct input is refused",
 "Reading a struct from a proper prefix of its encoding raises an error instead of returning a struct. This holds for every field type and nesting and every cut position, from strings and from streams.",
 ["inputs", "configurations"], "every struct, object and truncation point",
 "Tests cover one truncated integer.",
 [S+"numeric.py", S+"string.py", S+"struct/bit.py", S+"struct/lazy.py"],
 [("NotEnoughDataError and length checks of the marshals", S+"numeric.py")])
prop("S12", "Struct objects are constructed as declared and share nothing",
 "A new struct has the values given at construction and the declared defaults elsewhere, and user constructors receive the arguments they ask for, also through inheritance. Objects never influence one another: changing a value in place or assigning a field changes that object only, and no default of later objects. Writing, sizing and printing an object succeed or fail without changing it, printing works with fields that are not set, and repeating them gives the same result. All this holds also when something of the user's that is called during one operation reads, writes or sizes other objects.",
 ["histories", "configurations"], "every interleaving of constructing, changing, writing, sizing and printing objects",
 "Tests build one object at a time.",
 [S+"struct/__init__.py"],
 [("StructType._create_struct_class_init, Field.prepare_instance", S+"struct/__init__.py")])
prop("S13", "Context-dependent decoding refers to the struct being decoded",
 "A length or count taken from another field, and a type chosen by a function of the struct, refer to the innermost struct being read and to the value that field has in the input, at any nesting depth, inside arrays and with or without an explicit context. Mapped fields translate between values and encodings one to one in both directions, and refuse values or encodings without a mapping.",
 ["inputs", "configurations"], "every nesting of structs with context-dependent fields, and every mapping",
 "Tests have no nested context-dependent struct.",
 [S+"struct/pointer.py", S+"struct/__init__.py", S+"struct_macros.py", S+"mapping.py"],
 [("ReadPointer", S+"struct/pointer.py"), ("Struct.get_updated_context", S+"struct/__init__.py"), ("FixedSizeMappingMarshal", S+"mapping.py")])
prop("S14", "Size bounds add up and stay within their limits",
 "A size bound always satisfies 0 <= minimum <= maximum <= the platform's maximum size; a bound created from out-of-range numbers is clipped to these limits, one whose minimum exceeds its maximum is refused, and copying from a bound or a pair preserves it. Adding bounds is addition of minima and of maxima with the same clipping, so it is commutative and associative, zero is neutral, and a bound is unbounded exactly when its maximum is the limit.",
 ["inputs", "histories"], "every pair of numbers around the limits and every sequence of additions",
 "Tests check a few constructions.",
 [S+"base.py"],
 [("MinMax", S+"base.py")])
prop("S15", "A fixed-size buffer used as a struct field behaves like a struct type",
 "A buffer class adapted for use in structs writes the same bytes as packing the object, reports the number of bytes it writes as its size, and reads exactly its static size from the stream, leaving what follows untouched and giving an object equal to unpacking these bytes. A buffer class without a static size cannot be read from a stream and is refused without consuming input, while creating it from a whole string unpacks that string.",
 ["inputs", "configurations"], "every fixed-size and variable-size buffer class, every object and every stream content",
 "Tests cover one class.",
 [B+"compat.py"],
 [("StructTypeAdapter", B+"compat.py")])
prop("S16", "Struct declarations without a layout are refused when declared",
 "A declaration that cannot be laid out is refused when the class or field is declared, and not accepted to fail or lose data when used: bit groups that do not fill whole bytes or whose fields exceed the declared size, members of variable size in bit groups, lazy groups or mappings, mappings that give two names the same encoding, defaults of fixed-size arrays, texts and buffers that the field cannot hold, padding whose fill is not one character, constants without a type, selections among something other than structs, size bounds whose minimum exceeds the maximum, and structs without fields. Every other declaration made of these kinds of fields is accepted.",
 ["configurations"], "every combination and nesting of declarations, right and wrong",
 "Tests declare a handful of wrong classes; each kind of field has its own rules, and they meet in groups nested in groups.",
 [S+"struct/bit.py", S+"struct/lazy.py", S+"struct/selector.py", S+"struct/__init__.py", S+"struct_macros.py", S+"mapping.py", S+"array_macros.py", S+"string_macros.py", S+"padding.py"],
 [("BitFieldListContainer, PositionalBitFieldListContainer", S+"struct/bit.py"), ("LazyFieldListContainer", S+"struct/lazy.py"), ("FixedSizeMappingMarshal", S+"mapping.py"), ("StructType.__new__", S+"struct/__init__.py"), ("StructSelectorMarshal", S+"struct/selector.py")])
prop("S17", "Contexts hold what was put in them and using them changes nothing",
 "A context returns exactly what was put in it; a read-only one refuses changes. A copy starts with the same contents and from then on neither changes the other, nor does changing a dictionary it was updated with or shown as. Reading, writing or printing an object with a context lets the user's code inside any nesting of structs, arrays and selections see the caller's values, then those declared by the classes around, the outermost first, then the default asked for; and whatever that code puts in its context, the caller's context and the declared ones are unchanged afterwards.",
 ["histories", "configurations"], "every history of creating, copying, changing and using contexts, through every nesting of classes with contexts of their own",
 "Tests pass at most one context to one struct and look at nothing afterwards.",
 [S+"base.py", S+"struct/__init__.py"],
 [("ReadOnlyContext, WritableContext, EMPTY_CONTEXT", S+"base.py"), ("Struct.get_updated_context", S+"struct/__init__.py")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P))
