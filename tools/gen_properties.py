#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. Compact source form so that titles/statements are easy to review."""
import json, os
P = []
def p(id, title, statement, text, why, files, mech, over=("inputs",), observe=(), state=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
        quantifier=dict(over=list(over), text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=a, meaning=b, where=c) for a,b,c in state],
                     observe_at=list(observe), hook_needed=None)))
I="include/muu/"
p("B01","Bit counting agrees with the definition for every value and width",
  """Population count, leading/trailing zero and one counts and the single-bit test return exactly what counting the bits of the
  value by hand gives, for every value of every unsigned integer type (and for enums through their underlying type), including zero and all-ones.
  The evaluation used at compile time and the one used at run time give the same answer.""",
  "all values of 8/16/32/64/128-bit unsigned integers, on both the constant-evaluated and the run-time path",
  "tests sample a few hundred values of a 2^64 input space and run only one of the two code paths per assertion",
  [I+"popcount.h",I+"countl.h",I+"countr.h",I+"bit.h"],[("intrinsic and naive implementations selected by is_constant_evaluated","popcount.h, countl.h, countr.h")])
p("B02","Bit rounding, width and fill functions match their definitions",
  """Rounding down to a power of two, rounding up to a power of two (when the result is representable), bit width and filling N bits from the left or right return exactly the
  mathematically defined value for every input.  A fill count of zero gives zero and a count at or above the width gives all ones.""",
  "all values of all unsigned widths, all fill counts", "tests check hand-picked powers of two and neighbours",
  [I+"bit_ceil.h",I+"bit_floor.h",I+"bit_fill.h",I+"bit.h"],[("shift/smear arithmetic","bit_ceil.h, bit_floor.h, bit_fill.h")])
p("B03","Byte reversal, packing and selection move every byte to the right place",
  """Reversing the bytes of an integer puts byte i at position n-1-i and is its own inverse; packing concatenates its arguments most-significant first;
  selecting bytes by index returns that byte of the value, or zero when the index is out of range.  Nothing else of the value is disturbed.""",
  "all values and all indices, both compile-time and run-time paths", "tests use a handful of constants",
  [I+"byte_reverse.h",I+"bit_pack.h",I+"bit.h"],[("byte shuffles","byte_reverse.h, bit_pack.h, bit.h byte_select/swizzle")])
p("B04","Alignment rounding returns the nearest suitably aligned value",
  """Rounding an integer or pointer up to a power-of-two alignment yields the nearest multiple of the alignment that is not below the input, whenever that is representable,
  for alignments given at compile time and at run time.""",
  "all values, all power-of-two alignments", "tests use few values",
  [I+"apply_alignment.h"],[("mask arithmetic","apply_alignment.h")])
p("B05","Aligned allocation returns usable, aligned, disjoint blocks",
  """An aligned allocation of a nonzero size returns memory whose address is a multiple of the requested power-of-two alignment and which is usable for at least the requested number of bytes;
  the block stays disjoint from other live blocks, and freeing it releases exactly that block.""",
  "all sizes and alignments in the stated bound", "tests never allocate with odd size/alignment pairs",
  [I+"aligned_alloc.h"],[("size rounding before the C allocator","aligned_alloc.h")])
p("C01","UTF-8 decoder follows the encoding exactly for every byte sequence",
  """For every sequence of code units, the streaming UTF-8 decoder reports a code point exactly when the units read since the last boundary form a well-formed UTF-8 sequence
  (no overlongs, no surrogates, nothing above U+10FFFF), reports the correct scalar value, and otherwise is in a need-more or an error state; it is never both, and stays well defined until reset.""",
  "every byte sequence up to the bound, from every reachable decoder state", "2^32 four-unit sequences; tests decode one text file",
  [I+"utf8_decoder.h"],[("DFA state table","utf8_decoder.h")])
p("C02","UTF-16 decoder follows the encoding exactly for every unit sequence",
  """For every sequence of 16-bit units, the streaming UTF-16 decoder yields a BMP scalar for a lone non-surrogate unit, combines a high surrogate followed by a low surrogate into the supplementary scalar they encode,
  asks for more after a high surrogate, and reports an error for an unpaired surrogate.""",
  "every unit sequence up to the bound", "no test feeds surrogate pairs to the decoder",
  [I+"utf16_decoder.h"],[("state machine","utf16_decoder.h")])
p("C03","Decoding a string visits every code point once with exact positions",
  """Decoding well-formed text forwards visits exactly its code points, in order, with the correct start index and length in units; decoding it in reverse visits the same code points in the opposite order;
  decoding stops immediately when the callback asks it to.  For arbitrary (also ill-formed or truncated) input every unit after a byte order mark belongs to exactly one visit, an undecodable unit being visited on its own, and no unit outside the string is ever read.""",
  "every string of 8-, 16- and 32-bit units up to the bound, both directions", "tests decode a few fixed strings",
  [I+"utf_decode.h"],[("forward/reverse utf_decode loops","utf_decode.h")])
p("C04","Transcoding between encodings preserves the code points",
  """Transcoding well-formed text between UTF-8, UTF-16 and UTF-32 yields the well-formed encoding of exactly the same code point sequence, so converting there and back gives the original;
  every Unicode scalar value, including U+0000, survives.""",
  "every well-formed string up to the bound in each encoding", "tests transcode a few literals",
  [I+"strings.h",I+"utf_decode.h"],[("code point encoders + utf_decode","strings.h")])
p("C05","Trimming removes exactly the leading and trailing whitespace",
  """Trimming (left, right, both) returns the sub-view of its argument that starts at the first and ends after the last non-whitespace code point (empty if there is none);
  the result always lies inside the argument and trimming again changes nothing.""",
  "every string up to the bound, for 8-, 16- and 32-bit units", "tests check fixed literals",
  [I+"strings.h"],[("predicated_trim over utf_find","strings.h")])
p("C06","Code point classification matches the Unicode character database",
  """For every 32-bit value, the whitespace, hyphen, letter, number, upper/lower case, combining mark, code point and digit predicates answer exactly as the Unicode categories they document;
  the ASCII and non-ASCII variants partition each class and each negated predicate is the exact complement.""",
  "all 2^32 code units", "tests enumerate code points against the same generated source data, never against an independent source, and never above U+10FFFF systematically",
  [I+"impl/unicode_char32_t.h"],[("generated bitmask tables","impl/unicode_char32_t.h")])
p("C07","Code unit classification is consistent across character types",
  """For 8- and 16-bit character types, every classification predicate agrees with the 32-bit one on the values that type can represent as complete code points,
  and rejects units that cannot stand for a code point on their own.""",
  "all values of char, unsigned char, wchar_t, char8_t, char16_t", "separate generated tables; tests do not compare them with each other",
  [I+"impl/unicode_char.h",I+"impl/unicode_char8_t.h",I+"impl/unicode_char16_t.h",I+"impl/unicode_unsigned_char.h",I+"impl/unicode_wchar_t.h"],[("generated tables","impl/unicode_*.h")])
p("C08","Hex digit conversion is exact in both directions",
  """Converting a byte to two hex digits and back gives the same byte for every value and both letter cases, and the digit value of every hexadecimal digit character is its numeric value for every character type.""",
  "all bytes, digits and letter cases", "tests sample",
  [I+"chars.h"],[("hex_to_dec/dec_to_hex/byte_to_hex","chars.h")])
p("H01","SHA-1 digests equal the standard for every message, however it is chunked",
  """The SHA-1 hasher produces the FIPS 180 digest of the concatenation of everything fed to it, regardless of how the message was split between calls and of message length modulo the block size;
  copies continue independently, finishing is idempotent and feeding after finishing has no effect on the digest until reset.""",
  "all messages up to the bound, all split points", "tests hash a few fixed strings, mostly in a single call",
  [I+"hashing.h","src/hashing.cpp"],[("block buffering, padding, compression rounds","src/hashing.cpp")])
p("H02","FNV-1a digests equal the definition for every message and chunking",
  """The 32-, 64- and 128-bit FNV-1a hashers return the published FNV-1a value of the bytes fed to them, regardless of how the input was split between calls and of the way it was supplied (bytes, integers, characters, strings).""",
  "all messages up to the bound, all split points, all widths", "tests hash fixed strings",
  [I+"hashing.h"],[("fnv1a constants and loop","hashing.h")])
p("H03","Hash combining depends only on the values, and equal objects hash equally",
  """Combining hashes is a deterministic function of the sequence of values added (adding separately or together is the same), and equal identifiers hash equally.""",
  "all inputs", "sampled by tests", [I+"hashing.h",I+"uuid.h"],[("hash_combiner, std::hash specialisations","hashing.h, uuid.h")])
p("U01","UUID fields, bytes and integer construction are mutually consistent",
  """A UUID built from bytes, from its five fields or from integers contains exactly those bytes in network order, and reading back any field, the variant, the version and the null-ness returns exactly what those bytes encode.""",
  "all 2^128 UUIDs", "tests use a few constants", [I+"uuid.h"],[("field accessors/constructors","uuid.h")])
p("U02","UUID text form round-trips and the parser accepts exactly the grammar",
  """Formatting a UUID and parsing the text gives the same UUID; the parser accepts 32 hex digits in either case with the documented optional braces and separators, yields the digits' bytes in order, and rejects every other text; it never reads outside its input.""",
  "every UUID; every input text up to the bound", "tests parse a few strings", [I+"uuid.h","src/uuid.cpp"],[("parse state machine and to-chars","uuid.h")])
p("U03","UUID comparison is a strict total order consistent with equality",
  """Exactly one of less, equal and greater holds for any two UUIDs, the order is the lexicographic byte order and is transitive, and all six operators and the hash agree with equality.""",
  "all pairs and triples of UUIDs", "tests compare constants", [I+"uuid.h"],[("compare","uuid.h")])
p("U04","Generated UUIDs carry the right version and variant and are deterministic",
  """Name-based UUIDs are the RFC 4122 version-5 value for every namespace and name, so equal inputs give equal UUIDs; random ones keep every bit from the random source except for the version (4) and variant fields.""",
  "all namespaces, names up to the bound, all random bits", "tests use fixed examples", [I+"uuid.h","src/uuid.cpp"],[("SHA-1 based construction; version/variant masking","src/uuid.cpp, uuid.h")])
p("F01","Half-precision conversion is correctly rounded and exact back to float",
  """Converting any float to half precision gives the IEEE-754 binary16 value nearest to it (ties to even, overflow to infinity, NaN to NaN), converting any half to float is exact, and half to float to half is the identity,
  on both the native and the emulated implementation.""",
  "all 2^32 floats and all 2^16 halves, both implementations", "tests check a table of samples", [I+"half.h"],[("f32_to_u16/u16_to_f32","half.h")],over=("inputs","configurations"))
p("F02","Half-precision operators behave like float operators rounded to half",
  """Comparison of halves is comparison of their values (NaN unordered, zeros equal), negation flips exactly the sign, absolute value clears it, the finite tests look only at the exponent, and arithmetic equals float arithmetic rounded back to half.""",
  "all pairs of halves, both implementations", "2^32 pairs; tests sample", [I+"half.h"],[("operators","half.h")],over=("inputs","configurations"))
p("F03","Non-finite detection is exact for every floating-point bit pattern",
  """The infinity-or-NaN test is true exactly for infinities and NaNs of every floating-point type, and for aggregates exactly when at least one component is; run-time and compile-time paths agree.""",
  "all bit patterns of half/float/double/long double, vectors, matrices, quaternions, boxes...", "tests enumerate a small table", [I+"math.h",I+"vector.h"],[("exponent mask tests","math.h infinity_or_nan_")])
p("F04","Min, max, clamp, between and lerp obey their order definitions",
  """Minimum and maximum return an argument that no other argument is below/above, clamping returns the value limited to the bounds, and the range test is the mathematical low <= value <= high even across signed and unsigned operand types;
  interpolation returns the end points at 0 and 1.""",
  "all values of all arithmetic types, incl. mixed signedness", "tests sample a few values of one type", [I+"impl/core_utils.h",I+"math.h"],[("comparison logic","impl/core_utils.h")])
p("F05","Compile-time and run-time floor, ceil and abs agree",
  """For every finite value whose magnitude fits a 64-bit integer the compile-time implementations of floor, ceil and absolute value return the same number as the run-time ones: the greatest integer not above, the least integer not below, the magnitude.""",
  "all such floats and doubles", "tests sample a handful", [I+"math.h"],[("floor_naive, ceil_naive, abs_naive","math.h")])
p("F06","Even distribution and gcd/lcm satisfy their arithmetic identities",
  """Distributing a total over buckets gives shares that differ by at most one, never increase with the index and add up to the total; gcd divides every argument and lcm is divisible by every argument.""",
  "all totals, bucket counts and indices", "tests sample", [I+"math.h"],[("evenly_distribute, gcd, lcm","math.h")])
p("F07","Angle normalisation stays in range and in-range angles are unchanged",
  """Normalising an angle within the stated bound returns a value inside the documented interval and leaves angles already inside it bit-for-bit unchanged.""",
  "all finite floats in the bound", "tests sample", [I+"math.h"],[("normalize_angle, normalize_angle_signed","math.h")])
p("K01","Integral ranges enumerate exactly their half-open interval",
  """Iterating a range visits each integer from its start (inclusive) to its end (exclusive) exactly once, in the direction given, forwards and reversed; size, emptiness, membership, containment and overlap of ranges agree with that set of integers.""",
  "all start/end pairs within the stated bound, both directions", "tests use fixed ranges", [I+"integral_range.h"],[("iterator arithmetic","integral_range.h")])
p("K02","Accumulators report the exact count, min, max and sum of what was added",
  """After any sequence of samples, the accumulator's count, minimum, maximum, sum and average are those of the samples; adding another accumulator equals adding its samples, including when either is empty.""",
  "all sample sequences up to the bound and all split points", "tests add one fixed list and never merge accumulators", [I+"accumulator.h"],[("add/merge","accumulator.h")],over=("inputs","histories"))
p("K03","Blob contents, size and alignment survive every operation sequence",
  """After any sequence of construct, copy, move, assign (also from its own bytes) and resize, a blob holds exactly the bytes last written up to its size, its storage is aligned as requested, copies are independent, and no memory is leaked, freed twice or used after being freed.""",
  "all operation sequences and sizes up to the bound", "tests run one scripted sequence", [I+"blob.h"],[("reallocation and copy","blob.h, src")],over=("histories","inputs"))
p("K04","Emplacement arrays construct and destroy each element exactly once in order",
  """Elements keep insertion order and never move while stored, capacity is fixed, and every element constructed is destroyed exactly once (in reverse order), through moves, pops, clears, exceptions and destruction.""",
  "all operation sequences up to the bound", "tests run one scripted sequence", [I+"emplacement_array.h"],[("placement construct/destroy bookkeeping","emplacement_array.h")],over=("histories","inputs"))
p("K05","Fixed strings behave like the character sequence they hold",
  """Length, indexing, concatenation, substring, resizing, search and comparison of fixed-capacity strings give the same result as the same operation on the plain character sequence, stay null-terminated, and comparisons form a total order consistent with equality.""",
  "all contents and positions up to the bound", "tests check literals", [I+"fixed_string.h"],[("storage + compare","fixed_string.h")])
p("K06","Static arrays index, compare and order like ordinary arrays",
  """Element access, iteration, size, emptiness, equality and lexicographic ordering of fixed arrays agree with the same sequence in a plain array, for every content.""",
  "all contents up to the bound", "few tests", [I+"static_array.h"],[("pack-expanded storage","static_array.h")])
p("K07","Spans expose exactly the viewed elements",
  """A span and every subspan, first or last part of it refers to exactly the requested contiguous elements of the underlying sequence and nothing outside it; iteration, size and byte views agree.""",
  "all lengths, offsets and counts in the bound", "tests use fixed offsets", [I+"span.h"],[("pointer/extent arithmetic","span.h")])
p("K08","Tagged pointers keep the pointer and the tag independent",
  """Setting the pointer never changes the tag and setting the tag (any value that fits) or single tag bits never changes the pointer; reading back gives exactly what was stored, and copies, moves, swaps and comparisons agree with the pair.""",
  "all aligned pointers and all tags, several alignments", "tests use one address and a few tags", [I+"tagged_ptr.h"],[("bit packing","tagged_ptr.h")],over=("inputs","histories"))
p("K09","Compressed pairs and strong typedefs are transparent wrappers",
  """A compressed pair stores and returns both values unchanged for empty and non-empty types and swaps both; arithmetic, comparison and bitwise operators on a strongly typed wrapper give the wrapped result of the underlying operation.""",
  "all values", "tests use constants", [I+"compressed_pair.h",I+"strong_typedef.h"],[("empty-base storage; operator forwarding","compressed_pair.h, strong_typedef.h")])
p("K10","Function views call exactly the callable they were bound to",
  """Calling a function view forwards every argument to the bound callable and returns its result, for functions, stateless and stateful lambdas and after copying or re-binding; an unbound view tests false.""",
  "all argument values and bindings in the bound", "tests use fixed values", [I+"function_view.h"],[("type-erased invoker","function_view.h")])
p("K11","Scope guards run exactly once, and only on the paths they promise",
  """A scope guard invokes its action exactly once at scope exit unless dismissed; the on-failure kind only when the scope is left by an exception, the on-success kind only when it is not, also while another exception is already being handled.""",
  "all combinations of dismissal and exceptions", "tests exercise a few combinations", [I+"scope_guard.h"],[("uncaught-exception comparison","scope_guard.h")],over=("inputs","fault_sequences"))
p("K12","String parameters own, view and convert text without losing any of it",
  """A string parameter yields exactly the characters it was built from in whatever encoding it is read, whether it views or owns them; after copying, moving, swapping, assigning, trimming or emptying it, the text is intact, nothing is leaked or used after being freed.""",
  "all texts up to the bound and all operation sequences", "tests run fixed cases", [I+"string_param.h","src/string_param.cpp"],[("discriminated storage","src/string_param.cpp")],over=("histories","inputs"))
p("K13","Pointer and value casts preserve identity",
  """Pointer casts between related and unrelated types, pointers and integers, and bit casts return the original value when cast back; offsetting a pointer by n bytes moves it exactly n bytes.""",
  "all values", "tests use constants", [I+"pointer_cast.h",I+"bit_cast.h",I+"impl/core_utils.h"],[("casts","pointer_cast.h, bit_cast.h")])
p("T01","The spin mutex admits one holder at a time under every interleaving",
  """At no point do two threads hold the spin mutex, a try-lock succeeds exactly when it is free, a release lets a waiter in, and writes made while holding it are visible to the next holder.""",
  "all interleavings of the bounded threads", "tests run a few schedules chosen by the OS", [I+"spin_mutex.h"],[("atomic flag exchange","spin_mutex.h")],over=("schedules",))
p("T02","A thread pool runs every submitted task exactly once",
  """Every task handed to a thread pool is executed exactly once and destroyed exactly once, before waiting on the pool returns, under every interleaving of submitter and workers, also when queues fill up.""",
  "all interleavings within the context bound, all queue sizes in the bound", "tests see only the schedules the OS picks", [I+"thread_pool.h","src/thread_pool.cpp"],[("queues, monitor, worker loop","src/thread_pool.cpp")],over=("schedules","histories"))
p("T03","Parallel for-each visits every element exactly once",
  """Running a callable over an index range or a sequence, batched over the workers, calls it exactly once per element (per element of every batch) with that element (and, when asked, a valid batch index), for every range length, direction and worker count, including more workers than elements.""",
  "all range lengths, directions and worker counts in the bound", "tests use large fixed ranges", [I+"thread_pool.h"],[("batch_size_generator, enqueue_for_each","thread_pool.h")])
p("T04","Waiting on a thread pool returns only when all its work has finished",
  """When waiting on a pool returns, every task submitted beforehand has completed, and waiting always terminates once they have; destroying the pool also waits for running workers and leaves no task storage behind.""",
  "all interleavings within the context bound", "tests see only OS schedules", ["src/thread_pool.cpp"],[("monitor counter + condition variable","src/thread_pool.cpp")],over=("schedules",))
p("T05","Task objects survive type erasure into the pool's queue",
  """A callable stored in a task slot and moved between slots is invoked with its captured state intact and destroyed exactly once, whether it is trivially copyable, nothrow-movable, a function pointer or a larger object.""",
  "all captured values and operation sequences", "tests capture a few values", [I+"thread_pool.h"],[("task storage actions","thread_pool.h impl::thread_pool_task")],over=("inputs","histories"))
p("V01","Vector arithmetic is component-wise and obeys the vector identities",
  """Addition, subtraction, negation, scaling, component products and quotients, dot and cross product, squared length and distance, min, max, clamp, abs, sums, swizzles and the compound-assignment forms equal the component-wise definition for every dimension, value and operator form.""",
  "all integer components; floating-point with bounded integer values", "tests check pseudo-random samples", [I+"vector.h"],[("component_wise","vector.h")])
p("V02","Vector equality, ordering and approximate predicates match their components",
  """Equality is true exactly when all components are equal, the zero test exactly when all are zero, approximate comparison exactly when every component is within epsilon, and component-wise min/max/closest-point style selections agree with the scalar comparisons for every finite value.""",
  "all float components", "sampled by tests", [I+"vector.h"],[("comparisons","vector.h")])
p("V03","Matrix algebra satisfies its definition for every entry and shape",
  """Element access, transpose, addition, scaling, multiplication (by matrices and by vectors on either side), identity, determinant and exact inverses obey the textbook definitions for every entry and every supported shape.""",
  "all integer entries in the stated bound", "tests check pseudo-random samples", [I+"matrix.h"],[("row/column loops, cofactors","matrix.h")])
p("V04","Quaternion algebra is the Hamilton algebra",
  """Quaternion product, conjugate, dot product and rotation of a vector obey Hamilton's rules: the product matches the definition, the conjugate of a product is the product of conjugates reversed, norms multiply, and rotating by a unit quaternion equals multiplying with the matrix made from it. Conversions to and from axis-angle pairs, Euler angles and rotation matrices, the rotation between two directions and interpolation between two rotations describe the same rotation, whatever the lengths of the given directions.""",
  "all components that are bounded integers", "tests sample", [I+"quaternion.h"],[("product formula","quaternion.h, impl/quaternion_x_matrix.h")])
p("V05","Packed unit vectors keep signs and stay within their range",
  """Packing a unit vector keeps the sign of every non-zero component, rounding never spills from one field of the packed form into another, unpacking gives the vector back to within the packed precision, and re-packing an unpacked vector keeps the sign flags.""",
  "all packed bit patterns in the bound", "tests sample", [I+"packed_unit_vector.h"],[("bit layout","packed_unit_vector.h")])
p("V06","Projection matrices map the viewing volume to the clip volume of the chosen API",
  """A perspective projection matrix sends the near and far planes to the depth range of the chosen graphics API (0 to 1 for Direct3D, -1 to 1 for OpenGL) for both handednesses, sends the edges of the field of view to the edges of the clip volume, and leaves the distance in front of the viewer in w; the overloads taking an aspect ratio or a screen size, by template or at run time, agree.""",
  "all clip planes and fields of view on the bounded grid, all API and handedness modes", "tests compare one matrix per mode", [I+"matrix.h"],[("perspective_projection","matrix.h")])
p("G01","Bounding box queries agree with the set of points in the box",
  """A box contains a point exactly when the point is between its minimum and maximum corner on every axis; corners, from-points construction, growing, clamping to the closest point, translation and transformation, containment of points, segments, triangles and boxes, and overlap with boxes, segments and planes agree with that point set, and overlap is symmetric.""",
  "all boxes/points on the bounded grid", "tests use fixed boxes", [I+"bounding_box.h",I+"impl/geometry_common.h"],[("min/max comparisons","bounding_box.h, impl/geometry_common.h")])
p("G02","Sphere queries agree with squared-distance comparison",
  """A sphere contains a point exactly when the squared distance to its centre is at most the squared radius; overlap and containment between spheres, boxes, segments and triangles agree with the distances between the shapes, overlap is symmetric, and the closest point of a sphere to a point lies in the sphere and nearest to the point.""",
  "all spheres/boxes/points on the bounded grid", "tests use fixed spheres", [I+"bounding_sphere.h",I+"impl/geometry_common.h"],[("squared distance comparisons","bounding_sphere.h")])
p("G03","Plane and triangle predicates agree with exact orientation arithmetic",
  """Signed distance, same-side and on-plane tests and segment-plane intersection agree with the exact sign of the plane equation; a triangle contains exactly the points of its plane that are on the inner side of all three edges; triangle-triangle overlap is symmetric in its arguments and independent of vertex order, and agrees with an exact overlap test; a reported intersection segment ends on both triangles. Results delivered through output parameters arrive in optimised builds too.""",
  "all bounded-grid coordinates", "tests use fixed shapes", [I+"plane.h",I+"triangle.h",I+"impl/tri_tri_intersection.h",I+"impl/geometry_common.h"],[("orientation predicates","impl/tri_tri_intersection.h, impl/geometry_common.h")])
p("G04","Separating-axis overlap tests never miss or invent an overlap",
  """Box-triangle, box-box with oriented boxes, oriented box-sphere, plane-box and interval-projection tests answer exactly whether the two shapes share a point, for every position; adding points to a projection only ever widens it to cover them.""",
  "all bounded-grid coordinates", "tests use fixed shapes", [I+"sat_tester.h",I+"impl/geometry_common.h",I+"impl/bounding_box_x_triangle.h"],[("SAT tester","sat_tester.h")])
p("G05","Ray and segment queries report hits only on the shape",
  """A reported ray hit distance is non-negative and denotes a point of the shape that was hit, a ray starting inside a box hits it, and a miss is reported exactly when the ray's path does not meet the shape; closest points on segments lie on the segment.""",
  "all bounded-grid origins, axis-aligned and grid directions", "tests use fixed rays", [I+"ray.h",I+"line_segment.h",I+"impl/geometry_common.h"],[("slab test etc.","impl/geometry_common.h")])
p("M01","Compile-time type utilities compute the type-level answers they document",
  """Type traits, type lists, type names and compile-time sequence helpers give the documented answer for every type they are instantiated with.""",
  "all types", "an infinite universe of programs", [I+"meta.h",I+"type_list.h",I+"type_name.h",I+"for_sequence.h"],[("template metaprograms","meta.h, type_list.h, type_name.h")],over=("programs",))
p("M02","Transcendental functions are accurate at compile time and run time",
  """Sine, cosine, tangent, their inverses and square root evaluated at compile time agree with the run-time library to the precision of the type.""",
  "all floats", "sampled", [I+"math.h"],[("series expansions","math.h *_naive")])
p("M03","Streamed text forms of values round-trip through their printers",
  """Printing a vector, matrix, box or similar value to a stream and reading the numbers back gives the value.""",
  "all values", "sampled", ["src/stream_printer.h","src/vector_types_common.cpp"],[("stream printers","src/vector_types_common.cpp")])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
