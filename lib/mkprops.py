#!/usr/bin/env python3
"""writes /verif/properties.jsonl"""
import json
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = None
    P.append(d)

p("C01", "Bit-fields are extracted and stored exactly, without touching neighbours",
  "For every bit-field position and width (1 to 128 bits, starting at any bit of a byte), reading a bit-field yields exactly its bits, zero- or sign-extended according to its declared type, and storing a value writes exactly the field's bits. Bits outside the field, including the other bits of its first and last byte, never change and no byte the field does not overlap is read or written. A stored value is therefore read back unchanged modulo the field's width.",
  ["inputs"], "all widths, start bits, declared integer types, memory contents and stored values",
  "The tests use a few dozen fixed layouts and values; position x width x value x neighbouring content is about 2^280 cases.",
  ["src/metaresc.c", "src/mr_save.c", "src/mr_load.c"], [("mr_save_bitfield_value", "src/metaresc.c"), ("mr_load_bitfield_value", "src/metaresc.c")])
p("C02", "Integer literals parse to their exact mathematical value",
  "Parsing an integer from a NUL-terminated string yields the value of the longest valid prefix (optional white space, then decimal, 0x hexadecimal or 0 octal digits, 128-bit arithmetic) and an end position right after that prefix. No byte after the terminating NUL is read and the string is not modified. Decimal text printed for any 128-bit value parses back to that value.",
  ["inputs"], "all strings", "The tests parse a handful of literals; acceptance of prefixes, digits of each radix and values near the 128-bit limits are not enumerable.",
  ["src/metaresc.c"], [("mr_strtouintmax", "src/metaresc.c")])
p("C03", "Integers print as their exact decimal text",
  "For every signed or unsigned integer of 8 to 128 bits the printed text is its canonical decimal representation: optional minus sign, no leading zeros, no other characters. The text always fits the working buffer, is NUL-terminated, and the reported length is the number of characters appended.",
  ["inputs"], "all values of all integer widths", "The tests print boundary values; 2^128 values cannot be sampled, and digits in the middle of the range go through the same division loop.",
  ["src/mr_stringify.c", "src/mr_print.c"], [("mr_uintmaxtostr", "src/mr_stringify.c"), ("mr_ra_printf_int128/uint128", "src/mr_stringify.c")])
p("C04", "Loading an integer stores exactly the target-width value",
  "When a parsed integer value is stored into an integer, boolean or enumeration target, the target receives the value converted by C rules to its type, and exactly the target's bytes are written. Reading an integral discriminator or enumeration from memory yields its sign- or zero-extended value for every supported type, and the reported size of every integral type is its C size.",
  ["inputs"], "all target types, all values, all memory contents", "Tests load a few in-range values per type and cannot see writes past a target or wrong extension for untested values.",
  ["src/mr_load.c", "src/metaresc.c", "src/mr_value.c"], [("mr_assign_int", "src/metaresc.c"), ("mr_get_enum_value", "src/metaresc.c"), ("mr_type_size", "src/metaresc.c"), ("mr_load_integer", "src/mr_load.c")])
p("C05", "Expressions in initializers evaluate as C integer and floating arithmetic",
  "Adding, subtracting, multiplying, dividing, taking the remainder, bitwise operations and negation of two integer operands give the exact 128-bit two's-complement result of the C operator, and mixed operands promote to floating or complex. Division or remainder by integer zero, and operands that are not numbers, are reported as failure; no operation crashes, reads outside its operands or changes any other operand.",
  ["inputs"], "all operand kinds and values", "The tests evaluate a few constant expressions; operand-kind combinations and values such as zero divisors or extreme integers are not covered.",
  ["src/mr_value.c"], [("mr_value_add/sub/mul/div/mod/bit_*", "src/mr_value.c"), ("mr_value_neg", "src/mr_value.c"), ("mr_value_cast", "src/mr_value.c")])
p("C06", "Quoting and unquoting strings are inverse and stay in bounds",
  "For every byte string, the quoted text a saver emits is read back by the matching loader (C initializer, JSON, Scheme) as exactly the same bytes, and every emitted quoted text is printable and properly terminated. Unquoting any text, well formed or not, never reads past the text, never writes past the destination it sized, and leaves it NUL-terminated.",
  ["inputs"], "all byte strings and all texts", "Tests round-trip one all-bytes string; malformed and truncated escapes and adjacency of escapes are combinatorial.",
  ["src/mr_stringify.c", "src/cinit_save.c", "src/cinit_load.y", "src/json_save.c", "src/json_load.y", "src/scm_save.c", "src/scm_load.y"],
  [("mr_ra_printf_quote_string", "src/mr_stringify.c"), ("json_unquote_str", "src/json_load.y"), ("cinit_unquote_str", "src/cinit_load.y"), ("scm_unquote_str", "src/scm_load.y")])
p("C07", "Resizable arrays and text buffers grow without losing or corrupting content",
  "Growing a resizable array or appending to a text buffer preserves every byte already present, puts the new element directly after them, keeps used size within allocated size, and keeps a text buffer NUL-terminated with its size counting the terminator. If memory runs out, an array is left exactly as it was, and a text buffer is released exactly once and reported as failed.",
  ["inputs", "fault_sequences"], "all sizes, contents and allocation outcomes", "Tests cannot enumerate sizes around reallocation boundaries combined with allocation failure at each one.",
  ["src/metaresc.c", "src/mr_stringify.c", "src/mr_save.c"], [("mr_rarray_allocate_element", "src/metaresc.c"), ("mr_rarray_append", "src/metaresc.c"), ("mr_ra_append_char/mr_ra_append_string", "src/mr_stringify.c"), ("mr_add_ptr_to_list", "src/metaresc.c")])
p("C08", "Every indexed collection behaves as a set of distinct keys",
  "After any history of additions, deletions and lookups, every kind of indexed collection (unsorted, sorted, small static, hash, red-black, AVL) contains exactly the keys added and not deleted since, each once: adding an equal key returns the stored one, lookup finds a key exactly when present, deletion of an absent key fails without effect, and the item count equals the number of keys visited by iteration. A failed allocation reports failure and leaves the contents and the count as they were.",
  ["histories", "inputs", "fault_sequences"], "all keys, all operation sequences (by induction over one operation), all allocation failures", "Tests run fixed insertion orders; histories with collisions, resizes, deletions at each position and failures are unbounded.",
  ["src/mr_ic.c", "src/mr_ic.h"], [("mr_ic_unsorted/sorted/static_array/hash/rbtree/avltree add, del, find, foreach, index", "src/mr_ic.c")])
p("C09", "Search trees stay ordered, balanced and fully linked",
  "After any insertion or deletion, a red-black or AVL tree stored in its node pool is a proper search tree: in-order traversal is strictly increasing under the comparator, every pool slot other than the sentinel is linked exactly once, and the balance rules (red-black colouring or AVL heights) hold. Lookups therefore end within logarithmically many steps and a search path never exceeds the fixed-size path buffer.",
  ["histories", "inputs", "fault_sequences"], "all trees reachable by insert and delete histories", "Tests check a few random trees; rotations at each position and in each colour/balance configuration need systematic coverage.",
  ["src/mr_btree.c", "src/mr_btree.h"], [("mr_rbtree_add/del", "src/mr_btree.c"), ("mr_avltree_add/del", "src/mr_btree.c"), ("mr_tree_find", "src/mr_btree.c")])
p("C10", "Sorting returns an ordered permutation of the same elements",
  "For every array, element size and ordering, sorting yields the same elements in non-decreasing order of the comparator. No byte outside the array is read or written, and elements are moved whole.",
  ["inputs"], "all arrays, element sizes and comparators", "Tests sort sample arrays; sizes, duplicates and element widths are unbounded.",
  ["src/mr_hsort.c"], [("mr_hsort", "src/mr_hsort.c")])
p("C11", "Key comparisons are consistent orders and equal keys hash equally",
  "For every kind of key used by the library's lookup structures (names, type and field names, enumeration values, union overrides, pointers, integers), comparison is antisymmetric and transitive, equality is an equivalence, and equal keys have equal hash values. The sign of every integer comparison is exact over the full range of the type.",
  ["inputs"], "all pairs and triples of keys of every key type", "Tests compare a few keys; transitivity and overflow in subtraction-style comparisons are properties of pairs and triples over full ranges.",
  ["src/metaresc.c", "src/mr_ic.c", "src/mr_save.c"], [("mr_hashed_string_cmp / mr_hashed_string_get_hash", "src/metaresc.c"), ("mr_*_cmp basic types", "src/mr_ic.c"), ("mr_ud_override_cmp, mr_enumfields_cmp, mr_fd_name_cmp", "src/metaresc.c")])
p("C12", "XDR encoding and decoding of scalars are inverse",
  "For every value of every integer, enumeration, bit-field and string type, decoding what was encoded gives the same value back and consumes exactly the bytes that were produced. Every value takes whole 4-byte units, integers big-endian as the XDR standard requires (128-bit integers as two 64-bit halves, low half first).",
  ["inputs"], "all values of all scalar types", "Tests encode sample values; per-width sign and byte-order behaviour is over the full ranges.",
  ["src/xdr.c"], [("xdr_int8/uint8/int16/.../uint128", "src/xdr.c"), ("xdrra_putlong/getlong/putbytes/getbytes", "src/xdr.c")])
p("C13", "Reading an XDR stream from memory never leaves the supplied bytes",
  "Whatever the bytes of an XDR memory stream and whatever read, position or inline request is made, only bytes inside the supplied buffer are accessed: a request for more than remains fails and leaves the stream position unchanged. Decoding into a fixed-size character field or array never writes past that field.",
  ["inputs", "histories"], "all streams, positions and request sizes", "Tests decode well-formed streams; malformed or truncated input is the case that matters and cannot be enumerated.",
  ["src/xdr.c"], [("xdrra_getlong/getbytes/setpostn/inline", "src/xdr.c"), ("xdr_char_array_", "src/xdr.c"), ("xdr_load_array", "src/xdr.c")])
p("C14", "Serialization trees are well linked and traversed once per node",
  "Appending a node to a serialization tree makes it the last child of its parent and changes no other parent/child/sibling relation; every node stays reachable from its parent exactly once. The depth-first walk visits every node of the tree exactly once before and once after its descendants, in sibling order, and stops with failure as soon as the visitor fails.",
  ["inputs", "histories"], "all trees and all append sequences", "Tests walk the trees their sample structures give; link correctness is an invariant over all shapes.",
  ["src/metaresc.c", "src/mr_save.c", "src/mr_load.c"], [("mr_add_child", "src/metaresc.c"), ("mr_ptrs_dfs", "src/metaresc.c")])
p("C15", "Type names are normalized to a canonical form",
  "Normalizing a stringified C type removes qualifiers, attributes and redundant spaces without ever growing the string or touching memory beyond it, and is idempotent. Detecting a type that is an array, a function or a pointer from its stringified form never reads outside the string.",
  ["inputs"], "all strings", "Tests register fixed declarations.", ["src/metaresc.c"], [("mr_normalize_type", "src/metaresc.c")])
p("C16", "Union discrimination always selects an existing branch",
  "Whatever discriminator value, name or override is supplied, union resolution selects the branch it names if there is one and otherwise the documented default (the first branch), never a descriptor outside the union. An override for the exact discriminator value takes precedence over matching by name or position.",
  ["inputs"], "all discriminator values, names and union sizes", "Tests use in-range discriminators; out-of-range, negative and wide values come from corrupt or future data.",
  ["src/mr_save.c"], [("mr_union_discriminator_by_idx/by_name/by_type", "src/mr_save.c")])
p("C17", "Loading text into character fields never overruns them",
  "Loading a character or a string into a character, fixed-size character array or string target stores exactly the text bytes followed by a terminating NUL when there is room, and reports failure or truncates when there is not. No byte beyond the declared target is ever written and no byte beyond the parsed text is read.",
  ["inputs"], "all texts, target sizes", "Tests load fitting text; the boundary is over all lengths.", ["src/mr_load.c"], [("mr_load_char", "src/mr_load.c"), ("mr_load_char_array", "src/mr_load.c"), ("mr_get_char_array", "src/mr_load.c")])
p("C18", "References in loaded documents resolve only to existing nodes",
  "When a loaded document contains node indexes and references to them, every reference that resolves receives the address of the one node carrying that index; a reference to an index no node carries leaves its target untouched and is reported. No index, whatever its value, causes access outside the internal tables.",
  ["inputs"], "all index and reference values", "Tests load documents with consistent references; hostile or damaged indexes are unbounded.", ["src/mr_load.c", "src/xdr.c"], [("mr_set_crossrefs", "src/mr_load.c")])
p("C19", "Multi-dimensional arrays keep their shape through save and load",
  "Saving an array of any number of dimensions produces nested nodes whose element counts are the dimensions in order, each element at its true memory offset, and loading fills exactly those elements. Surplus elements in the input are rejected and never written past the array.",
  ["inputs"], "all dimension vectors and element sizes", "Tests use square or one-dimensional arrays.", ["src/mr_save.c", "src/mr_load.c"], [("mr_save_array", "src/mr_save.c"), ("mr_load_array", "src/mr_load.c")])
p("C20", "Diagnostics formatting stays inside its tables",
  "Reporting or formatting a message for any message identifier and log level value selects an existing template or a fixed fallback text. No table is read out of range and no allocation is leaked or freed twice.",
  ["inputs"], "all identifier and level values", "Tests emit the identifiers the library uses.", ["src/mr_message.c"], [("mr_message_format", "src/mr_message.c"), ("mr_message", "src/mr_message.c")])
p("C21", "Any supported data graph survives a save and load round trip in every format",
  "For every data graph made of registered types, loading the document produced by saving it in any of the supported formats gives a graph equal to the original, with shared and cyclic references preserved.",
  ["inputs", "programs"], "all type declarations, all values, all formats", "Unbounded product of declarations, values and formats.",
  ["src/mr_save.c", "src/mr_load.c", "src/xml_save.c", "src/json_save.c", "src/cinit_save.c", "src/scm_save.c", "src/yaml_save.c", "src/xdr.c"], [("mr_save / mr_load and the per-format code", "src/")])
p("C22", "Deep copy and recursive free treat every reachable object exactly once",
  "A deep copy is an isomorphic graph that shares no mutable object with the original, and releasing a graph frees every reachable allocation exactly once. If memory runs out in the middle, nothing is leaked and the original is untouched.",
  ["inputs", "fault_sequences"], "all graphs and all allocation failures", "Unbounded graphs and failure points.", ["src/metaresc.c"], [("mr_copy_recursively", "src/metaresc.c"), ("mr_free_recursively", "src/metaresc.c")])
open("/verif/properties.jsonl", "w").write("".join(json.dumps(x) + "\n" for x in P))
