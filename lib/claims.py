HOOKS = None
NOTES = "Checks exit 0 held / 1 violation / 2 undecided (tool or extraction error). See DESIGN.md."
CLAIMS = {
 "C08": ("other", "Proof for the small static collection (its capacity is fixed); bounded and labelled so, one operation on every valid content (so every history within the bound): sorted and unsorted arrays of at most 7 keys, hash tables of 5 slots. Growth, conversion between kinds, trees (C09) and indexing of arrays by concrete exploration of random histories with allocation failures against a model."),
 "C09": ("other", "Bounded, labelled so: rotations and lookup are discharged for every link, key and colour in small pools (8 slots / 3 nodes), one whole insertion or deletion for every valid red-black and AVL tree of at most 3 nodes, which one step of induction extends to histories over such trees; larger trees, walks and steps are explored concretely on random histories of trees of at most 61 nodes, every state checked against order, balance and full linkage (the verifier does not finish on symbolic trees of useful size)."),
 "C10": ("other", "Bounded, labelled so: both sorting routines are discharged for every content and comparator outcome on arrays of at most 5 (4) elements; large arrays, element sizes and stateful comparators by concrete exploration."),
 "C01": ("proof", "Complete proof: all widths, shifts, types, values and memory; loops unwound to the 17 bytes a field can span with unwinding assertions. Trusts CBMC and the x86_64 memory model."),
 "C04": ("proof", "Complete proof: all values, target types and sizes 1..16; value production is taken by contract (C05)."),
 "C07": ("proof", "Complete proof for the growth and append primitives over all sizes, contents and allocation outcomes; formatted printing takes vsnprintf by contract."),
 "C11": ("proof", "Complete proof per comparator and hash; recursive structure comparison is proved one level over the member contract. Byte strings inside hashes are bounded to 17 bytes (labelled bounded). Not covered: built-in comparators on NaN floats, address order of a NULL against a non-NULL string."),
 "C12": ("proof", "Complete proof: every scalar type, value and stream position, at byte level through the registered handlers and the library's stream operations; strings, character arrays, opaque blocks, references and union headers of every size at item level. libtirpc's primitives are taken by contract; growth of the stream by C07, bit-field access by C01."),
 "C13": ("proof", "Complete proof over all stream contents, lengths, positions and announced sizes: every stream operation, string, character-array, array and pointer decoder under contract, loops by invariant. Element sizes of arrays and pointers are enumerated (0,1,3,4,8,24); recursion over nested types is by contract of the inner decoder. libtirpc's own primitives are taken by contract."),
 "C14": ("other", "Proof (loops by invariant, any number of nodes) for appending to a node list and for walking one child chain; bounded and labelled so: linking inside trees of at most 5 nodes, traversal of trees of at most 4 nodes, larger trees and trees of really saved random object graphs by concrete exploration of the real code."),
 "C16": ("proof", "Proof for every discriminator type and value over unions of up to 200 branches, and for the per-node set of resolutions. Bounded and labelled so: chains of redirections (at most 3), struct/union discriminators and the walk through the parents (concrete exploration, outside the verifier's reach). Collection lookups are taken by contract (C08)."),
 "C17": ("proof", "Complete proof over all texts, lengths and target sizes (ghost byte positions): character, string and character-array loaders, in place or behind a pointer, with every allocation able to fail. Value conversion for non-text values is taken by contract (C05)."),
 "C18": ("other", "Proof for the conversion of every number to an index or reference. Bounded and labelled so: the resolution passes (text, XDR, YAML) are discharged for every index, reference, flag, node type, missing target and allocation outcome on documents of at most 3 nodes, and explored concretely on 12 nodes; documents of all text formats are explored concretely. Not covered: the type of the node a reference leads to."),
 "C19": ("proof", "Complete proof over element counts, numbers of dimensions and node lists (loops by invariant) of one level of saving, loading and binary loading; nested levels follow by induction over the contract of the recursive call. Element sizes enumerated (1,3,4,8,24); declarations of up to 5 dimensions."),
 "C20": ("proof", "Complete proof over all identifiers, levels and table contents; libc formatting is taken by contract."),
}
PENDING = "no check yet: contracts for this property are still to be written"
NA = {i: PENDING for i in ["C%02d" % k for k in range(1, 40)]}
