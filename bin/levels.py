B_ARENA = "Recast of containers, the recasting compression of the other kinds, mutable iterators' raw reborrow"
B_CHAIN = "the recasting compression and mutable iterators of the chain arenas; contiguous layout after compression"
B_ORD = "the mutable value iterator, Recast, the recasting compression and the invariant checker of the ordered arena"
B_SURJ = "the recasting compression, Recast and mutable iterators of the surject arena"
p("A01", "proof", "Arena functions under contract; remaining wrappers bounded", B_ARENA, assumptions=[VEC])
p("A02", "proof", "Arena functions under contract; remaining wrappers bounded", B_ARENA, assumptions=[VEC])
p("A03", "proof", "Arena functions under contract; remaining wrappers bounded", B_ARENA, assumptions=[VEC])
p("A04", "proof", "functions of all four arena kinds under contract; remaining wrappers bounded", B_ARENA, assumptions=[VEC])
p("A05", "proof", "functions of all four arena kinds under contract; remaining wrappers bounded", B_ARENA, assumptions=[VEC])
p("A06", "proof", "Arena functions under contract; recasting user structures bounded", B_ARENA, assumptions=[VEC])
p("A07", "proof", "Arena functions under contract; independence of the copies is Rust ownership", B_ARENA, assumptions=[VEC])
p("A08", "proof", "advancer and shared iterators under contract; mutable iterators bounded", B_ARENA, assumptions=[VEC])
p("C01", "proof", "chain arena functions under contract; remaining wrappers bounded", B_CHAIN, assumptions=[VEC])
p("C02", "proof", "chain arena functions under contract; remaining wrappers bounded", B_CHAIN, assumptions=[VEC])
p("C03", "proof", "chain arena functions under contract; remaining wrappers bounded", B_CHAIN, assumptions=[VEC])
p("C04", "proof", "chain removal, iteration, cloning, comparison and compression under contract; wrappers bounded", B_CHAIN, assumptions=[VEC])
p("P01", "proof", "pointer traits proved for every index and generation type from the compiler's macro expansion", "Debug and ordering of pointers", assumptions=[STD])
p("S01", "proof", "surject arena functions under contract; remaining wrappers bounded", B_SURJ, assumptions=[VEC])
p("S02", "proof", "surject arena functions under contract; remaining wrappers bounded", B_SURJ, assumptions=[VEC])
p("S03", "proof", "surject comparison, cloning, iteration and compression under contract; remaining wrappers bounded", B_SURJ, assumptions=[VEC])
ORD = ["core::cmp::Ordering compares equal exactly when it is the same value", "cloning an index returns the same index",
       "usize::next_power_of_two and usize::trailing_zeros are as documented", "the key type's comparison is a total order consistent with its equality"]
for i in ("O01", "O02", "O03", "O04", "O05"):
    p(i, "proof", "ordered arena functions under contract; remaining wrappers bounded", B_ORD, assumptions=[VEC] + ORD)
p("V01", "proof", "every function of the raw-pointer vector under contract over a ghost memory; zero sized elements and Send/Sync bounded", "elements of size zero, element drop order, Send/Sync, the safe twin of the vector chosen by a feature", assumptions=[VEC])
SERDE = ["serializers and deserializers behave as the serde traits document: an access object gives a finite sequence of entries or an error, and a visitor is handed exactly the stored form",
         "tuples, Option and the non-zero integers are stored and read part by part as documented by serde",
         "what it means that a stored form was read as, or written from, a value of the crate's own types is fixed by definitional axioms (module serde_spec)"]
p("E01", "proof", "serialization of every arena kind under contract, round trip as lemmas; user types and data formats bounded", "serialization of user types, concrete data formats",
  assumptions=[VEC] + SERDE + ["element, key and value types read back as an equal value"])
p("E02", "proof", "deserialization of every arena kind under contract for arbitrary input; data formats bounded", "concrete data formats, panics of the format itself",
  assumptions=[VEC] + ORD[:3] + SERDE)
