CONSTANTS Members = {"value_type", "size_type", "allocator_type", "iterator", "const_iterator", "size", "begin", "end", "cbegin", "cend", "data", "difference_type", "pointer", "reference", "iterator_category"}
          Sigs <- SigsV
          Ixs = {"i", "s"}
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Needed Calls
PROPERTIES Grows
