D="phmap_dump.hpp"
MUTS=[
("no_growth_write","C25",D,[("    ar.saveBinary(&growth_left(), sizeof(size_t));\n","")]),
("swap_order","C25",D,[("    ar.saveBinary(&size_, sizeof(size_t));\n    ar.saveBinary(&capacity_, sizeof(size_t));","    ar.saveBinary(&capacity_, sizeof(size_t));\n    ar.saveBinary(&size_, sizeof(size_t));")]),
("both_cap","C25",D,[("sizeof(ctrl_t) * (capacity_ + Group::kWidth + 1)","sizeof(ctrl_t) * (capacity_ + Group::kWidth + 8)",2)]),
("ctrl_short_both","C25",D,[("sizeof(ctrl_t) * (capacity_ + Group::kWidth + 1)","sizeof(ctrl_t) * (capacity_)",2)]),
("slots_size_n","C25",D,[("    ar.saveBinary(slots_, sizeof(slot_type) * capacity_);","    ar.saveBinary(slots_, sizeof(slot_type) * size_);")]),
("slots_size_both","C25",D,[("sizeof(slot_type) * capacity_","sizeof(slot_type) * size_",2)]),
("gl_before","C25",D,[("        ar.loadBinary(&growth_left(), sizeof(size_t));\n","        ar.loadBinary(&growth_left(), sizeof(size_t));\n        reset_growth_left(capacity_);\n")]),
("no_swap","C26",D,[("    raw_hash_set<Policy, Hash, Eq, Alloc>().swap(*this); // clear any existing content\n","")]),
("cond_swap","C26",D,[("    raw_hash_set<Policy, Hash, Eq, Alloc>().swap(*this); // clear any existing content\n","    if (size_) raw_hash_set<Policy, Hash, Eq, Alloc>().swap(*this); // clear any existing content\n")]),
("clear_only","C26",D,[("    raw_hash_set<Policy, Hash, Eq, Alloc>().swap(*this); // clear any existing content\n","    clear();\n")]),
("init_half","C26",D,[("        initialize_slots(new_capacity);\n","        initialize_slots(new_size);\n")]),
("no_mismatch","C26",D,[("    if (submap_count != subcnt()) {","    if (submap_count > subcnt()) {")]),
("mismatch_true","C26",D,[('" << std::endl;\n        return false;\n    }\n\n    for (size_t i = 0; i < submap_count','" << std::endl;\n        return true;\n    }\n\n    for (size_t i = 0; i < submap_count')]),
("clear_first","C26",D,[("    size_t submap_count = 0;\n","    size_t submap_count = 0;\n    clear();\n")]),
("skip_last","C25",D,[("    for (size_t i = 0; i < submap_count; ++i) {","    for (size_t i = 0; i + 1 < submap_count; ++i) {")]),
("skip_dump","C25",D,[("    for (size_t i = 0; i < sets_.size(); ++i) {","    for (size_t i = 1; i < sets_.size(); ++i) {")]),
("skip_empty","C25",D,[("        if (!inner.set_.phmap_dump(ar)) {","        if (inner.set_.size() && !inner.set_.phmap_dump(ar)) {")]),
("drop_always","C25",D,[("    if (version == 0) {\n        drop","    if (version <= 1) {\n        drop")]),
("empty_early","C25",D,[("    if (size_ == 0)\n        return true;\n    if (version > 0) {","    if (size_ == 0 || version == 0)\n        return true;\n    if (version > 0) {")]),
("dump_early","C25",D,[("    ar.saveBinary(&capacity_, sizeof(size_t));\n    if (size_ == 0)\n        return true;","    if (size_ == 0)\n        return true;\n    ar.saveBinary(&capacity_, sizeof(size_t));")]),
("alloc_cap0","C25",D,[("    if (new_capacity) {","    if (new_size) {")]),
]
