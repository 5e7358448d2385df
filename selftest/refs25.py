D="phmap_dump.hpp"
REFS=[
("hdr",[(D,"    ar.saveBinary(&s_version, sizeof(size_t));\n    ar.saveBinary(&size_, sizeof(size_t));\n    ar.saveBinary(&capacity_, sizeof(size_t));\n","    const size_t hdr[3] = { s_version, size_, capacity_ };\n    ar.saveBinary(hdr, sizeof(hdr));\n")]),
("chain",[(D,"    ar.saveBinary(ctrl_, sizeof(ctrl_t) * (capacity_ + Group::kWidth + 1));\n    ar.saveBinary(slots_, sizeof(slot_type) * capacity_);\n    return true;","    return ar.saveBinary(ctrl_, sizeof(ctrl_t) * (capacity_ + Group::kWidth + 1)) &&\n           ar.saveBinary(slots_, sizeof(slot_type) * capacity_);")]),
("rangefor",[(D,"    for (size_t i = 0; i < sets_.size(); ++i) {\n        auto&                         inner = sets_[i];","    size_t i = 0;\n    for (auto& inner : sets_) {\n        ++i;")]),
("rangeforload",[(D,"    for (size_t i = 0; i < submap_count; ++i) {\n        auto&                         inner = sets_[i];","    size_t i = 0;\n    for (auto& inner : sets_) {\n        ++i;")]),
("flip",[(D,"    if (size_ == 0)\n        return true;\n    ar.saveBinary(&growth_left(), sizeof(size_t));\n    ar.saveBinary(ctrl_, sizeof(ctrl_t) * (capacity_ + Group::kWidth + 1));\n    ar.saveBinary(slots_, sizeof(slot_type) * capacity_);\n    return true;","    if (size_ > 0) {\n        const size_t gl = growth_left();\n        ar.saveBinary(&gl, sizeof(gl));\n        const size_t nctrl = capacity_ + 1 + Group::kWidth;\n        ar.saveBinary(ctrl_, nctrl * sizeof(ctrl_t));\n        ar.saveBinary(slots_, capacity_ * sizeof(slot_type));\n    }\n    return true;")]),
("loadgl",[(D,"        ar.loadBinary(&growth_left(), sizeof(size_t));","        size_t gl = 0;\n        ar.loadBinary(&gl, sizeof(gl));\n        growth_left() = gl;")]),
("clearold",[(D,"    raw_hash_set<Policy, Hash, Eq, Alloc>().swap(*this); // clear any existing content\n","    destroy_slots();\n")]),
("while",[(D,"    for (size_t i = 0; i < submap_count; ++i) {\n        auto&                         inner = sets_[i];","    size_t k = 0;\n    while (k != submap_count) {\n        const size_t i = k++;\n        auto&                         inner = sets_[i];")]),
]
