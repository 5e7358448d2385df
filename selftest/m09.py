P="phmap.hpp"
MUTS=[
("lazy_sub","C09",P,[("        auto   hashval = this->hash(key);\n        Inner& inner   = sets_[subidx(hashval)];","        auto   hashval = this->hash(key);\n        Inner& inner   = sets_[subidx(hash_ref()(key))];")]),
("set_tag_raw","C09",P,[("                size_t hashval = PolicyTraits::apply(HashElement{ hash_ref() }, PolicyTraits::element(old_slots + i));\n                auto   target  = find_first_non_full(hashval);","                size_t hashval = PolicyTraits::apply(HashElement{ hash_ref() }, PolicyTraits::element(old_slots + i));\n                auto   target  = find_first_non_full(hashval >> 1);")]),
("drop_tag","C09",P,[("                set_ctrl(i, H2(hashval));","                set_ctrl(i, H2(H1(hashval, ctrl_)));")]),
("commit_h1","C09",P,[("        set_ctrl(i, H2(hashval));\n        infoz","        set_ctrl(i, H2(hashval + 0));\n        infoz"),]),
("commit_h2","C09",P,[("    void commit_insert(size_t i, size_t hashval) {","    void commit_insert(size_t i, size_t hashval) {\n        hashval ^= capacity_ & 64;")]),
("insert_node_hash","C09",P,[("        size_t hashval = this->hash(key);\n        Inner& inner   = sets_[subidx(hashval)];","        size_t hashval = this->hash_ref()(key);\n        Inner& inner   = sets_[subidx(hashval)];")]),
("has_elem","C09",P,[("            for (uint32_t i : g.Match((h2_t)H2(hashval))) {\n                if (GTL_PREDICT_TRUE(PolicyTraits::element(slots_ + seq.offset((size_t)i)) == elem))","            for (uint32_t i : g.Match((h2_t)(hashval >> 57))) {\n                if (GTL_PREDICT_TRUE(PolicyTraits::element(slots_ + seq.offset((size_t)i)) == elem))")]),
("subidx","C09",P,[("sets_[subidx(hashval)]","sets_[subidx(hashval)]",14)]),
("find_first_probe","C09",P,[("    FindInfo find_first_non_full(size_t hashval) {\n        auto seq = probe(hashval);","    FindInfo find_first_non_full(size_t hashval) {\n        auto seq = probe_seq<Group::kWidth>(hashval >> 8, capacity_);")]),
("copy_hash","C09",P,[("            auto         target  = find_first_non_full(hashval);","            auto         target  = find_first_non_full(H1(hashval, nullptr));")]),
("lazy_h","C09",P,[("        size_t        offset = set._find_key(key, hashval);\n        if (offset == (size_t)-1) {\n            offset = set.prepare_insert(hashval);\n            set.lazy","        size_t        offset = set._find_key(key, hashval);\n        if (offset == (size_t)-1) {\n            offset = set.prepare_insert(hashval * 2);\n            set.lazy")]),
("ip","C09",P,[("            const size_t hashval = PolicyTraits::apply(HashElement{ hash_ref() }, v);","            const size_t hashval = PolicyTraits::apply(HashElement{ hash_ref() }, *that.begin());")]),
]
