PH="phmap.hpp"
MUTS=[
("c13_mark_first","C13",PH,[("        auto target = find_first_non_full(hashval);\n        if (GTL_PREDICT_FALSE(growth_left() == 0 && !IsDeleted(ctrl_[target.offset]))) {\n            rehash_and_grow_if_necessary();\n            target = find_first_non_full(hashval);\n        }\n        return target.offset;","        auto target = find_first_non_full(hashval);\n        if (GTL_PREDICT_FALSE(growth_left() == 0 && !IsDeleted(ctrl_[target.offset]))) {\n            rehash_and_grow_if_necessary();\n            target = find_first_non_full(hashval);\n        }\n        set_ctrl(target.offset, H2(hashval));\n        return target.offset;")]),
("c13_size_first","C13",PH,[("            offset = prepare_insert(hashval);\n            emplace_at(offset, std::forward<Args>(args)...);","            offset = prepare_insert(hashval);\n            ++size_;\n            emplace_at(offset, std::forward<Args>(args)...);\n            --size_;")]),
("c13_cap_before_alloc","C13",PH,[("        initialize_slots(new_capacity);\n        capacity_ = new_capacity;\n\n        for","        capacity_ = new_capacity;\n        initialize_slots(new_capacity);\n\n        for")]),
("c13_free_before_alloc","C13",PH,[("        initialize_slots(new_capacity);\n        capacity_ = new_capacity;\n\n        for","        ctrl_ = nullptr;\n        initialize_slots(new_capacity);\n        capacity_ = new_capacity;\n\n        for")]),
("c13_growth_first","C13",PH,[("        reset_growth_left(new_capacity);\n    }\n\n    void destroy_slots","    }\n\n    void destroy_slots"),("        auto  layout = MakeLayout(new_capacity);\n        char* mem ","        reset_growth_left(new_capacity);\n        auto  layout = MakeLayout(new_capacity);\n        char* mem ")]),
("c14_no_ctrl","C14",PH,[("        set_ctrl(index, was_never_full ? kEmpty : kDeleted);\n","        if (!was_never_full) set_ctrl(index, kDeleted);\n")]),
("c14_clear_skip","C14",PH,[("                if (IsFull(ctrl_[i])) {\n                    PolicyTraits::destroy(&alloc_ref(), slots_ + i);\n                }\n            }\n        }\n        auto layout","                if (!IsEmpty(ctrl_[i])) {\n                    PolicyTraits::destroy(&alloc_ref(), slots_ + i);\n                }\n            }\n        }\n        auto layout")]),
("c14_nodestroy","C14",PH,[("        PolicyTraits::destroy(&alloc_ref(), it.slot_);\n        erase_meta_only(it);","        if (size_ > 1) PolicyTraits::destroy(&alloc_ref(), it.slot_);\n        erase_meta_only(it);")]),
("c14_size_cond","C14",PH,[("        set_ctrl(index, was_never_full ? kEmpty : kDeleted);\n        growth_left() += was_never_full;","        set_ctrl(index, was_never_full ? kEmpty : kDeleted);\n        growth_left() += was_never_full;\n"),("        --size_;\n        const size_t index  ","        if (capacity_ > 1) --size_;\n        const size_t index  ")]),
("c14_wrong_index","C14",PH,[("        set_ctrl(index, was_never_full ? kEmpty : kDeleted);","        set_ctrl(index & (capacity_ >> 1), was_never_full ? kEmpty : kDeleted);")]),
("c14_double","C14",PH,[("            while (first != last) {".replace("    ","    "),"",0)] ),
("c14_loop_short","C14",PH,[("            for (size_t i = 0; i != capacity_; ++i) {\n                if (IsFull(ctrl_[i])) {\n                    PolicyTraits::destroy(&alloc_ref(), slots_ + i);\n                }\n            }\n        }\n        auto layout","            for (size_t i = 1; i < capacity_; ++i) {\n                if (IsFull(ctrl_[i])) {\n                    PolicyTraits::destroy(&alloc_ref(), slots_ + i);\n                }\n            }\n        }\n        auto layout")]),
("c14_extract_destroy","C14",PH,[("        auto node = CommonAccess::Make<node_type>(alloc_ref(), position.inner_.slot_);\n        erase_meta_only(position);","        auto node = CommonAccess::Make<node_type>(alloc_ref(), position.inner_.slot_);\n        _erase(position);")]),
("c14_merge_noerase","C14",PH,[("                src.erase_meta_only(it);\n            }\n        }\n    }\n\n    template<typename H, typename E>\n    void merge(raw_hash_set<Policy, H, E, Alloc>&& src)","                src._erase(it);\n            }\n        }\n    }\n\n    template<typename H, typename E>\n    void merge(raw_hash_set<Policy, H, E, Alloc>&& src)")]),
]
