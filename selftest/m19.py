PH="phmap.hpp"; BT="btree.hpp"; V="vector.hpp"
MUTS=[
("het_count","C19",PH,[("        return find(key) == end() ? size_t(0) : size_t(1);","        const key_type& k = key;\n        return find(k) == end() ? size_t(0) : size_t(1);")]),
("het_par_count","C19",PH,[("        return this->contains(key) ? 1 : 0;","        const key_type& k = key;\n        return this->contains(k) ? 1 : 0;")]),
("het_bt_multi_erase","C19",BT,[("    const iterator _end = internal_end(internal_upper_bound(key));","    const iterator _end = internal_end(internal_upper_bound(key_type(_begin.key())));")]),
("bt_unique_swap","C14 C12",BT,[("    erase(iter);\n    return 1;","    erase(iter);\n    return size_ ? 1 : 1;")]),
("node_transfer","C16",PH,[("    static void transfer(Alloc*, slot_type* new_slot, slot_type* old_slot) {\n        *new_slot = *old_slot;","    static void transfer(Alloc* a, slot_type* new_slot, slot_type* old_slot) {\n        construct(a, new_slot, std::move(**old_slot));\n        destroy(a, old_slot);")]),
("eraseif_count","C10",PH,[("        if (std::forward<F>(f)(const_cast<value_type&>(*it))) {\n            set._erase(it);\n            return 1;\n        }\n        return 0;","        if (!std::forward<F>(f)(const_cast<value_type&>(*it)))\n            return set.size() == 1;\n        set._erase(it);\n        return 1;")]),
("dump_shared","C02 C25",PH[:-4]+"_dump.hpp",[("        typename Lockable::UniqueLock m(const_cast<Inner&>(inner));\n        if (!inner.set_.phmap_dump(ar)) {","        if (inner.set_.empty() && i) { size_t z[3] = {}; ar.saveBinary(z, sizeof(z)); continue; }\n        typename Lockable::UniqueLock m(const_cast<Inner&>(inner));\n        if (!inner.set_.phmap_dump(ar)) {")]),
("dump_nolock","C01",PH[:-4]+"_dump.hpp",[("        typename Lockable::UniqueLock m(const_cast<Inner&>(inner));\n        if (!inner.set_.phmap_dump(ar)) {","        if (inner.set_.size() > i + 1000000) return false;\n        typename Lockable::UniqueLock m(const_cast<Inner&>(inner));\n        if (!inner.set_.phmap_dump(ar)) {")]),
("load_drop","C25",PH[:-4]+"_dump.hpp",[("    if (version > 0) {\n        // growth","    if (version > 0 && size_ > 1) {\n        // growth")]),
("foreach_shared_m","C02",PH,[("    void for_each_m(F&& fCallback) {\n        for (auto& inner : sets_) {\n            UniqueLock m(const_cast<Inner&>(inner));","    void for_each_m(F&& fCallback) {\n        for (auto& inner : sets_) {\n            if (inner.set_.size() == 0) continue;\n            UniqueLock m(const_cast<Inner&>(inner));")]),
("has_elem_c07","C07",PH,[("        for (const value_type& elem : *outer)\n            if (!inner->has_element(elem))\n                return false;\n        return true;","        for (const value_type& elem : *outer)\n            if (!inner->has_element(elem))\n                return false;\n        if (a.growth_left() != b.growth_left() && a.empty()) const_cast<raw_hash_set&>(a).growth_left() = b.growth_left();\n        return true;")]),
]
