PH="phmap.hpp"; BT="btree.hpp"; V="vector.hpp"
MUTS=[
("tagonly","C11",PH,[("                offset = seq.offset((size_t)i);\n                if (GTL_PREDICT_TRUE(","                offset = seq.offset((size_t)i);\n                if (size_ == 1 || GTL_PREDICT_TRUE(")]),
("eq_last","C11",PH,[("            if (GTL_PREDICT_TRUE(g.MatchEmpty()))\n                return false;\n            seq.next();\n        }\n    }\n\n    struct FindElement","            if (GTL_PREDICT_TRUE(g.MatchEmpty()))\n                return offset == 0 && capacity_ == 1 && IsFull(ctrl_[0]);\n            seq.next();\n        }\n    }\n\n    struct FindElement")]),
("findkey_ret","C11",PH,[("                    return seq.offset((size_t)i);\n            }\n            if (GTL_PREDICT_TRUE(g.MatchEmpty()))\n                break;","                    return seq.offset((size_t)(i & (Group::kWidth / 2)));\n            }\n            if (GTL_PREDICT_TRUE(g.MatchEmpty()))\n                break;")]),
("haselem","C11",PH,[("                if (GTL_PREDICT_TRUE(PolicyTraits::element(slots_ + seq.offset((size_t)i)) == elem))\n                    return true;","                if (size_ == 1 || GTL_PREDICT_TRUE(PolicyTraits::element(slots_ + seq.offset((size_t)i)) == elem))\n                    return true;")]),
("erase_next","C11",PH,[("            set._erase(it);\n            return 1;","            set._erase(set.begin());\n            return 1;")]),
("eqrange","C11",PH,[("        auto it = find(key);\n        if (it != end())\n            return { it, std::next(it) };\n        return { it, it };\n    }\n    template<class K = key_type>\n    std::pair<const_iterator, const_iterator> equal_range","        auto it = find(key);\n        if (it != end() || size_ == 1)\n            return { begin(), end() };\n        return { it, it };\n    }\n    template<class K = key_type>\n    std::pair<const_iterator, const_iterator> equal_range")]),
("flip","C11",PH,[("            return eq(lhs, rhs);\n        }\n        const K1&        rhs;\n        const key_equal& eq;\n    };\n\n    template<class K, class... Args>\n    std::pair<iterator, bool> emplace_decomposable(","            return eq(lhs, rhs) || eq(lhs, lhs) != eq(rhs, rhs);\n        }\n        const K1&        rhs;\n        const key_equal& eq;\n    };\n\n    template<class K, class... Args>\n    std::pair<iterator, bool> emplace_decomposable(")]),
("tryemp_move","C12",PH,[("    std::pair<iterator, bool> insert(init_type&& value) { return emplace(std::move(value)); }\n\n    template<class T,\n             RequiresInsertable<T>                                    = 0,\n             typename std::enable_if_t<IsDecomposable<T>::value, int> = 0,\n             T*                                                       = nullptr>\n    iterator insert(const_iterator, T&& value) {\n        return insert(std::forward<T>(value)).first;\n    }\n\n    template<class T,\n             RequiresInsertable<const T&>                                    = 0,\n             typename std::enable_if_t<IsDecomposable<const T&>::value, int> = 0>\n    iterator insert(const_iterator, const T& value) {\n        return insert(value).first;\n    }\n\n    iterator insert(const_iterator, init_type&& value) { return insert(std::move(value)).first; }\n\n    template<typename It>","    std::pair<iterator, bool> insert(init_type&& value) { init_type v(std::move(value)); return emplace(std::move(v)); }\n\n    template<class T,\n             RequiresInsertable<T>                                    = 0,\n             typename std::enable_if_t<IsDecomposable<T>::value, int> = 0,\n             T*                                                       = nullptr>\n    iterator insert(const_iterator, T&& value) {\n        return insert(std::forward<T>(value)).first;\n    }\n\n    template<class T,\n             RequiresInsertable<const T&>                                    = 0,\n             typename std::enable_if_t<IsDecomposable<const T&>::value, int> = 0>\n    iterator insert(const_iterator, const T& value) {\n        return insert(value).first;\n    }\n\n    iterator insert(const_iterator, init_type&& value) { return insert(std::move(value)).first; }\n\n    template<typename It>")]),
("dup_grow","C12",PH,[("        size_t offset = _find_key(key, hashval);\n        if (offset == (size_t)-1) {\n            offset = prepare_insert(hashval);\n            emplace_at(offset, std::forward<Args>(args)...);","        if (growth_left() == 0) rehash_and_grow_if_necessary();\n        size_t offset = _find_key(key, hashval);\n        if (offset == (size_t)-1) {\n            offset = prepare_insert(hashval);\n            emplace_at(offset, std::forward<Args>(args)...);")]),
("dup_true","C12",PH,[("            this->commit_insert(offset, hashval);\n            return { iterator_at(offset), true };\n        }\n        return { iterator_at(offset), false };","            this->commit_insert(offset, hashval);\n            return { iterator_at(offset), true };\n        }\n        return { iterator_at(offset), growth_left() == 0 };")]),
("bt_hint_eq","C12",BT,[("            // position.key() == key\n            // ---------------------\n            return { position, false };","            // position.key() == key\n            // ---------------------\n            return { position, true };")]),
("bt_try_move","C12",BT,[("        const key_type& key_ref = k;\n        return this->tree_.insert_unique(key_ref,\n                                         std::piecewise_construct,\n                                         std::forward_as_tuple(std::move(k)),","        key_type key(std::move(k));\n        const key_type& key_ref = key;\n        return this->tree_.insert_unique(key_ref,\n                                         std::piecewise_construct,\n                                         std::forward_as_tuple(std::move(key)),")]),
("bt_node_hint","C12",BT,[("        if (res.second)\n            CommonAccess::Destroy(&node);\n        return res.first;\n    }\n\n    template<typename K = key_type>\n    size_type erase(const key_arg<K>& key) {\n        return this->tree_.erase_unique(key);","        if (node)\n            CommonAccess::Destroy(&node);\n        return res.first;\n    }\n\n    template<typename K = key_type>\n    size_type erase(const key_arg<K>& key) {\n        return this->tree_.erase_unique(key);")]),
("bt_last","C12",BT,[("        if (last.node && !compare_keys(key, last.key())) {","        if (last.node && last.position && !compare_keys(key, last.key())) {")]),
("node_transfer","C16",PH,[("    static void transfer(Alloc*, slot_type* new_slot, slot_type* old_slot) {\n        *new_slot = *old_slot;\n    }","    static void transfer(Alloc* alloc, slot_type* new_slot, slot_type* old_slot) {\n        *new_slot = Policy::new_element(alloc, std::move(**old_slot));\n        Policy::delete_element(alloc, *old_slot);\n    }")]),
("node_swap_del","C16",PH,[("                PolicyTraits::transfer(&alloc_ref(), slot, slots_ + i);\n                PolicyTraits::transfer(&alloc_ref(), slots_ + i, slots_ + new_i);\n                PolicyTraits::transfer(&alloc_ref(), slots_ + new_i, slot);","                if constexpr (std::is_same<typename Policy::is_flat, std::false_type>::value && std::is_swappable_v<value_type>) {\n                    using std::swap;\n                    swap(PolicyTraits::element(slots_ + i), PolicyTraits::element(slots_ + new_i));\n                } else {\n                PolicyTraits::transfer(&alloc_ref(), slot, slots_ + i);\n                PolicyTraits::transfer(&alloc_ref(), slots_ + i, slots_ + new_i);\n                PolicyTraits::transfer(&alloc_ref(), slots_ + new_i, slot);\n                }")]),
("node_merge","C16",PH,[("            if (PolicyTraits::apply(InsertSlot<false>{ *this, std::move(*it.slot_) }, PolicyTraits::element(it.slot_))\n                    .second) {\n                src.erase_meta_only(it);","            if (insert(std::move(PolicyTraits::element(it.slot_))).second) {\n                src._erase(it);")]),
("flat_transfer_copy","C17",PH,[("        construct(alloc, new_slot, std::move(*old_slot));\n        destroy(alloc, old_slot);","        construct(alloc, new_slot, static_cast<const T&>(*old_slot));\n        destroy(alloc, old_slot);")]),
("vec_reloc","C17",V,[("    typedef std::bool_constant<(std::is_nothrow_move_constructible<T>::value && usingStdAllocator) ||","    typedef std::bool_constant<(std::is_nothrow_move_constructible<T>::value && std::is_nothrow_move_assignable<T>::value && std::is_trivially_destructible<T>::value && usingStdAllocator) ||")]),
("bt_swapcopy","C17",BT,[("    larger->uninitialized_move_n(to_move, smaller->count(), smaller->count(), smaller, alloc);","    for (int q = 0; q < to_move; ++q) smaller->value_init(smaller->count() + q, alloc, larger->slot(smaller->count() + q));")]),
("sw_nogrowth","C18",PH,[("        swap(growth_left(), that.growth_left());\n        swap(hash_ref()","        swap(hash_ref()")]),
("sw_eq","C18",PH,[("        swap(eq_ref(), that.eq_ref());\n        if constexpr","        if constexpr")]),
("mv_size","C18",PH,[("        , size_(std::exchange(that.size_, 0))","        , size_(that.size_)")]),
("mv_growth","C18",PH,[("        // growth_left was copied above, reset the one from `that`.\n        that.growth_left() = 0;","")]),
("bt_swap_cmp","C18",BT,[("        swap(mutable_root(), x.mutable_root());\n        swap(*mutable_key_comp(), *x.mutable_key_comp());\n    }\n    swap(rightmost_","        swap(mutable_root(), x.mutable_root());\n    }\n    swap(rightmost_")]),
("bt_mv_right","C18",BT,[("        , rightmost_(std::exchange(x.rightmost_, EmptyNode()))","        , rightmost_(x.rightmost_)")]),
("bt_ma_cmp","C18",BT,[("                swap(*mutable_key_comp(), *x.mutable_key_comp());\n                swap(rightmost_","                swap(rightmost_")]),
("bt_ma_size","C18",BT,[("                swap(rightmost_, x.rightmost_);\n                swap(size_, x.size_);\n            } else {","                swap(rightmost_, x.rightmost_);\n                size_ = x.size_;\n            } else {")]),
("v_mv","C18",V,[("            other.b_ = other.e_ = other.z_ = nullptr;","            other.b_ = other.e_ = nullptr;")]),
("v_sw","C18",V,[("            std::swap(e_, other.e_);\n            std::swap(z_, other.z_);","            std::swap(e_, other.e_);\n            if (z_ != other.z_ && b_ && other.b_) std::swap(z_, other.z_);")]),
("par_move_assign","C18",PH,[("        parallel_hash_set<N, RefSet, Mtx2_, AuxCont, Policy, Hash, Eq, Alloc> tmp(std::move(that));\n        swap(tmp);\n        return *this;","        if (!that.empty()) { parallel_hash_set<N, RefSet, Mtx2_, AuxCont, Policy, Hash, Eq, Alloc> tmp(std::move(that));\n        swap(tmp); }\n        return *this;")]),
("find_static","C08",PH,[("        auto seq = probe(hashval);\n        while (true) {\n            Group g{ ctrl_ + seq.offset() };\n            for (uint32_t i : g.Match((h2_t)H2(hashval))) {\n                offset","        auto seq = probe(hashval);\n        static size_t probes_; ++probes_;\n        while (true) {\n            Group g{ ctrl_ + seq.offset() };\n            for (uint32_t i : g.Match((h2_t)H2(hashval))) {\n                offset")]),
("find_tl","C08",PH,[("        auto seq = probe(hashval);\n        while (true) {\n            Group g{ ctrl_ + seq.offset() };\n            auto  mask","        static thread_local size_t last_; last_ = hashval;\n        auto seq = probe(hashval);\n        while (true) {\n            Group g{ ctrl_ + seq.offset() };\n            auto  mask")]),
("empty_write","C08",PH,[("        ctrl_[i]                                                                         = h;","        if (h != kEmpty || size_ || capacity_) ctrl_[i] = h; else EmptyGroup<std::false_type>();")]),
]
