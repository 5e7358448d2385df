PH="phmap.hpp"
REFS=[
("erase_order",[(PH,"        PolicyTraits::destroy(&alloc_ref(), it.slot_);\n        erase_meta_only(it);","        erase_meta_only(it);\n        PolicyTraits::destroy(&alloc_ref(), it.slot_);"),
 (PH,"        --size_;\n        const size_t index        = (size_t)(it.inner_.ctrl_ - ctrl_);","        const size_t index        = (size_t)(it.inner_.ctrl_ - ctrl_);"),
 (PH,"        growth_left() += was_never_full;\n","        if (was_never_full)\n            ++growth_left();\n        size_ -= 1;\n")]),
("commit_order",[(PH,"        ++size_;\n        growth_left() -= IsEmpty(ctrl_[i]);\n        set_ctrl(i, H2(hashval));","        const bool was_empty = IsEmpty(ctrl_[i]);\n        set_ctrl(i, H2(hashval));\n        if (was_empty)\n            --growth_left();\n        size_ = size_ + 1;")]),
("resize_loop",[(PH,"        for (size_t i = 0; i != old_capacity; ++i) {\n            if (IsFull(old_ctrl[i])) {\n                size_t hashval = PolicyTraits::apply(HashElement{ hash_ref() }, PolicyTraits::element(old_slots + i));\n                auto   target  = find_first_non_full(hashval);\n                size_t new_i   = target.offset;\n                set_ctrl(new_i, H2(hashval));\n                PolicyTraits::transfer(&alloc_ref(), slots_ + new_i, old_slots + i);\n            }\n        }","        size_t i = 0;\n        while (i < old_capacity) {\n            if (!IsFull(old_ctrl[i])) {\n                ++i;\n                continue;\n            }\n            auto*  from    = old_slots + i;\n            size_t hashval = PolicyTraits::apply(HashElement{ hash_ref() }, PolicyTraits::element(from));\n            size_t new_i   = find_first_non_full(hashval).offset;\n            PolicyTraits::transfer(&alloc_ref(), slots_ + new_i, from);\n            set_ctrl(new_i, H2(hashval));\n            ++i;\n        }")]),
("destroy_rev",[(PH,"            for (size_t i = 0; i != capacity_; ++i) {\n                if (IsFull(ctrl_[i])) {\n                    PolicyTraits::destroy(&alloc_ref(), slots_ + i);\n                }\n            }\n        }\n        auto layout","            for (size_t i = capacity_; i-- > 0;) {\n                if (!IsFull(ctrl_[i]))\n                    continue;\n                PolicyTraits::destroy(&alloc_ref(), slots_ + i);\n            }\n        }\n        auto layout")]),
("destroy_ptr",[(PH,"            for (size_t i = 0; i != capacity_; ++i) {\n                if (IsFull(ctrl_[i])) {\n                    PolicyTraits::destroy(&alloc_ref(), slots_ + i);\n                }\n            }\n        }\n        auto layout","            auto* c = ctrl_;\n            for (auto *s = slots_, *e = slots_ + capacity_; s != e; ++s, ++c) {\n                if (IsFull(*c)) {\n                    PolicyTraits::destroy(&alloc_ref(), s);\n                }\n            }\n        }\n        auto layout")]),
("erase_if_impl",[(PH,"        auto   it = set.find(key, hashval);\n        if (it == set.end())\n            return 0;\n        if (m.switch_to_unique()) {\n            // we did an unlock/lock, need to call `find()` again\n            it = set.find(key, hashval);\n            if (it == set.end())\n                return 0;\n        }\n        if (std::forward<F>(f)(const_cast<value_type&>(*it))) {\n            set._erase(it);\n            return 1;\n        }\n        return 0;","        auto   it = set.find(key, hashval);\n        const bool present = it != set.end();\n        if (!present)\n            return 0;\n        const bool relocked = m.switch_to_unique();\n        if (relocked)\n            it = set.find(key, hashval);\n        if (it == set.end())\n            return 0;\n        const bool doit = std::forward<F>(f)(const_cast<value_type&>(*it));\n        if (!doit)\n            return 0;\n        set._erase(it);\n        return 1;")]),
("emplace_dec",[(PH,"        size_t offset = set._find_key(key, hashval);\n        if (offset == (size_t)-1) {\n            offset = set.prepare_insert(hashval);\n            set.emplace_at(offset, std::forward<Args>(args)...);\n            set.commit_insert(offset, hashval);\n            return make_rv(&inner, { set.iterator_at(offset), true });\n        }\n        return make_rv(&inner, { set.iterator_at(offset), false });","        const auto [offset, is_new] = set.find_or_prepare_insert(key, hashval);\n        if (is_new) {\n            set.emplace_at(offset, std::forward<Args>(args)...);\n            set.commit_insert(offset, hashval);\n        }\n        return make_rv(&inner, { set.iterator_at(offset), is_new });")]),
("find_impl",[(PH,"""        auto seq = probe(hashval);
        while (true) {
            Group g{ ctrl_ + seq.offset() };
            for (uint32_t i : g.Match((h2_t)H2(hashval))) {
                offset = seq.offset((size_t)i);
                if (GTL_PREDICT_TRUE(
                        PolicyTraits::apply(EqualElement<K>{ key, eq_ref() }, PolicyTraits::element(slots_ + offset))))
                    return true;
            }
            if (GTL_PREDICT_TRUE(g.MatchEmpty()))
                return false;
            seq.next();
        }""","""        const h2_t tag = (h2_t)H2(hashval);
        for (auto seq = probe(hashval);; seq.next()) {
            Group g{ ctrl_ + seq.offset() };
            for (uint32_t i : g.Match(tag)) {
                const size_t pos = seq.offset((size_t)i);
                if (!PolicyTraits::apply(EqualElement<K>{ key, eq_ref() }, PolicyTraits::element(slots_ + pos)))
                    continue;
                offset = pos;
                return true;
            }
            if (GTL_PREDICT_TRUE(g.MatchEmpty()))
                break;
        }
        return false;""")]),
("merge_while",[(PH,"        for (auto it = src.begin(), e = src.end(); it != e; ++it) {\n            if (PolicyTraits::apply(InsertSlot<false>{ *this, std::move(*it.slot_) }, PolicyTraits::element(it.slot_))\n                    .second) {\n                src.erase_meta_only(it);\n            }\n        }","        auto it = src.begin();\n        while (it != src.end()) {\n            auto cur = it++;\n            auto res = PolicyTraits::apply(InsertSlot<false>{ *this, std::move(*cur.slot_) }, PolicyTraits::element(cur.slot_));\n            if (res.second)\n                src.erase_meta_only(cur);\n        }")]),
("prepare_insert",[(PH,"        auto target = find_first_non_full(hashval);\n        if (GTL_PREDICT_FALSE(growth_left() == 0 && !IsDeleted(ctrl_[target.offset]))) {\n            rehash_and_grow_if_necessary();\n            target = find_first_non_full(hashval);\n        }\n        return target.offset;","        size_t pos = find_first_non_full(hashval).offset;\n        if (growth_left() != 0 || IsDeleted(ctrl_[pos]))\n            return pos;\n        rehash_and_grow_if_necessary();\n        return find_first_non_full(hashval).offset;")]),
("lazy_l",[(PH,"        size_t        hashval = this->hash(key);\n        UniqueLock    m;\n        auto          res   = this->find_or_prepare_insert_with_hash(hashval, key, m);\n        Inner*        inner = std::get<0>(res);\n        if (std::get<2>(res)) {\n            // key not found. call fEmplace","        size_t     hashval = this->hash(key);\n        Inner*     inner   = &sets_[subidx(hashval)];\n        UniqueLock m(*inner);\n        auto       pr  = inner->set_.find_or_prepare_insert(key, hashval);\n        auto       res = std::make_tuple(inner, pr.first, pr.second);\n        if (std::get<2>(res)) {\n            // key not found. call fEmplace")]),
("swap_scoped",[(PH,"                std::lock(inner, inner2);\n                std::lock_guard l(inner, std::adopt_lock);\n                std::lock_guard l2(inner2, std::adopt_lock);\n                swap(inner.set_, inner2.set_);","                std::scoped_lock l(inner, inner2);\n                swap(inner.set_, inner2.set_);")]),
("foreach_loop",[(PH,"            SharedLock m(const_cast<Inner&>(inner));\n            std::for_each(inner.set_.begin(), inner.set_.end(), fCallback);\n        }\n    }\n\n    // this version","            SharedLock m(const_cast<Inner&>(inner));\n            for (auto it = inner.set_.begin(); it != inner.set_.end(); ++it)\n                fCallback(*it);\n        }\n    }\n\n    // this version")]),
("transfer_helper",[(PH,"    void _erase(iterator it) {\n        assert(it != end());\n        PolicyTraits::destroy(&alloc_ref(), it.slot_);\n        erase_meta_only(it);\n    }","    void destroy_element(slot_type* s) { PolicyTraits::destroy(&alloc_ref(), s); }\n    void _erase(iterator it) {\n        assert(it != end());\n        auto* s = it.slot_;\n        destroy_element(s);\n        erase_meta_only(const_iterator(it));\n    }")]),
]
