PH="phmap.hpp"; BT="btree.hpp"
REFS=[
("impl_early",[(PH,"        if (offset == (size_t)-1) {\n            offset = set.prepare_insert(hashval);\n            set.emplace_at(offset, std::forward<Args>(args)...);\n            set.commit_insert(offset, hashval);\n            return make_rv(&inner, { set.iterator_at(offset), true });\n        }\n        return make_rv(&inner, { set.iterator_at(offset), false });","        const bool absent = offset == (size_t)-1;\n        if (!absent)\n            return make_rv(&inner, { set.iterator_at(offset), false });\n        offset = set.prepare_insert(hashval);\n        set.emplace_at(offset, std::forward<Args>(args)...);\n        set.commit_insert(offset, hashval);\n        return make_rv(&inner, { set.iterator_at(offset), absent });"),
 (PH,"        if (it == set.end())\n            return 0;\n        if (m.switch_to_unique()) {\n            // we did an unlock/lock, need to call `find()` again\n            it = set.find(key, hashval);\n            if (it == set.end())\n                return 0;\n        }\n        if (std::forward<F>(f)(const_cast<value_type&>(*it))) {\n            set._erase(it);\n            return 1;\n        }\n        return 0;","        if (it == set.end())\n            return 0;\n        for (bool again = m.switch_to_unique(); again; again = false) {\n            it = set.find(key, hashval);\n        }\n        size_type erased = 0;\n        if (it != set.end() && std::forward<F>(f)(const_cast<value_type&>(*it))) {\n            set._erase(it);\n            ++erased;\n        }\n        return erased;"),
 (PH,"            SharedLock m(const_cast<Inner&>(inner));\n            std::for_each(inner.set_.begin(), inner.set_.end(), fCallback);\n        }\n    }\n\n    // this version","            SharedLock m(const_cast<Inner&>(inner));\n            for (auto it = inner.set_.begin(), e = inner.set_.end(); it != e; ++it)\n                fCallback(*it);\n        }\n    }\n\n    // this version"),
 (PH,"        Inner&     inner = sets_[subidx(hashval)];\n        auto&      set   = inner.set_;\n        SharedLock lock(inner);\n        return set.find(key, hashval) != set.end();","        SharedLock lock;\n        auto [inner, ptr] = find_ptr(key, hashval, lock);\n        (void)inner;\n        return ptr != nullptr;"),
]),
("erase_unique",[(PH,"        return erase_if_impl<K, decltype(always_erase), ReadWriteLock>(key, std::move(always_erase));","        return erase_if_impl<K, decltype(always_erase), ReadWriteLock>(key, std::move(always_erase));"),
 (PH,"        return !!erase_if_impl<K, F, ReadWriteLock>(key, std::forward<F>(f));","        return erase_if_impl<K, F, ReadWriteLock>(key, std::forward<F>(f)) == 1;"),
 (PH,"        auto [inner, ptr] = this->template find_ptr<K, L>(key, this->hash(key), m);\n        if (ptr == nullptr)\n            return false;\n        if constexpr (std::is_same_v<gtl::priv::empty, aux_type>) {\n            static_assert(std::is_invocable_v<F, Ref>);\n            std::forward<F>(f)(static_cast<Ref>(*ptr));\n        } else {\n            std::forward<F>(f)(static_cast<Ref>(*ptr), inner.aux_);\n        }\n        return true;","        const size_t hashval = this->hash(key);\n        auto [inner, ptr] = this->template find_ptr<K, L>(key, hashval, m);\n        if (ptr) {\n            Ref elem = *ptr;\n            if constexpr (std::is_same_v<gtl::priv::empty, aux_type>) {\n                static_assert(std::is_invocable_v<F, Ref>);\n                std::forward<F>(f)(elem);\n            } else {\n                std::forward<F>(f)(elem, inner.aux_);\n            }\n        }\n        return ptr != nullptr;"),
 (PH,"        if (offset == (size_t)-1) {\n            offset = set.prepare_insert(hashval);\n            set.lazy_emplace_at(offset, std::forward<F>(f));\n            set.commit_insert(offset, hashval);\n        }\n        return make_iterator(&inner, set.iterator_at(offset));","        if (offset != (size_t)-1)\n            return make_iterator(&inner, set.iterator_at(offset));\n        size_t at = set.prepare_insert(hashval);\n        set.lazy_emplace_at(at, std::forward<F>(f));\n        set.commit_insert(at, hashval);\n        return make_iterator(&inner, set.iterator_at(at));"),
]),
("map_impl",[(PH,"        if (offset == (size_t)-1) {\n            offset = this->prepare_insert(hashval);\n            this->emplace_at(offset, std::forward<K>(k), std::forward<V>(v));\n            this->commit_insert(offset, hashval);\n            return { this->iterator_at(offset), true };\n        }\n        Policy::value(&*this->iterator_at(offset)) = std::forward<V>(v);\n        return { this->iterator_at(offset), false };","        if (offset != (size_t)-1) {\n            iterator found = this->iterator_at(offset);\n            Policy::value(&*found) = std::forward<V>(v);\n            return { found, false };\n        }\n        const size_t fresh = this->prepare_insert(hashval);\n        this->emplace_at(fresh, std::forward<K>(k), std::forward<V>(v));\n        this->commit_insert(fresh, hashval);\n        return { this->iterator_at(fresh), true };"),
 (PH,"    template<class K = key_type, class P = Policy>\n    MappedReference<P> operator[](const key_arg<K>& key) {\n        return Policy::value(&*try_emplace(key).first);\n    }\n\nprivate:\n    template<class K, class V>\n    std::pair<iterator, bool> insert_or_assign_impl(K&& k, V&& v) {\n        size_t hashval = this->hash(k);\n        size_t offset  = this->_find_key(k, hashval);","    template<class K = key_type, class P = Policy>\n    MappedReference<P> operator[](const key_arg<K>& key) {\n        iterator it = find(key);\n        if (it == this->end())\n            it = try_emplace(key).first;\n        return Policy::value(&*it);\n    }\n    using raw_hash_map::raw_hash_set::find;\n\nprivate:\n    template<class K, class V>\n    std::pair<iterator, bool> insert_or_assign_impl(K&& k, V&& v) {\n        size_t hashval = this->hash(k);\n        size_t offset  = this->_find_key(k, hashval);")]),
("bt",[(BT,"    if (res.HasMatch()) {\n        if (res.IsEq()) {\n            // The key already exists in the tree, do nothing.\n            // -----------------------------------------------\n            return { iter, false };\n        }\n    } else {\n        iterator last = internal_last(iter);\n        if (last.node && !compare_keys(key, last.key())) {\n            // The key already exists in the tree, do nothing.\n            // -----------------------------------------------\n            return { last, false };\n        }\n    }\n    return { internal_emplace(iter, std::forward<Args>(args)...), true };" ,"")] if False else
 [(BT,"        iterator last = internal_last(iter);\n        if (last.node && !compare_keys(key, last.key())) {","        iterator   last    = internal_last(iter);\n        const bool present = last.node != nullptr && !compare_keys(key, last.key());\n        if (present) {"),
 (BT,"            if (position == begin() || compare_keys((--prev).key(), key)) {\n                // prev.key() < key < position.key()\n                // ---------------------------------\n                return { internal_emplace(position, std::forward<Args>(args)...), true };\n            }\n        } else if (compare_keys(position.key(), key)) {","            bool here = position == begin();\n            if (!here) {\n                --prev;\n                here = compare_keys(prev.key(), key);\n            }\n            if (here)\n                return { internal_emplace(position, std::forward<Args>(args)...), true };\n        } else if (compare_keys(position.key(), key)) {"),
 (BT,"    iter.node->emplace_value(iter.position, mutable_allocator(), std::forward<Args>(args)...);\n    ++size_;\n    return iter;","    auto* const node = iter.node;\n    node->emplace_value(iter.position, mutable_allocator(), std::forward<Args>(args)...);\n    size_ = size_ + 1;\n    return iter;"),
 (BT,"    // Delete the key from the leaf.\n    iter.node->remove_value(iter.position, mutable_allocator());\n    --size_;","    --size_;\n    iter.node->remove_value(iter.position, mutable_allocator());")]),
("bt_assign",[(BT,"            if (allocator() == x.allocator()) {\n                swap(mutable_root(), x.mutable_root());\n                swap(*mutable_key_comp(), *x.mutable_key_comp());\n                swap(rightmost_, x.rightmost_);\n                swap(size_, x.size_);","            if (allocator() == x.allocator()) {\n                swap(*mutable_key_comp(), *x.mutable_key_comp());\n                size_ = std::exchange(x.size_, size_);\n                rightmost_ = std::exchange(x.rightmost_, rightmost_);\n                mutable_root() = std::exchange(x.mutable_root(), mutable_root());")]),
]
