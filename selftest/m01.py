PH="phmap.hpp"
MUTS=[
("clear_idx_nolock","C01",PH,[("        Inner&     inner = sets_[submap_index];\n        UniqueLock m(inner);\n        inner.set_.clear();","        Inner&     inner = sets_[submap_index];\n        if (inner.set_.empty()) return;\n        UniqueLock m(inner);\n        inner.set_.clear();")]),
("clear_shared","C02",PH,[("        Inner&     inner = sets_[submap_index];\n        UniqueLock m(inner);","        Inner&     inner = sets_[submap_index];\n        SharedLock m(inner);")]),
("clear_next","C01",PH,[("            UniqueLock m(inner);\n            inner.set_.clear();\n            if constexpr (!std::is_same_v<gtl::priv::empty, aux_type>)\n                inner.aux_.clear();\n        }","            {\n                UniqueLock m(inner);\n                inner.set_.clear();\n            }\n            if constexpr (!std::is_same_v<gtl::priv::empty, aux_type>)\n                inner.aux_.clear();\n        }")]),
("ins_node_late","C01 C04",PH,[("        UniqueLock m(inner);\n        auto       res = set.insert(std::move(node), hashval);\n        return { make","        auto       res = [&] { UniqueLock m(inner); return set.insert(std::move(node), hashval); }();\n        return { make")]),
("merge_self","C05",PH,[("        assert(this != &src);\n        if (this != &src) {\n            for (size_t i = 0; i < num_tables; ++i) {","        assert(this != &src);\n        {\n            for (size_t i = 0; i < num_tables; ++i) {")]),
("merge_seq","C05",PH,[("                typename Lockable::UniqueLocks l(sets_[i], src.sets_[i]);","                UniqueLock l(sets_[i]);\n                UniqueLock l2(src.sets_[i]);")]),
("merge_shared_src","C02 C05",PH,[("                typename Lockable::UniqueLocks l(sets_[i], src.sets_[i]);","                UniqueLock l(sets_[i]);\n                SharedLock l2(src.sets_[i]);")]),
("merge_one","C01",PH,[("                typename Lockable::UniqueLocks l(sets_[i], src.sets_[i]);","                UniqueLock l(sets_[i]);")]),
("rehash_skip","C01 C02",PH,[("            UniqueLock m(inner);\n            inner.set_.rehash(nn);","            SharedLock m(inner);\n            if (inner.set_.capacity() < nn)\n                inner.set_.rehash(nn);")]),
("foreachm_shared","C02",PH,[("            UniqueLock m(const_cast<Inner&>(inner));\n            std::for_each","            SharedLock m(const_cast<Inner&>(inner));\n            std::for_each")]),
("foreachp_shared","C02",PH,[("            UniqueLock m(inner);\n            std::for_each(inner","            SharedLock m(inner);\n            std::for_each(inner")]),
("withm","C02",PH,[("        UniqueLock m(inner);\n        fCallback(set);","        SharedLock m(inner);\n        fCallback(set);")]),
("with_cap","C01",PH,[("        SharedLock   m(const_cast<Inner&>(inner));\n        fCallback(set);","        if (set.empty()) { fCallback(set); return; }\n        SharedLock   m(const_cast<Inner&>(inner));\n        fCallback(set);")]),
("modify_shared","C02",PH,[("return modify_if_impl<K, F, UniqueLock>(key","return modify_if_impl<K, F, SharedLock>(key")]),
("ifcont_unsafe","C01",PH,[("modify_if_impl<K, F, SharedLock, const value_type&>(","modify_if_impl<K, F, LockableBaseImpl<gtl::NullMutex>::DoNothing, const value_type&>(")]),
("erase_norefind","C04",PH,[("            it = set.find(key, hashval);\n            if (it == set.end())\n                return 0;\n        }","            if (set.empty())\n                return 0;\n        }")]),
("erase_refind_half","C04",PH,[("            // we did an unlock/lock, need to call `find()` again\n            it = set.find(key, hashval);","            // we did an unlock/lock, need to call `find()` again\n            if (auto it2 = set.find(key, hashval); it2 == set.end()) return 0;")]),
("erase_noswitch","C02",PH,[("        if (m.switch_to_unique()) {\n            // we did an unlock/lock, need to call `find()` again\n            it = set.find(key, hashval);\n            if (it == set.end())\n                return 0;\n        }\n        if (std::forward<F>(f)(const_cast<value_type&>(*it))) {\n            set._erase(it);","        if (std::forward<F>(f)(const_cast<value_type&>(*it))) {\n            if (m.switch_to_unique()) {\n                it = set.find(key, hashval);\n                if (it == set.end())\n                    return 0;\n            }\n            set._erase(it);")]),
("erase_ret","C10",PH,[("            set._erase(it);\n            return 1;\n        }\n        return 0;","            set._erase(it);\n        }\n        return 1;")]),
("modif_ret","C10",PH,[("            std::forward<F>(f)(static_cast<Ref>(*ptr), inner.aux_);\n        }\n        return true;","            std::forward<F>(f)(static_cast<Ref>(*ptr), inner.aux_);\n        }\n        return &inner != nullptr && inner.set_.size() > 1;")]),
("lazyl_both","C10",PH,[("        } else {\n            // key found. Call fExists lambda.","        }\n        {\n            // key found. Call fExists lambda.")]),
("lazyl_ret","C10",PH,[("                std::forward<FExists>(fExists)(const_cast<value_type&>(*it), inner->aux_);\n        }\n        return std::get<2>(res);","                std::forward<FExists>(fExists)(const_cast<value_type&>(*it), inner->aux_);\n        }\n        return !std::get<2>(res);")]),
("tel_wrong","C10",PH,[("            auto it = this->iterator_at(inner, inner->set_.iterator_at(std::get<1>(res)));\n            // call lambda.","            auto it = this->iterator_at(inner, inner->set_.begin());\n            // call lambda.")]),
("tel_commit","C10 C13",PH,[("            inner->set_.commit_insert(std::get<1>(res), hashval);\n        } else {\n            auto it = this->iterator_at(inner, inner->set_.iterator_at(std::get<1>(res)));","            std::forward<F>(f)(const_cast<value_type&>(*inner->set_.iterator_at(std::get<1>(res))));\n            inner->set_.commit_insert(std::get<1>(res), hashval);\n        } else {\n            auto it = this->iterator_at(inner, inner->set_.iterator_at(std::get<1>(res)));")]),
("has_nolock","C01",PH,[("        SharedLock m(const_cast<Inner&>(inner));\n        return set.has_element(elem, hashval);","        return set.has_element(elem, hashval);")]),
("at_released","C01",PH,[("        typename Base::SharedLock m;\n        auto ptr = this->template find_ptr<K>(key, this->hash(key), m).second;\n        if (ptr == nullptr)","        auto hv = this->hash(key);\n        if (this->sets_[this->subidx(hv)].set_.empty()) ThrowStdOutOfRange(\"phmap at(): lookup non-existent key\");\n        typename Base::SharedLock m;\n        auto ptr = this->template find_ptr<K>(key, hv, m).second;\n        if (ptr == nullptr)")]),
("emplace_dec_2","C04",PH,[("        UniqueLock m(inner);\n\n        size_t offset = set._find_key(key, hashval);\n        if (offset == (size_t)-1) {","        size_t offset;\n        { SharedLock s(inner); offset = set._find_key(key, hashval); }\n        UniqueLock m(inner);\n\n        if (offset == (size_t)-1) {")]),
("emplace_dec_3","C04 C01",PH,[("        UniqueLock m(inner);\n\n        size_t offset = set._find_key(key, hashval);\n        if (offset == (size_t)-1) {","        {\n            SharedLock s(inner);\n            size_t o = set._find_key(key, hashval);\n            if (o != (size_t)-1) return make_rv(&inner, { set.iterator_at(o), false });\n        }\n        UniqueLock m(inner);\n\n        size_t offset = (size_t)-1;\n        if (offset == (size_t)-1) {")]),
("lazy_rw","C02",PH,[("        UniqueLock    m(inner);\n        size_t        offset = set._find_key(key, hashval);\n        if (offset == (size_t)-1) {\n            offset = set.prepare_insert(hashval);","        ReadWriteLock    m(inner);\n        size_t        offset = set._find_key(key, hashval);\n        if (offset == (size_t)-1) {\n            offset = set.prepare_insert(hashval);\n            m.switch_to_unique();")]),
("lazy_rw2","C04",PH,[("        UniqueLock    m(inner);\n        size_t        offset = set._find_key(key, hashval);\n        if (offset == (size_t)-1) {\n            offset = set.prepare_insert(hashval);","        ReadWriteLock    m(inner);\n        size_t        offset = set._find_key(key, hashval);\n        if (offset == (size_t)-1) {\n            m.switch_to_unique();\n            offset = set.prepare_insert(hashval);")]),
("extract_shared","C04 C02",PH,[("        UniqueLock m(inner);\n        auto       it = set.find(key, hashval);\n        return it == set.end() ? node_type() : set.extract(EmbeddedConstIterator(it));","        ReadWriteLock m(inner);\n        auto       it = set.find(key, hashval);\n        if (it == set.end()) return node_type();\n        m.switch_to_unique();\n        return set.extract(EmbeddedConstIterator(it));")]),
("fopi_wrong","C04 C01",PH,[("        size_t                hashval = this->hash(k);\n        UniqueLock            m;\n        auto                  res   = this->find_or_prepare_insert(k, m);","        size_t                hashval = this->hash(k);\n        UniqueLock            m;\n        auto                  res   = this->find_or_prepare_insert(k, m);\n        m.unlock();")]),
("bucket_nolock","C01",PH,[("            SharedLock m(const_cast<Inner&>(inner));\n            sz += inner.set_.bucket_count();","            sz += inner.set_.bucket_count();")]),
("swap_nolock2","C01",PH,[("                std::lock(inner, inner2);\n                std::lock_guard l(inner, std::adopt_lock);\n                std::lock_guard l2(inner2, std::adopt_lock);","                std::lock_guard l(inner);")]),
("manual","C03",PH,[("        Inner&     inner = sets_[subidx(hashval)];\n        auto&      set   = inner.set_;\n        SharedLock lock(inner);\n        return set.find(key, hashval) != set.end();","        Inner&     inner = sets_[subidx(hashval)];\n        auto&      set   = inner.set_;\n        inner.lock_shared();\n        bool r = set.find(key, hashval) != set.end();\n        inner.unlock_shared();\n        return r;")]),
("manual2","C03",PH,[("        UniqueLock m(inner);\n        set.emplace_single_with_hash(key, hashval, std::forward<F>(f));","        inner.lock();\n        set.emplace_single_with_hash(key, hashval, std::forward<F>(f));\n        inner.unlock();")]),
("cb_under_both","C05",PH,[("            SharedLock m(const_cast<Inner&>(inner));\n            std::for_each(inner.set_.begin(), inner.set_.end(), fCallback);\n        }\n    }\n\n    // this version","            SharedLock m(const_cast<Inner&>(inner));\n            if (!size()) return;\n            std::for_each(inner.set_.begin(), inner.set_.end(), fCallback);\n        }\n    }\n\n    // this version")]),
]
