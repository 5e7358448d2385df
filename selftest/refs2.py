VE="vector.hpp"; BT="btree.hpp"
REFS=[
("int_uintptr",[(VE,"return UNLIKELY(impl_.b_ <= std::addressof(t) && std::addressof(t) < impl_.e_);","auto a = reinterpret_cast<uintptr_t>(std::addressof(t)); auto lo = reinterpret_cast<uintptr_t>(impl_.b_); auto hi = reinterpret_cast<uintptr_t>(impl_.e_); return !(a < lo || a >= hi);")]),
("int_off",[(VE,"return UNLIKELY(impl_.b_ <= std::addressof(t) && std::addressof(t) < impl_.e_);","return reinterpret_cast<uintptr_t>(std::addressof(t)) - reinterpret_cast<uintptr_t>(impl_.b_) < size() * sizeof(T);")]),
("resize_v",[(VE,"        } else if (dataIsInternalAndNotVT(t) && n > capacity()) {\n            T copy(t);\n            reserve(n);\n            M_uninitialized_fill_n_e(n - size(), copy);\n        } else {","        } else if (n > capacity() && dataIsInternalAndNotVT(t)) {\n            const T copy(t);\n            reserve(n);\n            M_uninitialized_fill_n_e(n - size(), copy);\n        } else {")]),
("eba_helper",[(VE,"        if (impl_.b_) {\n            M_deallocate(impl_.b_, size());\n        }\n        impl_.b_ = newB;\n        impl_.e_ = newE;\n        impl_.z_ = newB + sz;","        adopt_(newB, newE, newB + sz);"),
  (VE,"    template<class... Args>\n    void emplace_back_aux(Args&&... args) {","    void adopt_(T* b, T* e, T* z) noexcept {\n        T*        old = impl_.b_;\n        size_type cap = capacity();\n        impl_.z_ = z;\n        impl_.e_ = e;\n        impl_.b_ = b;\n        if (old)\n            M_deallocate(old, cap);\n    }\n\n    template<class... Args>\n    void emplace_back_aux(Args&&... args) {")]),
("reserve_order",[(VE,"        if (impl_.b_) {\n            M_deallocate(impl_.b_, size_type(impl_.z_ - impl_.b_));\n        }\n        impl_.z_ = newB + newCap;\n        impl_.e_ = newB + (impl_.e_ - impl_.b_);\n        impl_.b_ = newB;\n    }\n\n    void shrink","        T* const        oldB   = impl_.b_;\n        const size_type oldCap = capacity();\n        const size_type sz = size();\n        impl_.b_ = newB;\n        impl_.e_ = newB + sz;\n        impl_.z_ = newB + newCap;\n        if (oldB) {\n            M_deallocate(oldB, oldCap);\n        }\n    }\n\n    void shrink")]),
("push_back_neg",[(VE,"    void push_back(const T& value) {\n        if (impl_.e_ != impl_.z_) {\n            M_construct(impl_.e_, value);\n            ++impl_.e_;\n        } else {\n            emplace_back_aux(value);\n        }","    void push_back(const T& value) {\n        if (impl_.e_ == impl_.z_) {\n            emplace_back_aux(value);\n            return;\n        }\n        T* slot = impl_.e_;\n        M_construct(slot, value);\n        impl_.e_ = slot + 1;")]),
("destroy_rev",[(VE,"        for (; first != last; ++first) {\n            std::allocator_traits<Allocator>::destroy(a, first);\n        }\n    }\n\n    // optimized\n    static void S_destroy_range(T* first, T* last) noexcept {","        while (last != first) {\n            --last;\n            std::allocator_traits<Allocator>::destroy(a, last);\n        }\n    }\n\n    // optimized\n    static void S_destroy_range(T* first, T* last) noexcept {")]),
("bt_grow",[(BT,"            iter.node = new_leaf_root_node((std::min<int>)(kNodeValues, 2 * max_count));\n            iter.node->swap(root(), mutable_allocator());\n            delete_leaf_node(root());\n            mutable_root() = iter.node;\n            rightmost_     = iter.node;","            node_type* const old_root = root();\n            const int        room     = 2 * max_count < kNodeValues ? 2 * max_count : kNodeValues;\n            node_type* const bigger   = new_leaf_root_node(room);\n            bigger->swap(old_root, mutable_allocator());\n            rightmost_     = bigger;\n            mutable_root() = bigger;\n            delete_leaf_node(old_root);\n            iter.node = bigger;")]),
("bt_shrink",[(BT,"        node_type* child = root()->child(0);\n        child->make_root();\n        delete_internal_node(root());\n        mutable_root() = child;","        node_type* old   = root();\n        node_type* child = old->child(0);\n        child->make_root();\n        mutable_root() = child;\n        delete_internal_node(old);")]),
("bt_shrink2",[(BT,"        delete_leaf_node(root());\n        mutable_root() = EmptyNode();\n        rightmost_     = EmptyNode();","        node_type* old = root();\n        rightmost_     = EmptyNode();\n        mutable_root() = EmptyNode();\n        delete_leaf_node(old);")]),
("bt_del",[(BT,"        node->destroy(mutable_allocator());\n        deallocate(node_type::LeafSize(node->max_count()), node);","        const int room = node->max_count();\n        node->destroy(mutable_allocator());\n        const auto bytes = node_type::LeafSize(room);\n        deallocate(bytes, node);")]),
("bt_clear",[(BT,"inline IterType btree<P>::internal_last(IterType iter) {\n    assert(iter.node != nullptr);\n    while (iter.position == iter.node->count()) {","inline IterType btree<P>::internal_last(IterType iter) {\n    assert(iter.node != nullptr);\n    for (; iter.position == iter.node->count();) {")]),
]
