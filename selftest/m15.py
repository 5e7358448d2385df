PH="phmap.hpp"; BT="btree.hpp"; VE="vector.hpp"; GB="gtl_base.hpp"
MUTS=[
("h_oldcap","C15",PH,[("            Deallocate<Layout::Alignment()>(&alloc_ref(), old_ctrl, layout.AllocSize());","            layout = MakeLayout(capacity_);\n            Deallocate<Layout::Alignment()>(&alloc_ref(), old_ctrl, layout.AllocSize());")]),
("h_nofree_small","C15",PH,[("        if (old_capacity) {\n            Sanit","        if (old_capacity > 1) {\n            Sanit")]),
("h_destroy_nofree","C15",PH,[("        Deallocate<Layout::Alignment()>(&alloc_ref(), ctrl_, layout.AllocSize());","        if (size_) Deallocate<Layout::Alignment()>(&alloc_ref(), ctrl_, layout.AllocSize());")]),
("h_std","C15",PH,[("        char* mem    = static_cast<char*>(Allocate<Layout::Alignment()>(&alloc_ref(), layout.AllocSize()));","        char* mem    = static_cast<char*>(::operator new(layout.AllocSize()));")]),
("b_leafsize","C15",BT,[("        deallocate(node_type::LeafSize(node->max_count()), node);","        deallocate(node_type::LeafSize(), node);")]),
("b_leafsize_count","C15",BT,[("        node->destroy(mutable_allocator());\n        deallocate(node_type::LeafSize(node->max_count()), node);","        const int n = node->count();\n        node->destroy(mutable_allocator());\n        deallocate(node_type::LeafSize(n), node);")]),
("b_internal_leaf","C15",BT,[("        node_type* p = allocate(node_type::LeafSize());","        node_type* p = allocate(node_type::InternalSize());")]),
("b_grow_nofree","C15",BT,[("            delete_leaf_node(root());\n            mutable_root() = iter.node;","            root()->destroy(mutable_allocator());\n            mutable_root() = iter.node;")]),
("b_shrink_nofree","C15",BT,[("        delete_internal_node(root());\n        mutable_root() = child;","        root()->destroy(mutable_allocator());\n        mutable_root() = child;")]),
("b_shrink_leaf","C15",BT,[("        delete_internal_node(root());\n        mutable_root() = child;","        delete_leaf_node(root());\n        mutable_root() = child;")]),
("v_norollback","C15",VE,[("            scoped_guard rollback1([&] { M_deallocate(newB, sz); });\n            if constexpr (std::is_trivially_copyable_v<T> && usingStdAllocator) {\n                // For linear","            scoped_guard rollback1([&] { });\n            if constexpr (std::is_trivially_copyable_v<T> && usingStdAllocator) {\n                // For linear")]),
("v_rollsize","C15",VE,[("            scoped_guard rollback1([&] { M_deallocate(newB, sz); });\n            if constexpr (std::is_trivially_copyable_v<T> && usingStdAllocator) {\n                // For linear","            scoped_guard rollback1([&] { M_deallocate(newB, size() + 1); });\n            if constexpr (std::is_trivially_copyable_v<T> && usingStdAllocator) {\n                // For linear")]),
("v_z","C15",VE,[("        impl_.e_ = newE;\n        impl_.z_ = newB + sz;\n    }\n\n    //===========================================================================\n    //---------------------------------------------------------------------------\n    // modifiers (erase)","        impl_.e_ = newE;\n        impl_.z_ = newE;\n    }\n\n    //===========================================================================\n    //---------------------------------------------------------------------------\n    // modifiers (erase)")]),
]
