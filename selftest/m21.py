V="vector.hpp"
MUTS=[
("fill_n_norb","C21",V,[("scoped_guard rollback([&] { S_destroy_range(dest, b); });\n        for (; b != e; ++b) {\n            S_construct(b, value);","scoped_guard rollback([&] { });\n        for (; b != e; ++b) {\n            S_construct(b, value);")]),
("fill_n_back","C21",V,[("                --b;\n                for (; b >= dest; --b)","                --b;\n                for (; b > dest; --b)")]),
("fill_n_back2","C21",V,[("                --b;\n                for (; b >= dest; --b)","                for (; b >= dest; --b)")]),
("fill_wrap_early","C21",V,[("        D_uninitialized_fill_n_a(impl_.e_, sz, value);\n        impl_.e_ += sz;","        impl_.e_ += sz;\n        D_uninitialized_fill_n_a(impl_.e_ - sz, sz, value);")]),
("copy_norb","C21",V,[("scoped_guard rollback([&] { S_destroy_range(dest, b); });\n        for (; first != last; ++first, ++b) {\n            S_construct(b, *first);\n        }\n        rollback.dismiss();","for (; first != last; ++first, ++b) {\n            S_construct(b, *first);\n        }")]),
("copy_a_norb","C21",V,[("scoped_guard rollback([&] { S_destroy_range_a(a, dest, b); });\n        for (; first != last; ++first, ++b) {\n            std::allocator_traits<Allocator>::construct(a, b, *first);\n        }\n        rollback.dismiss();","for (; first != last; ++first, ++b) {\n            std::allocator_traits<Allocator>::construct(a, b, *first);\n        }")]),
("pb_early","C21",V,[("            M_construct(impl_.e_, value);\n            ++impl_.e_;","            ++impl_.e_;\n            M_construct(impl_.e_ - 1, value);")]),
("eb_early","C21",V,[("            M_construct(impl_.e_, std::forward<Args>(args)...);\n            ++impl_.e_;\n        } else {\n            emplace_back_aux(std::forward","            M_construct(impl_.e_++, std::forward<Args>(args)...);\n        } else {\n            emplace_back_aux(std::forward")]),
("pop_wrong","C21",V,[("        --impl_.e_;\n        M_destroy(impl_.e_);","        M_destroy(impl_.e_ - 1);")]),
("clear_noset","C21",V,[("        D_destroy_range_a(pos, impl_.e_);\n        impl_.e_ = pos;","        D_destroy_range_a(pos, impl_.e_);")]),
("rb2","C21",V,[("                scoped_guard rollback2([&] { M_destroy(newE - 1); });\n                M_relocate(newB);\n                rollback2.dismiss();","                M_relocate(newB);")]),
("rb2_wrong","C21",V,[("M_destroy(newE - 1);","M_destroy(newE);")]),
("relocate_done","C21",V,[("            // used memcpy; data has been relocated, do not call destructor\n        } else {\n            D_destroy_range_a(first, last);","            // used memcpy; data has been relocated, do not call destructor\n        } else {\n            D_destroy_range_a(first + 1, last);")]),
("relocate_done_wrap","C21",V,[("        relocate_done(ledge, impl_.b_, impl_.b_ + idx);\n        relocate_done(ledge + idx + n, impl_.b_ + idx, impl_.e_);","        relocate_done(ledge, impl_.b_, impl_.b_ + idx);")]),
("undo_e","C21",V,[("        D_destroy_range_a(position + n, impl_.e_);\n        impl_.e_ = position;","        D_destroy_range_a(position + n, impl_.e_);\n        impl_.e_ -= n;")]),
("undo_nodestroy","C21",V,[("        D_destroy_range_a(position + n, impl_.e_);\n        impl_.e_ = position;","        impl_.e_ = position;")]),
("undo_range","C21",V,[("        D_destroy_range_a(position + n, impl_.e_);\n        impl_.e_ = position;","        D_destroy_range_a(position, impl_.e_);\n        impl_.e_ = position;")]),
("atend_nodec","C21",V,[("                    } else {\n                        impl_.e_ -= n;\n                    }\n                }\n            });","                    }\n                }\n            });")]),
("atend_dec1","C21",V,[("                    } else {\n                        impl_.e_ -= n;\n","                    } else {\n                        --impl_.e_;\n")]),
("window_nodestroy","C21",V,[("                impl_.e_ += n;\n                D_destroy_range_a(position, position + n);","                impl_.e_ += n;")]),
("window_tail_nodone","C21",V,[("            relocate_done(position + n, position, impl_.e_);\n            impl_.e_ += n;","            impl_.e_ += n;")]),
("window_rb","C21",V,[("                        D_destroy_range_a(impl_.e_ - n, impl_.e_ + n);\n                        impl_.e_ -= n;","                        D_destroy_range_a(impl_.e_, impl_.e_ + n);\n                        impl_.e_ -= n;")]),
("dismiss_early","C21",V,[("            constructFunc(start);\n            rollback.dismiss();","            rollback.dismiss();\n            constructFunc(start);")]),
("destroyFunc_n","C21",V,[("                    destroyFunc(start);\n","")]),
("wrap_rb","C21",V,[("                relocate_undo(ledge, impl_.b_, impl_.b_ + idx);\n","")]),
("set_size","C21",V,[("impl_.set(b, size() + n, newCap);","impl_.set(b, size() + 1, newCap);")]),
("reserve_e","C21",V,[("        impl_.z_ = newB + newCap;\n        impl_.e_ = newB + (impl_.e_ - impl_.b_);\n        impl_.b_ = newB;","        impl_.z_ = newB + newCap;\n        impl_.e_ = newB + size();\n        impl_.b_ = newB;",)]),
("reserve_order","C21",V,[("        impl_.z_ = newB + newCap;\n        impl_.e_ = newB + (impl_.e_ - impl_.b_);\n        impl_.b_ = newB;","        impl_.z_ = newB + newCap;\n        auto* oldB = impl_.b_;\n        impl_.b_ = newB;\n        impl_.e_ = newB + (impl_.e_ - impl_.b_); (void)oldB;",)]),
("erase_end","C21",V,[("                    auto newEnd = impl_.e_ - std::distance(first, last);\n                    M_destroy_range_e(newEnd);","                    auto newEnd = impl_.e_ - std::distance(first, last);\n                    M_destroy_range_e(newEnd + 1);")]),
("resize_lt","C21",V,[("            reserve(n);\n            M_uninitialized_fill_n_e(n - size());","            reserve(n);\n            D_uninitialized_fill_n_a(impl_.e_, n - size());\n            impl_.e_ = impl_.z_;")]),
]
