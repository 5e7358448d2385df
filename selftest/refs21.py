V="vector.hpp"
MUTS=[
("idx_destroy","C21 C20",V,[("            for (; first != last; ++first)\n                first->~T();","            auto n = last - first;\n            for (std::ptrdiff_t i = 0; i < n; ++i)\n                first[i].~T();")]),
("std_destroy","C21 C20",V,[("            for (; first != last; ++first)\n                first->~T();","            std::destroy(first, last);")]),
("fill_loop_n","C21 C20",V,[("        for (; b != e; ++b) {\n            S_construct(b, value);\n        }","        while (b != e) {\n            S_construct(b, value);\n            ++b;\n        }")]),
("fill_trycatch","C21 C20",V,[("        auto         e = dest + n;\n        scoped_guard rollback([&] { S_destroy_range(dest, b); });\n        for (; b != e; ++b) {\n            S_construct(b, value);\n        }\n        rollback.dismiss();","        auto         e = dest + n;\n        try {\n            for (; b != e; ++b)\n                S_construct(b, value);\n        } catch (...) {\n            S_destroy_range(dest, b);\n            throw;\n        }")]),
("fill_count","C21 C20",V,[("        auto         e = dest + n;\n        scoped_guard rollback([&] { S_destroy_range(dest, b); });\n        for (; b != e; ++b) {\n            S_construct(b, value);\n        }\n        rollback.dismiss();","        scoped_guard rollback([&] { S_destroy_range(dest, b); });\n        for (size_type i = 0; i < n; ++i) {\n            S_construct(b, value);\n            ++b;\n        }\n        rollback.dismiss();")]),
("fill_countdown","C21 C20",V,[("        auto         e = dest + n;\n        scoped_guard rollback([&] { S_destroy_range(dest, b); });\n        for (; b != e; ++b) {\n            S_construct(b, value);\n        }\n        rollback.dismiss();","        scoped_guard rollback([&] { S_destroy_range(dest, b); });\n        for (; n > 0; --n) {\n            S_construct(b, value);\n            ++b;\n        }\n        rollback.dismiss();")]),
("fill_std","C21 C20",V,[("        auto         b = dest;\n        auto         e = dest + n;\n        scoped_guard rollback([&] { S_destroy_range(dest, b); });\n        for (; b != e; ++b) {\n            S_construct(b, value);\n        }\n        rollback.dismiss();","        std::uninitialized_fill_n(dest, n, value);")]),
("fill_fwdundo","C21 C20",V,[("                --b;\n                for (; b >= dest; --b) {\n                    b->~T();\n                }","                S_destroy_range(dest, b);")]),
("fill_undo2","C21 C20",V,[("                --b;\n                for (; b >= dest; --b) {\n                    b->~T();\n                }","                while (b != dest) {\n                    --b;\n                    b->~T();\n                }")]),
("pb_tmp","C21 C20",V,[("            M_construct(impl_.e_, value);\n            ++impl_.e_;","            T* slot = impl_.e_;\n            M_construct(slot, value);\n            impl_.e_ = slot + 1;")]),
("pop2","C21 C20",V,[("        --impl_.e_;\n        M_destroy(impl_.e_);","        M_destroy(impl_.e_ - 1);\n        --impl_.e_;")]),
("pop3","C21 C20",V,[("        --impl_.e_;\n        M_destroy(impl_.e_);","        M_destroy_range_e(impl_.e_ - 1);")]),
("clear_order","C21 C20",V,[("        D_destroy_range_a(pos, impl_.e_);\n        impl_.e_ = pos;","        T* last  = impl_.e_;\n        impl_.e_ = pos;\n        D_destroy_range_a(pos, last);")]),
("rb2_inc","C21 C20",V,[("                M_construct(newE, std::forward<Args>(args)...);\n                ++newE;\n                scoped_guard rollback2([&] { M_destroy(newE - 1); });","                M_construct(newE, std::forward<Args>(args)...);\n                T* const added = newE++;\n                scoped_guard rollback2([&] { M_destroy(added); });")]),
("undo_order","C21 C20",V,[("        D_destroy_range_a(position + n, impl_.e_);\n        impl_.e_ = position;","        T* last = impl_.e_;\n        impl_.e_ = position;\n        D_destroy_range_a(position + n, last);")]),
("reserve_e","C21 C20",V,[("        impl_.z_ = newB + newCap;\n        impl_.e_ = newB + (impl_.e_ - impl_.b_);\n        impl_.b_ = newB;","        const auto cnt = size();\n        impl_.b_ = newB;\n        impl_.e_ = newB + cnt;\n        impl_.z_ = newB + newCap;")]),
("atend_late","C21 C20",V,[("                make_window(position, n);\n            } else {\n                impl_.e_ += n;\n            }","                make_window(position, n);\n            }"),("                    } else {\n                        impl_.e_ -= n;\n                    }\n                }\n            });","                    }\n                }\n            });"),("            constructFunc(start);\n            rollback.dismiss();","            constructFunc(start);\n            if (!fresh && at_end)\n                impl_.e_ += n;\n            rollback.dismiss();")]),
("split_fresh","C21 C20",V,[("            if (!at_end) {\n                make_window(position, n);\n            } else {\n                impl_.e_ += n;\n            }\n            b = impl_.b_;","            b = impl_.b_;\n            if (at_end) {\n                impl_.e_ += n;\n            } else {\n                make_window(position, n);\n            }")]),
("wrap_done","C21 C20",V,[("        relocate_done(ledge, impl_.b_, impl_.b_ + idx);\n        relocate_done(ledge + idx + n, impl_.b_ + idx, impl_.e_);","        relocate_done(ledge, impl_.b_, impl_.e_);")]),
("wrap_done2","C21 C20",V,[("        relocate_done(ledge, impl_.b_, impl_.b_ + idx);\n        relocate_done(ledge + idx + n, impl_.b_ + idx, impl_.e_);","        T* mid = impl_.b_ + idx;\n        relocate_done(ledge + idx + n, mid, impl_.e_);\n        relocate_done(ledge, impl_.b_, mid);")]),
("window_swap","C21 C20",V,[("                impl_.e_ += n;\n                D_destroy_range_a(position, position + n);","                D_destroy_range_a(position, position + n);\n                impl_.e_ += n;")]),
("erase_cnt","C21 C20",V,[("                    auto newEnd = impl_.e_ - std::distance(first, last);\n                    M_destroy_range_e(newEnd);","                    M_destroy_range_e(impl_.e_ - (last - first));")]),
("erase_std","C21 C20",V,[("                    std::copy(std::make_move_iterator(const_cast<iterator>(last)),\n                              std::make_move_iterator(end()),\n                              const_cast<iterator>(first));\n                    auto newEnd = impl_.e_ - std::distance(first, last);\n                    M_destroy_range_e(newEnd);","                    auto newEnd = std::move(const_cast<iterator>(last), end(), const_cast<iterator>(first));\n                    M_destroy_range_e(newEnd);")]),
("erase_loop","C21 C20",V,[("                    std::copy(std::make_move_iterator(const_cast<iterator>(last)),\n                              std::make_move_iterator(end()),\n                              const_cast<iterator>(first));\n                    auto newEnd = impl_.e_ - std::distance(first, last);\n                    M_destroy_range_e(newEnd);","                    T* out = const_cast<iterator>(first);\n                    for (T* in = const_cast<iterator>(last); in != impl_.e_; ++in, ++out)\n                        *out = std::move(*in);\n                    M_destroy_range_e(out);")]),
("resize_split","C21 C20",V,[("        if (n <= size()) {\n            M_destroy_range_e(impl_.b_ + n);\n        } else {\n            reserve(n);","        const auto sz = size();\n        if (n < sz) {\n            M_destroy_range_e(impl_.b_ + n);\n        } else if (n > sz) {\n            reserve(n);")]),
]
REFS=[(m[0],[(m[2],)+tuple(e) for e in m[3]]) for m in MUTS]
