VE="vector.hpp"
MUTS=[
("reloc_first","C20",VE,[("                M_construct(newE, std::forward<Args>(args)...);\n                ++newE;\n                scoped_guard rollback2([&] { M_destroy(newE - 1); });\n                M_relocate(newB);\n                rollback2.dismiss();","                M_relocate(newB);\n                M_construct(newE, std::forward<Args>(args)...);\n                ++newE;")]),
("resize_noint","C20",VE,[("dataIsInternalAndNotVT(t) && n > capacity()","false && n > capacity()")]),
("resize_cap","C20",VE,[("dataIsInternalAndNotVT(t) && n > capacity()","dataIsInternalAndNotVT(t) && n > 2 * capacity()")]),
("insert_noint","C20",VE,[("            1,\n            [&] { return dataIsInternal(value); },\n            [&] { return insert(cpos, T(value)); },","            1,\n            [&] { return false; },\n            [&] { return insert(cpos, T(value)); },")]),
("int_lt","C20",VE,[("impl_.b_ <= std::addressof(t)","impl_.b_ < std::addressof(t)")]),
("free_first","C20",VE,[("        size_type sz   = byte_sz / sizeof(T);\n        auto      newB = M_allocate(sz);\n        auto      newE = newB + size();","        size_type sz   = byte_sz / sizeof(T);\n        if (size() > 1) { reserve(sz); M_construct(impl_.e_, std::forward<Args>(args)...); ++impl_.e_; return; }\n        auto      newB = M_allocate(sz);\n        auto      newE = newB + size();")]),
("insn_noint","C20",VE,[("            [&] { return dataIsInternalAndNotVT(value); },\n            [&] { return insert(cpos, n, T(value)); },","            [&] { return n == 1 && dataIsInternalAndNotVT(value); },\n            [&] { return insert(cpos, n, T(value)); },")]),
("ins_ref","C20",VE,[("            [&] { return insert(cpos, T(std::move(value))); },","            [&] { T& v = value; return emplace_hint_(cpos, v); },")]),
]
