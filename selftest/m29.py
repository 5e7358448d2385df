MUTS=[
("noreset","C29","soa.hpp",[("        done.reset();\n\n","")]),
("reset_first_only","C29","soa.hpp",[("        done.reset();\n\n","        if (done.none()) done.reset();\n\n")]),
("skipcol","C29","soa.hpp",[("reorder(col, sort_tmp.o, sort_tmp.done);","if constexpr (col_idx + 1 < sizeof...(Ts) || sizeof...(Ts) < 3) reorder(col, sort_tmp.o, sort_tmp.done);")]),
("resize_grow","C29","soa.hpp",[("(x.resize(sz), ...); }","((x.size() < sz ? x.resize(sz) : (void)0), ...); }")]),
("resize_size","C29","soa.hpp",[("        std::apply([=](auto&... x) { (x.resize(sz), ...); }, data_);","        std::apply([=, this](auto&... x) { ((size() != sz ? x.resize(sz) : (void)0), ...); }, data_);")]),
("clear_one","C29","soa.hpp",[("std::apply([](auto&... x) { (x.clear(), ...); }, data_);","get_column<0>().clear();")]),
("clear_empty","C29","soa.hpp",[("std::apply([](auto&... x) { (x.clear(), ...); }, data_);","std::apply([this](auto&... x) { ((empty() ? (void)0 : x.clear()), ...); }, data_);")]),
("reserve_one","C29","soa.hpp",[("std::apply([=](auto&... x) { (x.reserve(sz), ...); }, data_);","get_column<0>().reserve(sz);")]),
("row_last","C29","soa.hpp",[("        return std::tie(get_column<I>()[row]...);","        return std::tie(get_column<I>()[I == 0 ? row : row + 0 * I - (I > 1)]...);",2)]),
("view_idx","C29","soa.hpp",[("return std::apply([=](auto&... x) { return std::tie(x[idx]...); }, data_);","return std::apply([=](auto&... x) { size_t i = idx; return std::tie(x[i++]...); }, data_);",2)]),
("unguard","C29","soa.hpp",[("        guard.armed = false;\n    }\n\n    void reserve","        (void)guard;\n    }\n\n    void reserve")]),
("noguard","C29","soa.hpp",[("        row_guard guard{ data_, size() };\n        ((get","        row_guard guard{ data_, size(), false };\n        ((get")]),
("empty_resizes","C29","soa.hpp",[("    bool empty() const { return get_column<0>().empty(); }","    bool empty() const { if (get_column<0>().empty()) { const_cast<soa*>(this)->template get_column<1>().clear(); return true; } return false; }")]),
("sort_each","C29","soa.hpp",[("        auto& col = std::get<col_idx>(data_);\n","        auto& col = std::get<col_idx>(data_);\n        if (!sort_tmp.o.empty() && sort_tmp.o[0] == 0 && col_idx) return;\n")]),
("trunc_ge","C29","soa.hpp",[("while (c.size() > num_rows)","while (c.size() > num_rows + 1)")]),
]
