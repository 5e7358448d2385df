REFS=[
("clearfn",[("soa.hpp","std::apply([](auto&... x) { (x.clear(), ...); }, data_);","clear_impl(std::index_sequence_for<Ts...>{});"),("soa.hpp","private:\n","private:\n    template<size_t... I> void clear_impl(std::index_sequence<I...>) { (get_column<I>().clear(), ...); }\n")]),
("localdone",[("soa.hpp","        done.reset();\n\n","        for (size_t i = 0; i < done.size(); ++i) done.set(i, false);\n\n")]),
("donefill",[("soa.hpp","        done.reset();\n\n","        if (done.any()) done.reset();\n\n")]),
("resizecheck",[("soa.hpp","        row_guard guard{ data_, size() };\n        std::apply([=](auto&... x) { (x.resize(sz)","        if (sz == size()) return;\n        row_guard guard{ data_, size() };\n        std::apply([=](auto&... x) { (x.resize(sz)")]),
("trunc_erase",[("soa.hpp","            while (c.size() > num_rows)\n                c.pop_back();","            if (c.size() > num_rows)\n                c.erase(c.begin() + num_rows, c.end());")]),
("cycle",[("soa.hpp","""                    c[curidx] = std::move(c[o[curidx]]);
                    curidx    = o[curidx];""","""                    const size_t from = o[curidx];
                    c[curidx] = std::move(c[from]);
                    curidx    = from;""")]),
("resetafter",[("soa.hpp","        done.reset();\n\n",""),("soa.hpp","        reorder(col, sort_tmp.o, sort_tmp.done);","        sort_tmp.done.reset();\n        reorder(col, sort_tmp.o, sort_tmp.done);")]),
]
