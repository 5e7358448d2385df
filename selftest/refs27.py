M="memoize.hpp"; L="lru_cache.hpp"; P="phmap.hpp"
OLD="""                list_type entry;
                entry.push_front(value_type(key, std::forward<Val>(value)));
                std::optional<key_type> to_delete;
                if (l.size() + 1 > _max_size)
                    to_delete.emplace(l.empty() ? key : l.back().first); // remove oldest
                ctor(key, entry.begin());
                l.splice(l.begin(), entry);
                if (to_delete)
                    l.pop_back();
                return to_delete;
"""
REFS=[
("trycatch",[(L,OLD,"""                l.emplace_front(key, std::forward<Val>(value));
                std::optional<key_type> to_delete;
                try {
                    if (l.size() > _max_size)
                        to_delete.emplace(l.back().first);
                    ctor(key, l.begin());
                } catch (...) { l.pop_front(); throw; }
                if (to_delete)
                    l.pop_back();
                return to_delete;
""")]),
("emplace_it",[(L,OLD,"""                list_type entry;
                auto it = entry.emplace(entry.begin(), key, std::forward<Val>(value));
                std::optional<key_type> to_delete;
                if (_max_size < l.size() + 1) {
                    if (l.empty()) to_delete.emplace(key); else to_delete.emplace(std::prev(l.end())->first);
                }
                ctor(key, it);
                l.splice(l.begin(), entry, it);
                if (to_delete.has_value()) {
                    auto last = l.end();
                    --last;
                    l.erase(last);
                }
                return to_delete;
""")]),
("helper",[(L,"private:\n    size_t   _max_size;","private:\n    static void touch(list_type& l, list_iter it) { l.splice(l.begin(), l, it); }\n    size_t   _max_size;"),(L,"l.splice(l.begin(), l, v.second);","touch(l, v.second);",2)]),
("get_rewrite",[(L,"""        if (result_type res; _cache.modify_if(k, [&](const auto& v, list_type& l) {
                res = v.second->second;
                l.splice(l.begin(), l, v.second);
            }))
            return { res };
        return std::nullopt;""","""        std::optional<result_type> res;
        _cache.modify_if(k, [&](const auto& v, list_type& l) {
            auto node = v.second;
            if (node != l.begin())
                l.splice(l.begin(), l, node);
            res = node->second;
        });
        return res;""")]),
("memo_rewrite",[(M,"""            result_type res;
            if (_cache.if_contains(key, [&](const auto& v) { res = v.second; }))
                return res;
            res = _f(args...);
            _cache.emplace(key, res);
            return res;""","""            std::optional<result_type> hit = contains(args...);
            if (hit)
                return *hit;
            result_type res = _f(args...);
            _cache.try_emplace(key, res);
            return res;""")]),
("memo_tupleapply",[(M,"""                    res = _f(args...);
                    ctor(key, res);""","""                    res = std::apply(_f, key);
                    ctor(key, res);""")]),
("memo_movekey",[(M,"_cache.emplace(key, res);","_cache.emplace(std::move(key), res);")]),
]
