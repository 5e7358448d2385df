M="memoize.hpp"; L="lru_cache.hpp"; P="phmap.hpp"
MUTS=[
("emplace_move_res","C27",M,[("_cache.emplace(key, res);","_cache.emplace(key, std::move(res));")]),
("no_store","C27",M,[("            _cache.emplace(key, res);\n","")]),
("fn_first","C27",M,[("            result_type res;\n            if (_cache.if_contains(key, [&](const auto& v) { res = v.second; }))\n                return res;\n            res = _f(args...);","            result_type res = _f(args...);\n            if (_cache.if_contains(key, [&](const auto& v) { res = v.second; }))\n                return res;")]),
("ctor_init","C27",M,[("                    res = _f(args...);\n                    ctor(key, res);","                    ctor(key, res);\n                    res = _f(args...);")]),
("twice","C27",M,[("                    ctor(key, res);","                    ctor(key, _f(args...));")]),
("move_args","C27",M,[("    result_type operator()(Args... args) {\n        key_type key(args...);","    result_type operator()(Args... args) {\n        key_type key(std::move(args)...);")]),
("catch","C27",M,[("            res = _f(args...);\n            _cache.emplace(key, res);","            try { res = _f(args...); } catch (...) { return res; }\n            _cache.emplace(key, res);")]),
("nohitvalue","C27",M,[("                    // called only when key was already present\n                    res = v.second;","                    // called only when key was already present\n                    (void)v;")]),
("hit_recompute","C27",M,[("                [&](typename map_type::value_type& v) {\n                    // called only when key was already present\n                    res = v.second;","                [&](typename map_type::value_type& v) {\n                    // called only when key was already present\n                    res = _f(args...); (void)v;")]),
("hit_move","C27",M,[("                    // called only when key was already present\n                    res = v.second;","                    // called only when key was already present\n                    res = std::move(v.second);")]),
("insert_or_assign","C27",M,[("            _cache.emplace(key, res);\n            return res;","            if (!_cache.emplace(key, res).second) return (*this)(args...);\n            return res;")]),
("contains_calls","C27",M,[("        if (result_type res; _cache.if_contains(key, [&](const auto& v) { res = v.second; }))\n            return { res };\n        return {};","        if (result_type res; _cache.if_contains(key, [&](const auto& v) { res = v.second; }))\n            return { res };\n        return { _f(args...) };")]),
("swapres","C27",M,[("                res = _f(args...);\n                // (the","                auto r2 = _f(args...);\n                // (the"),("entry.push_front(value_type(key, res));","entry.push_front(value_type(key, r2));")]),
("lru_no_splice","C28",M,[("                l.splice(l.begin(), l, v.second);\n","")]),
("lru_splice_end","C28",L,[("                res = v.second->second;\n                l.splice(l.begin(), l, v.second);","                res = v.second->second;\n                l.splice(l.end(), l, v.second);")]),
("lru_splice_prevend","C28",L,[("                res = v.second->second;\n                l.splice(l.begin(), l, v.second);","                res = v.second->second;\n                l.splice(std::next(l.begin()), l, v.second);")]),
("lru_insert_end","C28",L,[("l.splice(l.begin(), entry);","l.splice(l.end(), entry);")]),
("lru_ctor_before","C28",L,[("ctor(key, entry.begin());","ctor(key, l.begin());")]),
("lru_wrong_victim","C28",L,[("to_delete.emplace(l.empty() ? key : l.back().first);","to_delete.emplace(l.empty() ? key : l.front().first);")]),
("lru_pop_front","C28",L,[("                    l.pop_back();","                    l.pop_front();")]),
("lru_no_erase","C28",P,[("                if (del)\n                    inner->set_.erase(*del);\n","")]),
("lru_erase_after_unlock","C28",P,[("                if (del)\n                    inner->set_.erase(*del);\n","                m = UniqueLock();\n                if (del)\n                    this->erase(*del);\n")]),
("lru_no_pop","C28",L,[("                if (to_delete)\n                    l.pop_back();\n","")]),
("lru_no_assign","C28",L,[("                v.second->second = std::forward<Val>(value);\n","")]),
("clear_noaux","C28",P,[("            inner.set_.clear();\n            if constexpr (!std::is_same_v<gtl::priv::empty, aux_type>)\n                inner.aux_.clear();","            inner.set_.clear();")]),
("old_insert","C28",L,[("                list_type entry;\n                entry.push_front(value_type(key, std::forward<Val>(value)));\n","                l.push_front(value_type(key, std::forward<Val>(value)));\n"),("if (l.size() + 1 > _max_size)","if (l.size() > _max_size)"),("l.empty() ? key : ",""),("ctor(key, entry.begin());\n                l.splice(l.begin(), entry);","ctor(key, l.begin());")]),
("get_shared","C28 C02",L,[("_cache.modify_if(k, [&](const auto& v, list_type& l)","_cache.if_contains(k, [&](const auto& v, list_type& l)")]),
("exists_touch","C28",L,[("return _cache.if_contains(k, [&](const auto&, list_type&) {});","return _cache.modify_if(k, [&](const auto& v, list_type& l) { l.splice(l.begin(), l, v.second); });")]),
]
