PH="phmap.hpp"
O="        if (it == set.end())\n            return 0;\n        if (m.switch_to_unique()) {\n            // we did an unlock/lock, need to call `find()` again\n            it = set.find(key, hashval);\n            if (it == set.end())\n                return 0;\n        }\n        if (std::forward<F>(f)(const_cast<value_type&>(*it))) {\n            set._erase(it);\n            return 1;\n        }\n        return 0;"
REFS=[
("merge",[(PH,O,"        if (it == set.end())\n            return 0;\n        if (m.switch_to_unique())\n            it = set.find(key, hashval);\n        if (it != set.end() && std::forward<F>(f)(const_cast<value_type&>(*it))) {\n            set._erase(it);\n            return 1;\n        }\n        return 0;")]),
]
