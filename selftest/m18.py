PH="phmap.hpp"; BT="btree.hpp"; V="vector.hpp"
MUTS=[
("par_ma_last","C18",PH,[("        for (size_t i = 0; i < num_tables; ++i) {\n            sets_[i].set_ = std::move(that.sets_[i].set_);","        for (size_t i = 0; i < (num_tables > 1 ? num_tables - 1 : 1); ++i) {\n            sets_[i].set_ = std::move(that.sets_[i].set_);")]),
("par_mc_skipempty","C18",PH,[("            if constexpr (!std::is_same_v<gtl::priv::empty, aux_type>)\n                sets_[i].aux_ = std::move(that.sets_[i].aux_);\n        }\n    }\n\n    parallel_hash_set& operator=(const","            if constexpr (!std::is_same_v<gtl::priv::empty, aux_type>)\n                if (i) sets_[i].aux_ = std::move(that.sets_[i].aux_);\n        }\n    }\n\n    parallel_hash_set& operator=(const")]),
("bt_ma_size","C18",BT,[("                swap(rightmost_, x.rightmost_);\n                swap(size_, x.size_);\n            } else {","                swap(rightmost_, x.rightmost_);\n                size_ = x.size_;\n            } else {")]),
]
