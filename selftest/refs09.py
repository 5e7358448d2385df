P="phmap.hpp"
REFS=[
("h2mod",[(P,"(h2_t)(ctrl_t)(hashval & 0x7F)","(h2_t)(ctrl_t)(hashval % 128)")]),
("h1div",[(P,"inline size_t H1(size_t hashval, const ctrl_t*) { return (hashval >> 7); }","inline size_t H1(size_t hashval, const ctrl_t*) { return hashval / 128; }")]),
("setctrl",[(P,"        set_ctrl(i, H2(hashval));\n    }","        const auto tag = static_cast<unsigned char>(hashval);\n        set_ctrl(i, (h2_t)(tag & 127));\n    }")]),
("helper",[(P,"    probe_seq<Group::kWidth> probe(size_t hashval) const {","    size_t probe_start(size_t h) const { return (h >> 8 << 1) | ((h >> 7) & 1); }\n    probe_seq<Group::kWidth> probe(size_t hashval) const {"),(P,"probe_seq<Group::kWidth>(H1(hashval, ctrl_), capacity_)","probe_seq<Group::kWidth>(probe_start(hashval), capacity_)")]),
("inner_helper",[(P,"        Inner& inner   = sets_[subidx(hashval)];\n        auto&  set     = inner.set_;","        Inner* pi = sets_.data() + subidx(hashval);\n        Inner& inner   = *pi;\n        auto&  set     = inner.set_;",2)]),
("rehash_twice",[(P,"            set.commit_insert(offset, hashval);","            set.commit_insert(offset, this->hash(key));",2)]),
]
