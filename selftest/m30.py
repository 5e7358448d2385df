PH="phmap.hpp"; BT="btree.hpp"; BV="bit_vector.hpp"; VE="vector.hpp"; SO="soa.hpp"; UT="utils.hpp"; IN="intrusive.hpp"
MUTS=[
("if_contains_mut","C31",PH,[("template modify_if_impl<K, F, SharedLock, const value_type&>(","template modify_if_impl<K, F, SharedLock>(")]),
("it_from_const","C31",PH,[("            : inner_(i)\n            , ctrl_","            : inner_(i)\n            , ctrl_")]) if 0 else
("soa_const_view","C31",SO,[("    auto get_row_impl(std::integer_sequence<size_t, I...>, size_t row) const {\n        return std::tie(get_column<I>()[row]...);","    auto get_row_impl(std::integer_sequence<size_t, I...>, size_t row) const {\n        return std::tie(const_cast<soa*>(this)->template get_column<I>()[row]...);")]),
("vec_data_const","C31",VE,[("const T* data() const noexcept { return impl_.b_; }","T* data() const noexcept { return impl_.b_; }")]),
("vec_move_noexcept","C31",VE,[("vector(vector&& other) noexcept","vector(vector&& other)")]),
("bv_view_nonconst","C31",BV,[("    const bv_type view(size_t first = 0, size_t last = npos) const {","    bv_type view(size_t first = 0, size_t last = npos) const {")]),
("guard_copy","C31",UT,[("    scoped_guard(const scoped_guard&)            = delete;","    scoped_guard(const scoped_guard&)            = default;")]),
("ptr_implicit_bool","C31",IN,[("explicit operator bool() const noexcept { return px","operator bool() const noexcept { return px")]),
("bt_const_find","C31",BT,[("    const_iterator find(const key_arg<K>& key) const { return tree_.find(key); }","    iterator find(const key_arg<K>& key) const { return const_cast<Tree&>(tree_).find(key); }")]),
("ph_nothrow","C31",PH,[("    raw_hash_set& operator=(raw_hash_set&& that) noexcept(","    raw_hash_set& operator=(raw_hash_set&& that) noexcept(true ||")]),
("soa_strict","C30",SO,[("        ((get_column<I>().push_back(std::get<I>(t))), ...);","        ((get_column<I>().insert(get_column<I>().begin(), std::get<I>(t))), ...);")]),
("eb_default","C30",PH,[("template<class K = key_type, class F>\n    bool if_contains(const key_arg<K>& key, F&& f) const {","template<class K = key_type, class F>\n    bool if_contains(const key_arg<K>& key, F&& f) const {\n        static_assert(std::is_default_constructible_v<value_type>);")]),
]
