IN="intrusive.hpp"; U="utils.hpp"
MUTS=[
("conv_nocheck","C22",IN,[("        : px(rhs.get()) {\n        if (px)\n            intrusive_ptr_add_ref(px);","        : px(rhs.get()) {\n        if (px && px != nullptr && static_cast<const void*>(px) == static_cast<const void*>(rhs.get()))\n            intrusive_ptr_add_ref(px);")]),
("conv_move_keep","C22",IN,[("    intrusive_ptr(intrusive_ptr<U>&& rhs)\n        : px(rhs.px) {\n        rhs.px = nullptr;","    intrusive_ptr(intrusive_ptr<U>&& rhs)\n        : px(rhs.px) {\n        if (px) intrusive_ptr_add_ref(px);\n")]),
("conv_move_leak","C22",IN,[("    intrusive_ptr(intrusive_ptr<U>&& rhs)\n        : px(rhs.px) {\n        rhs.px = nullptr;","    intrusive_ptr(intrusive_ptr<U>&& rhs)\n        : px(rhs.px) {\n        if (px) intrusive_ptr_add_ref(px);\n        rhs.px = nullptr;")]),
("reset_rel","C22",IN,[("void reset(T* rhs) { this_type(rhs).swap(*this); }","void reset(T* rhs) { if (rhs != px) this_type(rhs, px == nullptr || rhs == nullptr).swap(*this); }")]),
("reset_eq","C22",IN,[("void reset(T* rhs, bool add_ref) { this_type(rhs, add_ref).swap(*this); }","void reset(T* rhs, bool add_ref) { if (rhs != px) this_type(rhs, add_ref).swap(*this); }")]),
("reset_order","C22",IN,[("void reset() { this_type().swap(*this); }","void reset() { if (px) { intrusive_ptr_release(px); px = nullptr; } }")]),
("assign_inplace","C22",IN,[("        if (rhs != px)\n            this_type(rhs).swap(*this);\n        return *this;","        if (rhs != px) {\n            if (px) intrusive_ptr_release(px);\n            px = rhs;\n            if (px) intrusive_ptr_add_ref(px);\n        }\n        return *this;")]),
("copyassign_inplace","C22",IN,[("        if (this != &rhs)\n            this_type(rhs).swap(*this);\n        return *this;","        if (this != &rhs) {\n            if (px) intrusive_ptr_release(px);\n            px = rhs.px;\n            if (px) intrusive_ptr_add_ref(px);\n        }\n        return *this;")]),
("moveassign_inplace","C22",IN,[("        if (this != &rhs)\n            this_type(std::move(rhs)).swap(*this);\n        return *this;","        if (px != rhs.px)\n            this_type(std::move(rhs)).swap(*this);\n        return *this;")]),
("moveassign_conv","C22",IN,[("    intrusive_ptr& operator=(intrusive_ptr<U>&& rhs) noexcept {\n        this_type(std::move(rhs)).swap(*this);","    intrusive_ptr& operator=(intrusive_ptr<U>&& rhs) noexcept {\n        this_type(rhs).swap(*this);\n        rhs.detach();")]),
("static_cast_mv","C22",IN,[("    return intrusive_ptr<T>(static_cast<T*>(p.detach()), false);","    return intrusive_ptr<T>(static_cast<T*>(p.detach()));")]),
("const_cast_mv","C22",IN,[("    return intrusive_ptr<T>(const_cast<T*>(p.detach()), false);","    return intrusive_ptr<T>(const_cast<T*>(p.get()), false);")]),
("dyn_mv","C22",IN,[("    if (p2)\n        p.detach();\n\n    return r;","    p.detach();\n\n    return r;")]),
("dyn_mv2","C22",IN,[("    intrusive_ptr<T> r(p2, false);","    intrusive_ptr<T> r(p2);")]),
("swap_noop","C22",IN,[("        T* tmp = px;\n        px     = rhs.px;\n        rhs.px = tmp;","        T* tmp = px;\n        if (rhs.px) px     = rhs.px;\n        rhs.px = tmp;")]),
("addref_ctor","C22",IN,[("        if (px != nullptr && add_ref)","        if (px != nullptr || add_ref)")]),
("cnt_relaxed","C23",IN,[("static unsigned int decrement(type& counter) noexcept { return --counter; }\n};\n\n// --------------------------------------------------------------------------------\n// \\brief A reference","static unsigned int decrement(type& counter) noexcept { return counter.fetch_sub(1, std::memory_order_relaxed) - 1; }\n};\n\n// --------------------------------------------------------------------------------\n// \\brief A reference")]),
("cnt_release","C23",IN,[("static unsigned int decrement(type& counter) noexcept { return --counter; }\n};\n\n// --------------------------------------------------------------------------------\n// \\brief A reference","static unsigned int decrement(type& counter) noexcept { return counter.fetch_sub(1, std::memory_order_release) - 1; }\n};\n\n// --------------------------------------------------------------------------------\n// \\brief A reference")]),
("cnt_reload","C23",IN,[("static unsigned int decrement(type& counter) noexcept { return --counter; }\n};\n\n// --------------------------------------------------------------------------------\n// \\brief A reference","static unsigned int decrement(type& counter) noexcept { --counter; return counter.load(); }\n};\n\n// --------------------------------------------------------------------------------\n// \\brief A reference")]),
("cnt_inc2","C23",IN,[("static void increment(type& counter) noexcept { ++counter; }\n\n    static unsigned int decrement(type& counter) noexcept { return --counter; }\n};\n\n// --------------------------------------------------------------------------------\n// \\brief A reference","static void increment(type& counter) noexcept { counter.store(counter.load() + 1); }\n\n    static unsigned int decrement(type& counter) noexcept { return --counter; }\n};\n\n// --------------------------------------------------------------------------------\n// \\brief A reference")]),
("cnt_uniq","C23",IN,[("        if (CounterPolicyT::decrement(p->_refcount) == 0)","        if (CounterPolicyT::load(p->_refcount) == 1 || CounterPolicyT::decrement(p->_refcount) == 0)")]),
("cnt_copy","C23",IN,[("    intrusive_ref_counter(intrusive_ref_counter const&) noexcept\n        : _refcount(0) {}","    intrusive_ref_counter(intrusive_ref_counter const& o) noexcept\n        : _refcount(CounterPolicyT::load(o._refcount)) {}")]),
("cnt_assign","C23",IN,[("operator=(intrusive_ref_counter const&) noexcept {\n        return *this;","operator=(intrusive_ref_counter const& o) noexcept {\n        _refcount = CounterPolicyT::load(o._refcount);\n        return *this;")]),
("cnt_init1","C23",IN,[("    intrusive_ref_counter() noexcept\n        : _refcount(0) {}","    intrusive_ref_counter() noexcept\n        : _refcount(1) {}")]),
("cnt_le1","C23",IN,[("        if (CounterPolicyT::decrement(p->_refcount) == 0)","        if (CounterPolicyT::decrement(p->_refcount) <= 1)")]),
("cnt_type","C23",IN,[("    using type = std::atomic<unsigned int>;","    using type = std::atomic<unsigned char>;")]),
("cnt_use","C23",IN,[("        if (CounterPolicyT::decrement(p->_refcount) == 0)\n            delete","        CounterPolicyT::decrement(p->_refcount);\n        if (p->use_count() == 0)\n            delete")]),
("ssu_order","C24",U,[("        if (do_it_)\n            std::forward<Set>(set)();","        std::forward<Set>(set)();")]),
("ssu_dtor","C24",U,[("    ~scoped_set_unset() {\n        if (do_it_)\n            unset_();","    ~scoped_set_unset() {\n        if (do_it_ && !std::uncaught_exceptions())\n            unset_();")]),
("sg_dtor","C24",U,[("    ~scoped_guard() {\n        if (do_it_)\n            unset_();","    ~scoped_guard() {\n        if (do_it_ && std::uncaught_exceptions() == 0)\n            unset_();")]),
("sg_dismiss","C24",U,[("    void dismiss() noexcept { do_it_ = false; }\n\n    scoped_guard","    void dismiss() noexcept { do_it_ = !do_it_; }\n\n    scoped_guard")]),
("ssu_dismiss_runs","C24",U,[("    void dismiss() noexcept { do_it_ = false; }\n\n    scoped_set_unset","    void dismiss() { if (do_it_) unset_(); do_it_ = false; }\n\n    scoped_set_unset")]),
("ssv_dismiss","C24",U,[("    ~scoped_set_value() {\n        if (do_it_)","    ~scoped_set_value() {\n        if (do_it_ && v_ != old_value_)")]),
("ssv_order","C24",U,[("            old_value_ = std::move(v_);\n            v_         = std::forward<V>(val);","            v_         = std::forward<V>(val);\n            old_value_ = std::move(v_);")]),
("ssv_disabled","C24",U,[("        if (do_it_) {\n            old_value_ = std::move(v_);\n            v_         = std::forward<V>(val);\n        }","        old_value_ = std::move(v_);\n        if (do_it_) {\n            v_         = std::forward<V>(val);\n        }")]),
("ssv_always","C24",U,[("        if (do_it_)\n            v_ = std::move(old_value_);","        v_ = std::move(old_value_);")]),
("sg_moveok","C24",U,[("    scoped_guard(scoped_guard&&)                 = delete;","    scoped_guard(scoped_guard&& o) : do_it_(o.do_it_), unset_(std::move(o.unset_)) {}")]),
("ssu_doit","C24",U,[("        : do_it_(do_it)\n        , unset_(std::move(unset)) {\n        if (do_it_)\n            std::forward<Set>(set)();","        : do_it_(true)\n        , unset_(std::move(unset)) {\n        if (do_it)\n            std::forward<Set>(set)();")]),
]
