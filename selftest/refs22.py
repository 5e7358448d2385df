IN="intrusive.hpp"; U="utils.hpp"
REFS=[
("exch",[(IN,"        : px(rhs.px) {\n        rhs.px = nullptr;\n    }\n\n    ~","        : px(std::exchange(rhs.px, nullptr)) {}\n\n    ~"),(IN,"#include <cassert>","#include <cassert>\n#include <utility>")]),
("swap",[(IN,"        T* tmp = px;\n        px     = rhs.px;\n        rhs.px = tmp;","        std::swap(px, rhs.px);")]),
("det",[(IN,"        T* ret = px;\n        px     = nullptr;\n        return ret;","        return std::exchange(px, nullptr);")]),
("mvdet",[(IN,"    intrusive_ptr(intrusive_ptr<U>&& rhs)\n        : px(rhs.px) {\n        rhs.px = nullptr;\n    }","    intrusive_ptr(intrusive_ptr<U>&& rhs)\n        : px(rhs.detach()) {\n    }")]),
("reset_ex",[(IN,"void reset() { this_type().swap(*this); }","void reset() { T* old = px; px = nullptr; if (old) intrusive_ptr_release(old); }")]),
("assign_inplace",[(IN,"        if (rhs != px)\n            this_type(rhs).swap(*this);\n        return *this;","        if (rhs == px) return *this;\n        if (rhs) intrusive_ptr_add_ref(rhs);\n        T* old = px;\n        px = rhs;\n        if (old) intrusive_ptr_release(old);\n        return *this;")]),
("helper",[(IN,"    intrusive_ptr(intrusive_ptr const& rhs) noexcept\n        : px(rhs.px) {\n        if (px)\n            intrusive_ptr_add_ref(px);\n    }","    intrusive_ptr(intrusive_ptr const& rhs) noexcept\n        : px(rhs.px) {\n        acquire();\n    }"),(IN,"private:\n    T* px;","private:\n    void acquire() const noexcept { if (px != nullptr) intrusive_ptr_add_ref(px); }\n    T* px;")]),
("deleg",[(IN,"    intrusive_ptr(intrusive_ptr const& rhs) noexcept\n        : px(rhs.px) {\n        if (px)\n            intrusive_ptr_add_ref(px);\n    }","    intrusive_ptr(intrusive_ptr const& rhs) noexcept\n        : intrusive_ptr(rhs.px) {}")]),
("selfassign",[(IN,"        if (this != &rhs)\n            this_type(rhs).swap(*this);","        this_type tmp(rhs);\n        swap(tmp);")]),
("dyn",[(IN,"    intrusive_ptr<T> r(p2, false);\n\n    if (p2)\n        p.detach();\n\n    return r;","    if (!p2)\n        return intrusive_ptr<T>();\n    p.detach();\n    return intrusive_ptr<T>(p2, false);")]),
("fetch",[(IN,"static void increment(type& counter) noexcept { ++counter; }\n\n    static unsigned int decrement(type& counter) noexcept { return --counter; }\n};\n\n// --------------------------------------------------------------------------------\n// \\brief A reference","static void increment(type& counter) noexcept { counter.fetch_add(1, std::memory_order_relaxed); }\n\n    static unsigned int decrement(type& counter) noexcept { return counter.fetch_sub(1, std::memory_order_acq_rel) - 1; }\n};\n\n// --------------------------------------------------------------------------------\n// \\brief A reference")]),
("fence",[(IN,"static unsigned int decrement(type& counter) noexcept { return --counter; }\n};\n\n// --------------------------------------------------------------------------------\n// \\brief A reference","static unsigned int decrement(type& counter) noexcept { auto r = counter.fetch_sub(1, std::memory_order_release); std::atomic_thread_fence(std::memory_order_acquire); return r - 1; }\n};\n\n// --------------------------------------------------------------------------------\n// \\brief A reference")]),
("rel2",[(IN,"        if (CounterPolicyT::decrement(p->_refcount) == 0)\n            delete static_cast<const DerivedT*>(p);","        const unsigned int left = CounterPolicyT::decrement(p->_refcount);\n        if (left != 0)\n            return;\n        delete p;")]),
("brace",[(IN,"mutable counter_type _refcount;","mutable counter_type _refcount{0};"),(IN,"    intrusive_ref_counter() noexcept\n        : _refcount(0) {}","    intrusive_ref_counter() noexcept = default;")]),
("g_early",[(U,"    ~scoped_guard() {\n        if (do_it_)\n            unset_();","    ~scoped_guard() {\n        if (!do_it_)\n            return;\n        unset_();")]),
("g_exch",[(U,"    ~scoped_set_unset() {\n        if (do_it_)\n            unset_();","    ~scoped_set_unset() {\n        if (std::exchange(do_it_, false))\n            unset_();"),(U,"#include <cstdint>","#include <cstdint>\n#include <utility>")]),
("g_dism",[(U,"    void dismiss() noexcept { do_it_ = false; }\n\n    scoped_set_value","    void dismiss() noexcept { do_it_ = do_it_ && false; }\n\n    scoped_set_value")]),
("v_repl",[(U,"            old_value_ = std::move(v_);\n            v_         = std::forward<V>(val);","            T tmp(std::move(v_));\n            v_         = std::forward<V>(val);\n            old_value_ = std::move(tmp);")]),
("v_swap",[(U,"            v_ = std::move(old_value_);","            { using std::swap; swap(v_, old_value_); }")]),
("v_argdo",[(U,"        if (do_it_) {\n            old_value_","        if (do_it) {\n            old_value_")]),
("g_opt",[(U,"    bool do_it_;\n    F    unset_;","    bool do_it_;\n    std::optional<F>    unset_;"),(U,"        , unset_(std::move(unset)) {}\n\n    ~scoped_guard() {\n        if (do_it_)\n            unset_();","        , unset_(std::move(unset)) {}\n\n    ~scoped_guard() {\n        if (do_it_)\n            (*unset_)();"),(U,"#include <cstdint>","#include <cstdint>\n#include <optional>")]),
]
