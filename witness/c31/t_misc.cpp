#include <gtl/intrusive.hpp>
#include <gtl/utils.hpp>
#include <gtl/phmap_dump.hpp>
#include "t.h"
struct B : gtl::intrusive_ref_counter<B, gtl::thread_unsafe_counter> { virtual ~B() = default; };
struct X : gtl::intrusive_ref_counter<X, gtl::thread_safe_counter> {};
template<class T> void ptr_facts() {
    using P = gtl::intrusive_ptr<T>;
    SAME(decltype(D(const P&).get()), T*);
    SAME(decltype(*D(const P&)), T&);
    SAME(decltype(D(const P&).operator->()), T*);
    static_assert(std::is_nothrow_move_constructible_v<P> && std::is_nothrow_move_assignable_v<P> && std::is_nothrow_default_constructible_v<P>);
    static_assert(!std::is_convertible_v<P, T*>, "no implicit conversion to a raw pointer");
    static_assert(!std::is_convertible_v<P, bool> && !std::is_convertible_v<P, int>, "no implicit conversion to bool");
    static_assert(sizeof(P) == sizeof(T*));
    NO(D(const P&).reset());
    NO(D(const P&).detach());
    NO(D(const P&).swap(D(P&)));
    NO(D(const P&) = D(const P&));
    YES(D(P&).reset());
    YES(D(P&).detach());
    YES(D(P&).swap(D(P&)));
    YES(D(P&) = D(const P&));
}
template void ptr_facts<B>();
template void ptr_facts<const B>();
template void ptr_facts<X>();
template<class G> void pinned() {
    static_assert(!std::is_copy_constructible_v<G>, "a scope guard cannot be copied");
    static_assert(!std::is_copy_assignable_v<G>, "a scope guard cannot be copied");
    NO(new G(D(G)));
}
inline auto f = [] {};
template void pinned<gtl::scoped_guard<decltype(f)>>();
template void pinned<gtl::scoped_set_unset<decltype(f)>>();
template void pinned<gtl::scoped_set_value<int>>();
template void pinned<gtl::scoped_set_value<std::string>>();
template<class A> void archive() {
    static_assert(!std::is_copy_constructible_v<A>, "an archive owns its stream");
    static_assert(!std::is_copy_assignable_v<A>, "an archive owns its stream");
}
template void archive<gtl::BinaryOutputArchive>();
template void archive<gtl::BinaryInputArchive>();
