#include <gtl/vector.hpp>
#include "min.h"
#include <algorithm>
template<class M> void reads(const M& m) {
    use(m.size(), m.empty(), m.capacity(), m.max_size(), m.begin(), m.end(), m.cbegin(), m.cend(), m.rbegin(), m.rend(), m.crbegin(), m.crend());
    use(m[0], m.at(0), m.front(), m.back(), m.data(), m.get_allocator());
    for (auto& e : m) use(e);
}
template<class M> void moveonly() {
    M& m = any<M&>();
    using T = typename M::value_type;
    reads(m);
    use(m[0], m.at(0), m.front(), m.back(), m.data(), m.begin(), m.end(), m.rbegin(), m.rend());
    m.push_back(any<T>());
    use(m.emplace_back(1));
    m.emplace_back(any<T>());
    m.insert(m.cbegin(), any<T>());
    m.emplace(m.cbegin(), 1);
    m.erase(m.cbegin());
    m.erase(m.begin());
    m.erase(m.cbegin(), m.cend());
    m.pop_back();
    m.reserve(10);
    m.shrink_to_fit();
    m.clear();
    m.swap(m);
    M m2(std::move(m));
    using std::swap;
    swap(m, m2);
    gtl::erase_if(m, [](const T&) { return true; });
    m.insert(m.cbegin(), std::move_iterator(any<T*>()), std::move_iterator(any<T*>()));
    m.assign(std::move_iterator(any<T*>()), std::move_iterator(any<T*>()));
    std::sort(m.begin(), m.end(), [](const T& a, const T& b) { return a.v < b.v; });
    m2 = std::move(m);
}
template<class M> void copyable() {
    M& m = any<M&>();
    using T = typename M::value_type;
    const T& t = any<const T&>();
    M b(m);
    b = m;
    M b2(m, m.get_allocator());
    M b3(std::move(b), m.get_allocator());
    M b4(10, t, m.get_allocator());
    M b5(&t, &t, m.get_allocator());
    M b6({ t, t }, m.get_allocator());
    M b7(InIt<T>{ &t }, InIt<T>{ &t }, m.get_allocator());
    M b8(m.get_allocator());
    b = { t, t };
    m.push_back(t);
    m.insert(m.cbegin(), t);
    m.insert(m.cbegin(), 3, t);
    m.insert(m.cbegin(), &t, &t);
    m.insert(m.cbegin(), InIt<T>{ &t }, InIt<T>{ &t });
    m.insert(m.cbegin(), { t, t });
    m.assign(3, t);
    m.assign(&t, &t);
    m.assign(InIt<T>{ &t }, InIt<T>{ &t });
    m.assign({ t, t });
    m.resize(10, t);
    use(m == m, m != m);
    gtl::erase(m, t);
}
template<class M> void defaults(const M& a) {
    M x;
    M x1(10);
    M x2(10, a.get_allocator());
    x.resize(10);
    use(x.emplace_back());
}
template<class M> void dctors(const M& a) {
    using T = typename M::value_type;
    const T& t = any<const T&>();
    M x;
    M x1(10, t);
    M x2(&t, &t);
    M x3({ t, t });
}
void go() {
    moveonly<gtl::vector<VM>>();
    moveonly<gtl::vector<VM, A1<VM>>>();
    moveonly<gtl::vector<VM, A0<VM>>>();
    copyable<gtl::vector<VN>>();
    copyable<gtl::vector<VN, A1<VN>>>();
    copyable<gtl::vector<VN, A0<VN>>>();
    moveonly<gtl::vector<VM, AP<VM>>>();
    copyable<gtl::vector<VN, AP<VN>>>();
    defaults(any<gtl::vector<VD>&>());
    defaults(any<gtl::vector<VD, A0<VD>>&>());
    dctors(any<gtl::vector<VN>&>());
    dctors(any<gtl::vector<VN, A0<VN>>&>());
    gtl::vector<int> v{ 1, 2, 3 };
    gtl::vector w(v.begin(), v.end());
    use(v == w, v < w, v > w, v <= w, v >= w, v != w);
    gtl::vector<std::string> s{ "a", "b" };
    s.push_back("c");
    s.emplace_back(3, 'c');
    gtl::vector<std::unique_ptr<int>> u;
    u.push_back(nullptr);
    gtl::vector<gtl::vector<int>> vv(3, v);
    compactResize(&v, 3);
    // element that can be moved by construction only
    gtl::vector<VC> c;
    c.push_back(VC(1));
    c.emplace_back(1);
    c.reserve(3);
    c.pop_back();
    c.clear();
}
