#pragma once
#include <algorithm>
#include <numeric>
#include <iterator>
namespace itlib {
template <typename C, typename V> auto qfind(C&& c, const V& v) { return std::find(std::begin(c), std::end(c), v); }
template <typename C, typename P> auto qfind_if(C&& c, P&& p) { return std::find_if(std::begin(c), std::end(c), p); }
template <typename C, typename P> auto qfind_if_not(C&& c, P&& p) { return std::find_if_not(std::begin(c), std::end(c), p); }
template <typename C, typename V> auto pfind(C&& c, const V& v) -> decltype(&*std::begin(c)) {
    auto f = std::find(std::begin(c), std::end(c), v);
    if (f == std::end(c)) return nullptr;
    return &*f;
}
template <typename C, typename P> auto pfind_if(C&& c, P&& p) -> decltype(&*std::begin(c)) {
    auto f = std::find_if(std::begin(c), std::end(c), p);
    if (f == std::end(c)) return nullptr;
    return &*f;
}
template <typename C, typename P> bool qall_of(C&& c, P&& p) { return std::all_of(std::begin(c), std::end(c), p); }
template <typename C, typename P> bool qany_of(C&& c, P&& p) { return std::any_of(std::begin(c), std::end(c), p); }
template <typename C, typename P> bool qnone_of(C&& c, P&& p) { return std::none_of(std::begin(c), std::end(c), p); }
template <typename C, typename V> auto qcount(C&& c, const V& v) { return std::count(std::begin(c), std::end(c), v); }
template <typename C, typename P> auto qcount_if(C&& c, P&& p) { return std::count_if(std::begin(c), std::end(c), p); }
template <typename C> bool qcontains_duplicates(C&& c) { for (auto i = std::begin(c); i != std::end(c); ++i) if (std::find(std::next(i), std::end(c), *i) != std::end(c)) return true; return false; }
template <typename C, typename V> V qaccumulate(C&& c, V v) { return std::accumulate(std::begin(c), std::end(c), v); }
template <typename C, typename V> bool erase_first(C& c, const V& v) {
    auto f = std::find(c.begin(), c.end(), v);
    if (f == c.end()) return false;
    c.erase(f);
    return true;
}
template <typename C, typename P> bool erase_first_if(C& c, P&& p) {
    auto f = std::find_if(c.begin(), c.end(), p);
    if (f == c.end()) return false;
    c.erase(f);
    return true;
}
template <typename C, typename V> auto erase_all(C& c, const V& v) {
    auto e = std::remove(c.begin(), c.end(), v);
    auto n = c.end() - e;
    c.erase(e, c.end());
    return std::size_t(n);
}
template <typename C, typename P> auto erase_all_if(C& c, P&& p) {
    auto e = std::remove_if(c.begin(), c.end(), p);
    auto n = c.end() - e;
    c.erase(e, c.end());
    return std::size_t(n);
}
}
