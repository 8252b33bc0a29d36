#pragma once
// stand-in for itlib::stride_span (iboB/itlib is not available offline): a view of one member of each element
#include <cstddef>
#include <iterator>
#include <type_traits>
namespace itlib {
template <typename T, typename S>
class stride_member_span {
    using M = std::remove_cv_t<T>;
    S* m_begin = nullptr;
    std::size_t m_size = 0;
    M std::remove_cv_t<S>::* m_mem = nullptr;
public:
    stride_member_span() noexcept = default;
    stride_member_span(S* d, std::size_t n, M std::remove_cv_t<S>::* m) noexcept : m_begin(d), m_size(n), m_mem(m) {}
    class iterator {
        S* m_p = nullptr;
        M std::remove_cv_t<S>::* m_mem = nullptr;
    public:
        using iterator_category = std::random_access_iterator_tag;
        using value_type = std::remove_cv_t<T>;
        using difference_type = std::ptrdiff_t;
        using pointer = T*;
        using reference = T&;
        iterator() noexcept = default;
        iterator(S* p, M std::remove_cv_t<S>::* m) noexcept : m_p(p), m_mem(m) {}
        T& operator*() const { return m_p->*m_mem; }
        T* operator->() const { return &(m_p->*m_mem); }
        iterator& operator++() { ++m_p; return *this; }
        iterator operator++(int) { auto c = *this; ++m_p; return c; }
        iterator& operator--() { --m_p; return *this; }
        iterator operator--(int) { auto c = *this; --m_p; return c; }
        iterator& operator+=(difference_type n) { m_p += n; return *this; }
        iterator& operator-=(difference_type n) { m_p -= n; return *this; }
        iterator operator+(difference_type n) const { auto c = *this; c += n; return c; }
        iterator operator-(difference_type n) const { auto c = *this; c -= n; return c; }
        difference_type operator-(const iterator& o) const { return m_p - o.m_p; }
        T& operator[](difference_type n) const { return (m_p + n)->*m_mem; }
        bool operator==(const iterator& o) const { return m_p == o.m_p; }
        bool operator!=(const iterator& o) const { return m_p != o.m_p; }
        bool operator<(const iterator& o) const { return m_p < o.m_p; }
    };
    iterator begin() const noexcept { return iterator(m_begin, m_mem); }
    iterator end() const noexcept { return iterator(m_begin + m_size, m_mem); }
    std::size_t size() const noexcept { return m_size; }
    bool empty() const noexcept { return m_size == 0; }
    T& operator[](std::size_t i) const { return m_begin[i].*m_mem; }
};
template <typename S, typename M>
auto make_stride_span_member_view(const S* arr, std::size_t n, M S::*member) {
    return stride_member_span<const M, const S>(arr, n, member);
}
template <typename S, typename M>
auto make_stride_span_member_view(S* arr, std::size_t n, M S::*member) {
    return stride_member_span<M, S>(arr, n, member);
}
}
