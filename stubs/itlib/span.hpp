#pragma once
// stand-in for itlib::span (iboB/itlib is not available offline)
#include <cstddef>
#include <iterator>
#include <type_traits>
#include <array>
#include <vector>
#include <cassert>
namespace itlib {
template <typename T>
class span {
    T* m_begin = nullptr;
    std::size_t m_size = 0;
public:
    using element_type = T;
    using value_type = std::remove_cv_t<T>;
    using size_type = std::size_t;
    using difference_type = std::ptrdiff_t;
    using pointer = T*;
    using const_pointer = const T*;
    using reference = T&;
    using const_reference = const T&;
    using iterator = T*;
    using const_iterator = const T*;
    using reverse_iterator = std::reverse_iterator<iterator>;
    using const_reverse_iterator = std::reverse_iterator<const_iterator>;
    constexpr span() noexcept = default;
    constexpr span(std::nullptr_t) noexcept {}
    constexpr span(T* b, std::size_t n) noexcept : m_begin(b), m_size(n) {}
    constexpr span(T* b, T* e) noexcept : m_begin(b), m_size(std::size_t(e - b)) {}
    template <std::size_t N> constexpr span(T (&arr)[N]) noexcept : m_begin(arr), m_size(N) {}
    template <typename C, typename = std::enable_if_t<
        !std::is_same_v<std::decay_t<C>, span> &&
        std::is_convertible_v<std::remove_pointer_t<decltype(std::declval<C&>().data())>(*)[], T(*)[]>
    >>
    constexpr span(C&& c) noexcept : m_begin(c.data()), m_size(c.size()) {}
    constexpr T* data() const noexcept { return m_begin; }
    constexpr std::size_t size() const noexcept { return m_size; }
    constexpr std::size_t size_bytes() const noexcept { return size() * sizeof(T); }
    constexpr bool empty() const noexcept { return m_size == 0; }
    constexpr explicit operator bool() const noexcept { return !!m_begin; }
    constexpr T& operator[](std::size_t i) const { return m_begin[i]; }
    constexpr T& at(std::size_t i) const { return m_begin[i]; }
    constexpr T& front() const { return *m_begin; }
    constexpr T& back() const { return m_begin[m_size - 1]; }
    constexpr T* begin() const noexcept { return m_begin; }
    constexpr T* end() const noexcept { return m_begin + m_size; }
    constexpr const T* cbegin() const noexcept { return m_begin; }
    constexpr const T* cend() const noexcept { return m_begin + m_size; }
    reverse_iterator rbegin() const noexcept { return reverse_iterator(m_begin + m_size); }
    reverse_iterator rend() const noexcept { return reverse_iterator(m_begin); }
    constexpr span subspan(std::size_t off, std::size_t n = std::size_t(-1)) const { return span(m_begin + off, n == std::size_t(-1) ? m_size - off : n); }
    constexpr span first(std::size_t n) const { return subspan(0, n); }
    constexpr span last(std::size_t n) const { return subspan(size() - n); }
    constexpr void remove_prefix(std::size_t n) { m_begin += n; m_size -= n; }
    constexpr void remove_suffix(std::size_t n) { m_size -= n; }
};
template <typename T> span(T*, std::size_t) -> span<T>;
template <typename T> span(T*, T*) -> span<T>;
template <typename T, std::size_t N> span(T (&)[N]) -> span<T>;
template <typename C> span(C&& c) -> span<std::remove_pointer_t<decltype(c.data())>>;
template <typename T> constexpr span<T> make_span(T* b, std::size_t n) { return span<T>(b, n); }
template <typename T> constexpr span<T> make_span(T* b, T* e) { return span<T>(b, e); }
template <typename T, std::size_t N> constexpr span<T> make_span(T (&a)[N]) { return span<T>(a); }
template <typename C> constexpr auto make_span(C& c) { return span<std::remove_pointer_t<decltype(c.data())>>(c.data(), c.size()); }
}
