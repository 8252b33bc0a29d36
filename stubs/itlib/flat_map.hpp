#pragma once
#include <vector>
#include <functional>
#include <algorithm>
#include <utility>
namespace itlib {
template <typename Key, typename T, typename Compare = std::less<Key>, typename Container = std::vector<std::pair<Key, T>>>
class flat_map {
    Container m_c;
    Compare m_cmp;
public:
    using key_type = Key;
    using mapped_type = T;
    using value_type = std::pair<Key, T>;
    using container_type = Container;
    using iterator = typename Container::iterator;
    using const_iterator = typename Container::const_iterator;
    using reverse_iterator = typename Container::reverse_iterator;
    using const_reverse_iterator = typename Container::const_reverse_iterator;
    using size_type = typename Container::size_type;
    flat_map() = default;
    template <typename Alloc>
    flat_map(std::initializer_list<value_type> init, const Alloc& a) : m_c(init.begin(), init.end(), a) {
        std::sort(m_c.begin(), m_c.end(), [this](const value_type& x, const value_type& y) { return m_cmp(x.first, y.first); });
    }
    iterator begin() noexcept { return m_c.begin(); }
    const_iterator begin() const noexcept { return m_c.begin(); }
    iterator end() noexcept { return m_c.end(); }
    const_iterator end() const noexcept { return m_c.end(); }
    const_iterator cbegin() const noexcept { return m_c.begin(); }
    const_iterator cend() const noexcept { return m_c.end(); }
    reverse_iterator rbegin() noexcept { return m_c.rbegin(); }
    const_reverse_iterator rbegin() const noexcept { return m_c.rbegin(); }
    reverse_iterator rend() noexcept { return m_c.rend(); }
    const_reverse_iterator rend() const noexcept { return m_c.rend(); }
    bool empty() const noexcept { return m_c.empty(); }
    size_type size() const noexcept { return m_c.size(); }
    void clear() noexcept { m_c.clear(); }
    void reserve(size_type n) { m_c.reserve(n); }
    iterator lower_bound(const Key& k) { return std::lower_bound(m_c.begin(), m_c.end(), k, [this](const value_type& a, const Key& b) { return m_cmp(a.first, b); }); }
    const_iterator lower_bound(const Key& k) const { return std::lower_bound(m_c.begin(), m_c.end(), k, [this](const value_type& a, const Key& b) { return m_cmp(a.first, b); }); }
    iterator find(const Key& k) { auto i = lower_bound(k); return (i != end() && !m_cmp(k, i->first)) ? i : end(); }
    const_iterator find(const Key& k) const { auto i = lower_bound(k); return (i != end() && !m_cmp(k, i->first)) ? i : end(); }
    size_type count(const Key& k) const { return find(k) != end(); }
    bool contains(const Key& k) const { return find(k) != end(); }
    T& operator[](const Key& k) {
        auto i = lower_bound(k);
        if (i != end() && !m_cmp(k, i->first)) return i->second;
        return m_c.emplace(i, k, T{})->second;
    }
    T& at(const Key& k) { return find(k)->second; }
    const T& at(const Key& k) const { return find(k)->second; }
    template <typename... Args>
    std::pair<iterator, bool> emplace(const Key& k, Args&&... args) {
        auto i = lower_bound(k);
        if (i != end() && !m_cmp(k, i->first)) return {i, false};
        return {m_c.emplace(i, k, T(std::forward<Args>(args)...)), true};
    }
    std::pair<iterator, bool> insert(const value_type& v) { return emplace(v.first, v.second); }
    template <typename... Args>
    std::pair<iterator, bool> try_emplace(const Key& k, Args&&... args) { return emplace(k, std::forward<Args>(args)...); }
    iterator erase(const_iterator i) { return m_c.erase(i); }
    iterator erase(iterator i) { return m_c.erase(i); }
    size_type erase(const Key& k) { auto i = find(k); if (i == end()) return 0; m_c.erase(i); return 1; }
    const Container& container() const noexcept { return m_c; }
    Container& modify_container() noexcept { return m_c; }
};
}
