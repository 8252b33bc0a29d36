#pragma once
#include <vector>
#include <functional>
#include <algorithm>
#include <initializer_list>
namespace itlib {
template <typename Key, typename Compare = std::less<Key>, typename Container = std::vector<Key>>
class flat_set {
    Container m_c;
    Compare m_cmp;
public:
    using iterator = typename Container::iterator;
    using const_iterator = typename Container::const_iterator;
    flat_set() = default;
    flat_set(std::initializer_list<Key> l) { for (auto& k : l) insert(k); }
    iterator begin() noexcept { return m_c.begin(); }
    const_iterator begin() const noexcept { return m_c.begin(); }
    iterator end() noexcept { return m_c.end(); }
    const_iterator end() const noexcept { return m_c.end(); }
    bool empty() const noexcept { return m_c.empty(); }
    std::size_t size() const noexcept { return m_c.size(); }
    void clear() noexcept { m_c.clear(); }
    void reserve(std::size_t n) { m_c.reserve(n); }
    iterator lower_bound(const Key& k) { return std::lower_bound(m_c.begin(), m_c.end(), k, m_cmp); }
    const_iterator lower_bound(const Key& k) const { return std::lower_bound(m_c.begin(), m_c.end(), k, m_cmp); }
    iterator find(const Key& k) { auto i = lower_bound(k); return (i != end() && !m_cmp(k, *i)) ? i : end(); }
    const_iterator find(const Key& k) const { auto i = lower_bound(k); return (i != end() && !m_cmp(k, *i)) ? i : end(); }
    std::size_t count(const Key& k) const { return find(k) != end(); }
    std::pair<iterator, bool> insert(const Key& k) { auto i = lower_bound(k); if (i != end() && !m_cmp(k, *i)) return {i, false}; return {m_c.insert(i, k), true}; }
    iterator erase(iterator i) { return m_c.erase(i); }
    const Container& container() const noexcept { return m_c; }
};
}
