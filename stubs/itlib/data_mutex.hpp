#pragma once
#include <mutex>
#include <shared_mutex>
#include <utility>
namespace itlib {
template <typename T, typename Lock>
class data_lock {
    T* m_data;
    Lock m_lock;
public:
    template <typename M>
    data_lock(T& d, M& m) : m_data(&d), m_lock(m) {}
    data_lock(data_lock&&) noexcept = default;
    data_lock& operator=(data_lock&&) noexcept = default;
    T& operator*() const noexcept { return *m_data; }
    T* operator->() const noexcept { return m_data; }
    T* get() const noexcept { return m_data; }
    Lock& lock() noexcept { return m_lock; }
    void unlock() { m_lock.unlock(); }
};
template <typename T, typename Mutex>
class data_mutex {
    T m_data;
    mutable Mutex m_mutex;
public:
    template <typename... Args>
    explicit data_mutex(Args&&... args) : m_data(std::forward<Args>(args)...) {}
    data_mutex(const data_mutex&) = delete;
    data_mutex& operator=(const data_mutex&) = delete;
    using unique_lock_t = data_lock<T, std::unique_lock<Mutex>>;
    using shared_lock_t = data_lock<const T, std::shared_lock<Mutex>>;
    [[nodiscard]] unique_lock_t unique_lock() { return unique_lock_t(m_data, m_mutex); }
    [[nodiscard]] shared_lock_t shared_lock() const { return shared_lock_t(m_data, m_mutex); }
    // unsafe access, no lock
    T& unsafe_data() noexcept { return m_data; }
};
}
