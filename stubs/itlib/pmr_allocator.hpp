#pragma once
#include <memory_resource>
#include <cstddef>
namespace itlib {
template <typename T>
class pmr_allocator : public std::pmr::polymorphic_allocator<T> {
    using base = std::pmr::polymorphic_allocator<T>;
public:
    using base::base;
    pmr_allocator() noexcept = default;
    pmr_allocator(const pmr_allocator&) = default;
    template <typename U>
    pmr_allocator(const std::pmr::polymorphic_allocator<U>& o) noexcept : base(o.resource()) {}
    pmr_allocator& operator=(const pmr_allocator&) = delete;
    template <typename U> struct rebind { using other = pmr_allocator<U>; };
    [[nodiscard]] void* allocate_bytes(std::size_t n, std::size_t a = alignof(std::max_align_t)) { return this->resource()->allocate(n, a); }
    void deallocate_bytes(void* p, std::size_t n, std::size_t a = alignof(std::max_align_t)) { this->resource()->deallocate(p, n, a); }
    pmr_allocator select_on_container_copy_construction() const { return {}; }
};
}
