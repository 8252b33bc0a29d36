// the library's own memory resources and allocators, used where the standard library has none
#include <dynamix/compat/pmr/memory_resource.hpp>
#include <dynamix/compat/pmr/allocator.hpp>
#include <dynamix/compat/pmr/string.hpp>
#include <dynamix/compat/pmr/vector.hpp>
#include <dynamix/compat/pmr/deque.hpp>
#include <dynamix/compat/pmr/map.hpp>
#include <dynamix/compat/pmr/set.hpp>
#include <new>
using namespace dynamix::compat::pmr;
struct alignas(64) drv_big { char c[192]; };
void* drv_C58_mr_alloc(memory_resource& r, std::size_t s) { return r.allocate(s); }
void* drv_C58_mr_alloc2(memory_resource& r, std::size_t s, std::size_t a) { return r.allocate(s, a); }
void drv_C58_mr_dealloc(memory_resource& r, void* p, std::size_t s) { r.deallocate(p, s); }
void drv_C58_mr_dealloc2(memory_resource& r, void* p, std::size_t s, std::size_t a) { r.deallocate(p, s, a); }
bool drv_C58_mr_eq(const memory_resource& r, const memory_resource& q) { return r.is_equal(q); }
memory_resource* drv_C58_al_def() { allocator<> a; return a.resource(); }
memory_resource* drv_C58_al_of(memory_resource* r) { allocator<> a(r); return a.resource(); }
memory_resource* drv_C58_al_conv(memory_resource* r) { allocator<> a(r); allocator<drv_big> b(a); return b.resource(); }
memory_resource* drv_C58_al_select(memory_resource* r) { allocator<int> a(r); return a.select_on_container_copy_construction().resource(); }
int* drv_C58_al_int(memory_resource* r, std::size_t n) { allocator<int> a(r); return a.allocate(n); }
drv_big* drv_C58_al_big(memory_resource* r, std::size_t n) { allocator<drv_big> a(r); return a.allocate(n); }
void drv_C58_al_dint(memory_resource* r, int* p, std::size_t n) { allocator<int> a(r); a.deallocate(p, n); }
void drv_C58_al_dbig(memory_resource* r, drv_big* p, std::size_t n) { allocator<drv_big> a(r); a.deallocate(p, n); }
void* drv_C58_al_bytes(memory_resource* r, std::size_t n) { allocator<> a(r); return a.allocate_bytes(n); }
void* drv_C58_al_bytes2(memory_resource* r, std::size_t n, std::size_t al) { allocator<> a(r); return a.allocate_bytes(n, al); }
void drv_C58_al_dbytes(memory_resource* r, void* p, std::size_t n) { allocator<> a(r); a.deallocate_bytes(p, n); }
void drv_C58_al_dbytes2(memory_resource* r, void* p, std::size_t n, std::size_t al) { allocator<> a(r); a.deallocate_bytes(p, n, al); }
bool drv_C58_al_eq(memory_resource* r, memory_resource* q) { allocator<int> a(r), b(q); return a == b; }
bool drv_C58_al_ne(memory_resource* r, memory_resource* q) { allocator<int> a(r), b(q); return a != b; }
bool drv_C58_al_eq2(memory_resource* r, memory_resource* q) { allocator<int> a(r); allocator<char> b(q); return a == b; }
bool drv_C58_al_ne2(memory_resource* r, memory_resource* q) { allocator<int> a(r); allocator<char> b(q); return a != b; }
