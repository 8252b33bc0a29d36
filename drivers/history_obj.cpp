// sequences of operations on objects of a new domain, with mixins which log what is done to them
#include <dynamix/domain.hpp>
#include <dynamix/domain_settings_builder.hpp>
#include <dynamix/mixin_info.hpp>
#include <dynamix/mixin_allocator.hpp>
#include <dynamix/feature_info.hpp>
#include <dynamix/feature_for_mixin.hpp>
#include <dynamix/mutation_rule_info.hpp>
#include <dynamix/type.hpp>
#include <dynamix/type_mutation.hpp>
#include <dynamix/object.hpp>
#include <dynamix/object_of.hpp>
#include <dynamix/mutate.hpp>
#include <dnmx/mutate.h>
#include <dnmx/object.h>
using namespace dynamix;
namespace {
struct hev { int what; const mixin_info* info; const void* mem; const void* src; };
struct hlog { int n = 0; int fail = -1; hev ev[64]; };
error_return_t hput(const mixin_info* i, int w, const void* m, const void* s) {
    auto l = reinterpret_cast<hlog*>(i->user_data);
    auto& e = l->ev[l->n];
    e.what = w; e.info = i; e.mem = m; e.src = s;
    return l->n++ == l->fail ? 7 : 0;
}
error_return_t h_init(const mixin_info* i, void* m) { return hput(i, 1, m, nullptr); }
error_return_t h_cinit(const mixin_info* i, void* m, const void* s) { return hput(i, 2, m, s); }
void h_minit(const mixin_info* i, void* m, void* s) noexcept { hput(i, 3, m, s); }
error_return_t h_casgn(const mixin_info* i, void* m, const void* s) { return hput(i, 4, m, s); }
void h_masgn(const mixin_info* i, void* m, void* s) noexcept { hput(i, 5, m, s); }
void h_destroy(const mixin_info* i, void* m) noexcept { hput(i, 6, m, nullptr); }
bool h_eq(const mixin_info* i, const void* m, const void* s) noexcept { return !hput(i, 7, m, s); }
int h_cmp(const mixin_info* i, const void* m, const void* s) noexcept { return hput(i, 8, m, s); }
struct hm : mixin_info {
    hm(hlog& l, dnmx_sv n, bool ext = false) : mixin_info{} {
        name = n; id = invalid_mixin_id; set_size_alignment(8, 8); user_data = reinterpret_cast<uintptr_t>(&l); force_external = ext;
        init = h_init; copy_init = h_cinit; move_init = h_minit; copy_asgn = h_casgn; move_asgn = h_masgn; destroy = h_destroy; equals = h_eq; compare = h_cmp;
    }
};
struct halloc final : mixin_allocator {
    hlog* l;
    byte_t* alloc_mixin_buf(const mixin_info& i) override { auto p = new byte_t[32]; hput(&i, 20, p, nullptr); return p; }
    void dealloc_mixin_buf(byte_t* p, const mixin_info& i) noexcept override { hput(&i, 21, p, nullptr); delete[] p; }
};
using sp = itlib::span<const mixin_info* const>;
#define L(x) dnmx_make_sv_lit(x)
struct env {
    hlog& l; domain d; hm a, b, c;
    env(hlog& l) : l(l), d("h"), a(l, L("a")), b(l, L("b")), c(l, L("c"), true) { d.register_mixin(a); d.register_mixin(b); d.register_mixin(c); }
    const type& t(const mixin_info* x, const mixin_info* y) { const mixin_info* q[] = {x, y}; return d.get_type(sp(q)); }
    const type& t(const mixin_info* x) { const mixin_info* q[] = {x}; return d.get_type(sp(q)); }
};
}
// every step is logged; the mixin functions fail at step p
void drv_C21_C22_C20_hist_reset(hlog& l, int p, size_t* out) {
    env e(l); l.n = 0; l.fail = p;
    object o(e.d);
    try {
        o.reset_type(e.t(&e.a, &e.c)); out[0] = o.num_mixins();
        o.reset_type(e.t(&e.c, &e.b)); out[1] = o.has(e.a) + 2 * o.has(e.b) + 4 * o.has(e.c);
        o.reset_type(e.t(&e.b));
    } catch (std::exception&) { out[2] = l.n; }
    out[3] = o.num_mixins(); out[4] = o.has(e.a) + 2 * o.has(e.b) + 4 * o.has(e.c);
    out[5] = e.t(&e.b).num_objects() + 10 * e.t(&e.a, &e.c).num_objects() + 100 * e.t(&e.c, &e.b).num_objects();
    o.clear();
    out[6] = e.t(&e.b).num_objects() + 10 * e.t(&e.a, &e.c).num_objects() + 100 * e.t(&e.c, &e.b).num_objects();
}
void drv_C25_C26_C21_hist_move(hlog& l, size_t* out) {
    env e(l); l.n = 0; l.fail = -1;
    object o(e.t(&e.a, &e.c));
    object p(std::move(o));
    out[0] = object_of(p.get(e.a)) == &p; out[1] = object_of(p.get(e.c)) == &p; out[2] = o.empty(); out[3] = o.num_mixins();
    p.reset_type(e.t(&e.c, &e.b));
    out[4] = object_of(p.get(e.b)) == &p; out[5] = object_of(p.get(e.c)) == &p; out[6] = p.get(e.a) == nullptr;
    o.reset_type(e.t(&e.b));
    out[7] = object_of(o.get(e.b)) == &o;
    p = std::move(o);
    out[8] = object_of(p.get(e.b)) == &p; out[9] = o.empty(); out[10] = p.get(e.c) == nullptr;
}
void drv_C24_C26_hist_seal(hlog& l, size_t* out) {
    env e(l); l.n = 0; l.fail = -1;
    object o(e.t(&e.a, &e.b), {}, true);
    try { o.clear(); out[0] = 1; } catch (std::exception&) { out[0] = 2; }
    try { o.reset_type(e.t(&e.a)); out[1] = 1; } catch (std::exception&) { out[1] = 2; }
    object x(e.d);
    try { o.copy_from(x); out[2] = 1; } catch (std::exception&) { out[2] = 2; }
    object p(std::move(o));
    out[3] = p.sealed(); out[4] = p.num_mixins();
    try { p = std::move(x); out[5] = 1; } catch (std::exception&) { out[5] = 2; }
    object c = p.copy();
    out[6] = c.sealed();
    try { c.reset_type(e.t(&e.a)); out[7] = 1; } catch (std::exception&) { out[7] = 2; }
    try { mutate(p, mutate_ops::remove(e.a)); out[8] = 1; } catch (std::exception&) { out[8] = 2; }
    out[9] = p.num_mixins();
}
void drv_C27_C22_hist_copy(hlog& l, int p, size_t* out) {
    env e(l); l.n = 0; l.fail = -1;
    object o(e.t(&e.a, &e.c));
    object x(e.t(&e.c, &e.b));
    l.n = 0; l.fail = p;
    try {
        object c = o.copy();
        out[0] = c.num_mixins(); out[1] = object_of(c.get(e.c)) == &c;
        x.copy_from(o);
        out[2] = x.get_type() == o.get_type();
        c.copy_from(object(e.d));
        out[3] = c.empty();
    } catch (std::exception&) { out[4] = l.n; }
    out[5] = x.num_mixins(); out[6] = x.has(e.a) + 2 * x.has(e.b) + 4 * x.has(e.c);
    out[7] = e.t(&e.c, &e.b).num_objects() + 10 * e.t(&e.a, &e.c).num_objects();
}
void drv_C28_C29_hist_matching(hlog& l, int p, int* out) {
    env e(l); l.n = 0; l.fail = -1;
    object o(e.t(&e.a, &e.c));
    object x(e.t(&e.c, &e.b));
    object y(e.t(&e.c, &e.b));
    e.c.move_asgn = nullptr; e.b.equals = nullptr;
    l.n = 0; l.fail = p;
    try {
        x.copy_matching_from(o);
        try { x.move_matching_from(o); } catch (std::exception&) { out[0] = 1; }
        x.move_matching_from(o, true);
        out[1] = x.equals(o); out[2] = x.equals(y); out[3] = x.compare(y); out[4] = y.compare(x);
    } catch (std::exception&) { out[5] = l.n; }
}
void drv_C43_C31_hist_mutate(hlog& l, int p, size_t* out) {
    env e(l); l.n = 0; l.fail = -1;
    object o(e.t(&e.a));
    l.n = 0; l.fail = p;
    try {
        mutate(o, mutate_ops::add("b"), mutate_ops::remove(e.a), mutate_ops::add(e.c));
        out[0] = o.has(e.a) + 2 * o.has(e.b) + 4 * o.has(e.c);
        mutate(o).add("a").to_back("b");
        out[1] = o.get_type().index_of(e.a.id) + 4 * o.get_type().index_of(e.b.id) + 16 * o.get_type().index_of(e.c.id);
        int v = 0; auto f = [&](init_new_args) { ++v; };
        mutate(o, mutate_ops::remove(std::string_view("a")), mutate_ops::remove(std::string_view("b")), mutate_ops::remove(std::string_view("c")));
        out[2] = o.empty();
        mutate(o, mutate_ops::add(e.c), mutate_ops::add(e.a, f), mutate_ops::add("b", f));
        out[3] = v; out[4] = o.num_mixins();
    } catch (std::exception&) { out[5] = l.n; }
    out[6] = o.has(e.a) + 2 * o.has(e.b) + 4 * o.has(e.c);
}
void drv_C31_C20_hist_piecewise(hlog& l, int p, size_t* out) {
    env e(l); l.n = 0; l.fail = -1;
    object o(e.t(&e.b, &e.c));
    const mixin_info* q[] = {&e.a, &e.b, &e.c};
    auto& t = e.d.get_type(sp(q));
    l.n = 0; l.fail = p;
    auto f = [&](init_new_args a) { out[a.target_index] += 1; };
    auto u = [&](update_common_args a) { out[4 + a.target_index] += 1 + a.source_index; };
    try {
        object_mutation m(o, t);
        m.update_at(1, f, u);
        out[8] = m.complete();
        m.update_at(2, f, u);
        out[9] = m.complete();
    } catch (std::exception&) { out[10] = l.n; }
    try {
        object_mutation m(o, e.t(&e.a, &e.b));
        m.update_at(1, f, u);
        m.update_at(0, f, u);
    } catch (std::exception&) { out[11] = l.n; }
    out[12] = o.has(e.a) + 2 * o.has(e.b) + 4 * o.has(e.c);
}
void drv_C23_hist_mixin_allocator(hlog& l, int p, size_t* out) {
    env e(l); l.n = 0; l.fail = -1;
    halloc al; al.l = &l; e.c.allocator = al.to_c_hanlde();
    object o(e.t(&e.a));
    l.n = 0; l.fail = p;
    try {
        o.reset_type(e.t(&e.c, &e.b));
        o.reset_type(e.t(&e.a, &e.c));
        o.reset_type(e.t(&e.b));
    } catch (std::exception&) { out[0] = l.n; }
    out[1] = o.num_mixins();
}
void drv_C43_C32_hist_c_mutate(hlog& l, int p, size_t* out) {
    env e(l); l.n = 0; l.fail = -1;
    object o(e.t(&e.b, &e.a));
    l.n = 0; l.fail = p;
    dnmx_mutate_op ops[3] = {};
    ops[0].op_type = dnmx_mutate_op_add; ops[0].mixin = &e.c;
    ops[1].op_type = dnmx_mutate_op_remove; ops[1].mixin_name = L("b");
    ops[2].op_type = dnmx_mutate_op_add; ops[2].mixin_name = L("b");
    out[0] = dnmx_mutate(o.to_c_hanlde(), ops, 3);
    out[1] = o.has(e.a) + 2 * o.has(e.b) + 4 * o.has(e.c);
    dnmx_mutate_to_override ov[1] = {};
    ov[0].mixin_name = L("a");
    out[2] = dnmx_mutate_to(o.to_c_hanlde(), &e.t(&e.a, &e.c), ov, 1);
    out[3] = o.num_mixins();
    out[4] = dnmx_object_clear(o.to_c_hanlde());
}
