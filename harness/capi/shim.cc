// The C++ classes behind plain functions, and a check that the header still
// declares what the driver assumes.
#include "ipmb.h"
#include <cstring>
#include <type_traits>

using namespace ipmb;
namespace f = ipmb_ffi;
template <class A, class B> constexpr bool same = std::is_same<A, B>::value;
static_assert(same<decltype(&f::ipmb_join), f::ErrorCode (*)(f::Options, uint32_t, f::Sender *, f::Receiver *)>, "");
static_assert(same<decltype(&f::ipmb_send), f::ErrorCode (*)(f::Sender *, f::Message)>, "");
static_assert(same<decltype(&f::ipmb_recv), f::ErrorCode (*)(f::Receiver *, f::Message *, uint32_t)>, "");
static_assert(same<decltype(&f::ipmb_message), f::Message (*)(f::Selector, uint16_t, const uint8_t *, uint32_t)>, "");
static_assert(same<decltype(&f::ipmb_message_bytes_data), void (*)(const f::Message *, uint16_t *, const uint8_t **, uint32_t *)>, "");
static_assert(same<decltype(&f::ipmb_message_object_append), void (*)(f::Message *, f::Object)>, "");
static_assert(same<decltype(&f::ipmb_message_object_retrieve), f::Object (*)(f::Message *, uintptr_t)>, "");
static_assert(same<decltype(&f::ipmb_memory_region), f::ErrorCode (*)(uintptr_t, f::MemoryRegion *)>, "");
static_assert(same<decltype(&f::ipmb_memory_region_map), uint8_t *(*)(f::MemoryRegion *, uintptr_t, intptr_t, intptr_t *)>, "");
static_assert(f::TIMEOUT_INFINITE == 0xffffffffu, "");
static_assert(sizeof(f::Options) == 32 && sizeof(f::Selector) == 16, "");

static int code(Error e) { return -static_cast<int>(e); }

#define API extern "C" __attribute__((visibility("default")))
API void w_codes(int *o) {
    int c[] = {f::ERROR_CODE_SUCCESS, f::ERROR_CODE_UNKNOWN, f::ERROR_CODE_TIMEOUT, f::ERROR_CODE_DECODE,
               f::ERROR_CODE_VERSION_MISMATCH, f::ERROR_CODE_TOKEN_MISMATCH, f::ERROR_CODE_PERMISSION_DENIED};
    memcpy(o, c, sizeof c);
}
API void w_version(uint8_t *v, char *pre) {
    Version x;
    v[0] = x.major, v[1] = x.minor, v[2] = x.patch;
    strcpy(pre, x.pre.c_str());
}
API void *w_label() { return new Label(); }
API void *w_label2(const char *a, const char *b) { return new Label({a, b}); }
API void w_label_insert(Label *l, const char *s) { l->append(s); }
API void w_label_drop(Label *l) { delete l; }
API void *w_op_bool(bool v) { return new LabelOp(v); }
API void *w_op_leaf(const char *s) { return new LabelOp(s); }
API void w_op_not(LabelOp *a) { a->op_not(); }
API void w_op_and(LabelOp *a, LabelOp *b) { a->op_and(std::move(*b)); delete b; }
API void w_op_or(LabelOp *a, LabelOp *b) { a->op_or(std::move(*b)); delete b; }
API void w_op_drop(LabelOp *a) { delete a; }
API int w_join(const char *id, Label *l, const char *tok, bool aff, uint32_t t, void **s, void **r) {
    // the label stays with the caller
    Options o(id, std::move(*l), tok, aff);
    auto x = join(o, t);
    *l = std::move(o.label);
    if (std::get<2>(x) == Error::kSuccess) {
        *s = new Sender(std::move(std::get<0>(x)));
        *r = new Receiver(std::move(std::get<1>(x)));
    }
    return code(std::get<2>(x));
}
API void w_sender_drop(Sender *s) { delete s; }
API void w_receiver_drop(Receiver *r) { delete r; }
// the operation stays with the caller
API void *w_message(LabelOp *op, int mode, uint32_t ttl, uint16_t fmt, const uint8_t *p, uint32_t n) {
    Selector s(std::move(*op), static_cast<f::SelectorMode>(mode), ttl);
    auto *m = new Message(s, fmt, p, n);
    *op = std::move(s.label_op);
    return m;
}
API void w_message_drop(Message *m) { delete m; }
API void w_data(Message *m, uint16_t *fmt, const uint8_t **p, uint32_t *n) {
    auto x = m->bytes_data();
    *fmt = std::get<0>(x), *p = std::get<1>(x), *n = std::get<2>(x);
}
API int w_send(Sender *s, Message *m) {
    auto e = s->send(std::move(*m));
    delete m;
    return code(e);
}
API int w_recv(Receiver *r, void **m, uint32_t t) {
    auto x = r->recv(t);
    if (std::get<1>(x) == Error::kSuccess) *m = new Message(std::move(std::get<0>(x)));
    return code(std::get<1>(x));
}
API void w_obj_append(Message *m, uint64_t o) { m->object_append(o); }
API uint64_t w_obj_retrieve(Message *m, size_t i) { return std::get<0>(m->object_retrieve(i)); }
API uint64_t w_obj_get(Message *m, size_t i) { return std::get<0>(m->object_get(i)); }
API void w_reg_append(Message *m, MemoryRegion *r) { m->memory_region_append(std::move(*r)); delete r; }
API void *w_reg_retrieve(Message *m, size_t i) {
    auto x = m->memory_region_retrieve(i);
    return std::get<1>(x) == Error::kSuccess ? new MemoryRegion(std::move(std::get<0>(x))) : nullptr;
}
API int w_region(size_t n, void **r) {
    auto x = MemoryRegion::create(n);
    if (std::get<1>(x) == Error::kSuccess) *r = new MemoryRegion(std::move(std::get<0>(x)));
    return code(std::get<1>(x));
}
API void w_region_drop(MemoryRegion *r) { delete r; }
API void *w_map(MemoryRegion *r, size_t off, ssize_t n, ssize_t *real) {
    auto x = r->map(off, n);
    if (std::get<2>(x) == Error::kSuccess) *real = std::get<1>(x);
    return std::get<0>(x);
}
API uint32_t w_ref_count(MemoryRegion *r) { return std::get<0>(r->ref_count()); }
API int w_clone(MemoryRegion *r, void **o) {
    auto x = r->clone();
    if (std::get<1>(x) == Error::kSuccess) *o = new MemoryRegion(std::move(std::get<0>(x)));
    return code(std::get<1>(x));
}
API void *w_registry() { return new MemoryRegistry(); }
API void w_registry_drop(MemoryRegistry *g) { delete g; }
API int w_alloc(MemoryRegistry *g, size_t n, const char *tag, void **o) {
    std::string t = tag ? tag : "";
    auto x = g->alloc(n, tag ? &t : nullptr);
    if (std::get<1>(x) == Error::kSuccess) *o = new MemoryRegion(std::move(std::get<0>(x)));
    return code(std::get<1>(x));
}
API int w_alloc_free(MemoryRegistry *g, size_t n, const char *tag, void *ctx, void (*fn)(void *), void **o) {
    std::string t = tag ? tag : "";
    auto x = g->alloc_with_free(n, tag ? &t : nullptr, [=] { fn(ctx); });
    if (std::get<1>(x) == Error::kSuccess) *o = new MemoryRegion(std::move(std::get<0>(x)));
    return code(std::get<1>(x));
}
API void w_maintain(MemoryRegistry *g) { g->maintain(); }
