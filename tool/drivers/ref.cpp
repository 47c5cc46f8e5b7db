// One function per operation on the smart handles; the handle-conservation rule analyses each of them.
#include <atomic>
#include <cstddef>
#include <utility>
#include <functional>
#include "salticidae/ref.h"
using namespace salticidae;
namespace verif_driver {
struct B { virtual ~B() {} }; struct D: B { int x; };

// h...: handles that live before and after; the others are made and dropped inside
#define OPS(K, S, W) \
struct K { \
static void copy_then_drop(const S<B> &src) { S<B> h(src); } \
static void move_then_drop(S<B> &src) { S<B> h(std::move(src)); } \
static void assign(S<B> &dst, const S<B> &src) { dst = src; } \
static void move_assign(S<B> &dst, S<B> &src) { dst = std::move(src); } \
static void self_assign(S<B> &dst) { const S<B> &src = dst; dst = src; } \
static void self_move(S<B> &dst) { S<B> &src = dst; dst = std::move(src); } \
static void clear(S<B> &dst) { dst = S<B>(); } \
static void swap(S<B> &dst, S<B> &src) { dst.swap(src); } \
static void conv(S<B> &dst, const S<D> &src) { dst = src; } \
static void conv_move(S<B> &dst, S<D> &src) { dst = std::move(src); } \
static void cast(S<D> &dst, const S<B> &src) { dst = static_pointer_cast<D>(src); } \
static void cast_move(S<D> &dst, S<B> &src) { dst = static_pointer_cast<D>(std::move(src)); } \
static void unbox(S<B> &dst, BoxObj<B> &src) { dst = S<B>(std::move(src)); } \
static void wrap(S<B> &dst, B *src) { dst = S<B>(src); } \
static void weaken(W<B> &dst, const S<B> &src) { dst = src; } \
static void upgrade(S<B> &dst, const W<B> &src) { dst = src; } \
static void weak_copy_then_drop(const W<B> &src) { W<B> h(src); } \
static void weak_move_then_drop(W<B> &src) { W<B> h(std::move(src)); } \
static void weak_assign(W<B> &dst, const W<B> &src) { dst = src; } \
static void weak_move_assign(W<B> &dst, W<B> &src) { dst = std::move(src); } \
static void weak_self_assign(W<B> &dst) { const W<B> &src = dst; dst = src; } \
static void weak_self_move(W<B> &dst) { W<B> &src = dst; dst = std::move(src); } \
static void weak_swap(W<B> &dst, W<B> &src) { dst.swap(src); } \
static void weak_clear(W<B> &dst) { dst = W<B>(); } \
static void array_assign(S<B[]> &dst, const S<B[]> &src) { dst = src; } \
static void array_move_assign(S<B[]> &dst, S<B[]> &src) { dst = std::move(src); } \
static void array_wrap(S<B[]> &dst, B *src) { dst = S<B[]>(src); } \
static void array_weaken(W<B[]> &dst, const S<B[]> &src) { dst = src; } \
static void array_upgrade(S<B[]> &dst, const W<B[]> &src) { dst = src; } \
};
OPS(rc, RcObj, WeakObj)
OPS(arc, ArcObj, AweakObj)

struct box {
static void move_then_drop(BoxObj<B> &src) { BoxObj<B> h(std::move(src)); }
static void move_assign(BoxObj<B> &dst, BoxObj<B> &src) { dst = std::move(src); }
static void self_move(BoxObj<B> &dst) { BoxObj<B> &src = dst; dst = std::move(src); }
static void clear(BoxObj<B> &dst) { dst = BoxObj<B>(); }
static void swap(BoxObj<B> &dst, BoxObj<B> &src) { dst.swap(src); }
static void conv_move(BoxObj<B> &dst, BoxObj<D> &src) { dst = std::move(src); }
static void cast_move(BoxObj<D> &dst, BoxObj<B> &src) { dst = static_pointer_cast<D>(std::move(src)); }
static void wrap(BoxObj<B> &dst, B *src) { dst = BoxObj<B>(src); }
static B *unwrap(BoxObj<B> &dst) { return dst.unwrap(); }
static void array_move_assign(BoxObj<B[]> &dst, BoxObj<B[]> &src) { dst = std::move(src); }
static void array_wrap(BoxObj<B[]> &dst, B *src) { dst = BoxObj<B[]>(src); }
};
}
