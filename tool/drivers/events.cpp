// One function per operation on the event wrappers.
#include "salticidae/event.h"
using namespace salticidae;
namespace verif_driver {
using fdcb = FdEvent::callback_t;
#define EV(K, T) \
struct K { \
static void move_then_drop(T &src) { T h(std::move(src)); } \
static T *move_new(T &src) { return new T(std::move(src)); } \
static void move_assign(T &dst, T &src) { dst = std::move(src); } \
static void self_move(T &dst) { T &src = dst; dst = std::move(src); } \
static void swap(T &dst, T &src) { dst.swap(src); } \
static void clear(T &dst) { dst.clear(); } \
static void reset(T &dst) { dst = T(); } \
static void stop(T &dst) { dst.del(); } \
static bool active(T &dst) { return dst; }
EV(ev_fd, FdEvent)
static void make(FdEvent &dst, const EventContext &ec, int fd, fdcb cb) { dst = FdEvent(ec, fd, cb); }
static void start(FdEvent &dst, int events) { dst.add(events); }
};
EV(ev_timer, TimerEvent)
static void make(TimerEvent &dst, const EventContext &ec, TimerEvent::callback_t cb) { dst = TimerEvent(ec, cb); }
static void start(TimerEvent &dst, double t_sec) { dst.add(t_sec); }
};
EV(ev_timedfd, TimedFdEvent)
static void make(TimedFdEvent &dst, const EventContext &ec, int fd, fdcb cb) { dst = TimedFdEvent(ec, fd, cb); }
static void start(TimedFdEvent &dst, int events, double t_sec) { dst.add(events, t_sec); }
};
EV(ev_sig, SigEvent)
static void make(SigEvent &dst, const EventContext &ec, SigEvent::callback_t cb) { dst = SigEvent(ec, cb); }
static void start(SigEvent &dst, int signum) { dst.add(signum); }
static void start_once(SigEvent &dst, int signum) { dst.add_once(signum); }
};
EV(ev_check, CheckEvent)
static void make(CheckEvent &dst, const EventContext &ec, CheckEvent::callback_t cb) { dst = CheckEvent(ec, cb); }
static void start(CheckEvent &dst) { dst.add(); }
};
}
