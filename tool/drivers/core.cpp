// Instantiates the event/queue/buffer/stream templates.
#include <string>
#include "salticidae/event.h"
#include "salticidae/buffer.h"
#include "salticidae/stream.h"
#include "salticidae/queue.h"
using namespace salticidae;
namespace verif_driver { struct Elem { int *p; Elem(): p(nullptr) {} Elem(const Elem &) = default; Elem(Elem &&) = default; Elem &operator=(Elem &&) = default; Elem &operator=(const Elem &) = default; }; }
template class salticidae::MPMCQueue<verif_driver::Elem>;
template struct salticidae::MPSCQueue<verif_driver::Elem>;
template class salticidae::MPSCQueueEventDriven<verif_driver::Elem>;
template class salticidae::MPMCQueueEventDriven<verif_driver::Elem>;
template class salticidae::Blob<256>;
template class salticidae::_Bits<uint64_t>;
template class salticidae::_Bits<uint32_t>;
namespace verif_driver {
bool on_mpsc(MPSCQueueEventDriven<Elem> &);
bool on_mpmc(MPMCQueueEventDriven<Elem> &);
void fcall(ThreadCall::Handle &);
void drive(MPSCQueueEventDriven<Elem> &q, MPMCQueueEventDriven<Elem> &r, const EventContext &ec, ThreadCall &tc) {
    Elem e;
    q.reg_handler(ec, on_mpsc); r.reg_handler(ec, on_mpmc);
    q.enqueue(e, false); r.enqueue(e, false); q.enqueue(Elem(), true); r.enqueue(Elem(), true);
    q.try_dequeue(e); r.try_dequeue(e); q.rewind(e); q.rewind(Elem());
    static_cast<MPMCQueue<Elem> &>(r).enqueue(e, false);
    static_cast<MPMCQueue<Elem> &>(r).try_enqueue(e);
    tc.async_call(fcall); tc.call(fcall).get();
    DataStream s;
    uint8_t a = 0; uint16_t b = 0; uint32_t c = 0; uint64_t d = 0;
    int8_t ia = 0; int16_t ib = 0; int32_t ic = 0; int64_t id = 0;
    s << a << b << c << d << ia << ib << ic << id;
    s >> a >> b >> c >> d >> ia >> ib >> ic >> id;
    uint256_t h; Bits bits;
    s << h << bits; s >> h >> bits;
    htole(b); htole(c); htole(d); letoh(b); letoh(c); letoh(d);
}
}
