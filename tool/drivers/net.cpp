// Instantiates the network templates so that every member is analysed.
#include <string>
#include "salticidae/event.h"
#include "salticidae/network.h"
#include "salticidae/stream.h"
using namespace salticidae;
template class salticidae::MsgBase<uint8_t>;
template class salticidae::MsgNetwork<uint8_t>;
template class salticidae::ClientNetwork<uint8_t>;
template class salticidae::PeerNetwork<uint8_t>;
namespace verif_driver {
struct DemoMsg {
    static const uint8_t opcode = 0x1;
    DataStream serialized;
    uint32_t v;
    DemoMsg(uint32_t x) { serialized << htole(x); }
    DemoMsg(DataStream &&s) { s >> v; }
};
using MN = MsgNetwork<uint8_t>;
using CN = ClientNetwork<uint8_t>;
using PN = PeerNetwork<uint8_t>;
void on_msg_m(DemoMsg &&, const MN::conn_t &);
void on_msg_c(DemoMsg &&, const CN::conn_t &);
void on_msg_p(DemoMsg &&, const PN::conn_t &);
bool on_conn(const ConnPool::conn_t &, bool);
void on_err(const std::exception_ptr, bool, int32_t);
void on_peer(const PN::conn_t &, bool);
void on_unknown(const NetAddr &, const salticidae::X509 *);
void drive(MN &m, CN &c, PN &p, const MN::conn_t &mc, const CN::conn_t &cc,
        const PN::conn_t &pc, const NetAddr &a, const PeerId &id, const std::vector<PeerId> &ids) {
    m.reg_handler(on_msg_m); c.reg_handler(on_msg_c); p.reg_handler(on_msg_p);
    m.reg_conn_handler(on_conn); m.reg_error_handler(on_err);
    p.reg_peer_handler(on_peer); p.reg_unknown_peer_handler(on_unknown);
    m.send_msg(DemoMsg(1), mc);
    m.send_msg_deferred(DemoMsg(1), mc);
    c.send_msg(DemoMsg(1), a);
    c.send_msg_deferred(DemoMsg(1), a);
    p.send_msg(DemoMsg(1), id);
    p.send_msg_deferred(DemoMsg(1), id);
    p.send_msg(DemoMsg(1), pc);
    p.multicast_msg(DemoMsg(1), ids);
    m.start(); m.listen(a); m.connect(a); m.connect_sync(a); m.terminate(mc); m.stop();
}
}
