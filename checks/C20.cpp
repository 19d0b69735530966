// The circular buffer is a FIFO with exact counters; the controller presents queued actions once, in order, to every service.
#include "model.h"
#include "CircularBuffer.h"
using namespace vm;

namespace {
struct Elem { uint32_t id; uint32_t inv; };

void bufferCase()
{
  int cap = R.chance(40) ? R.range(1, 8) : R.chance(60) ? R.range(9, 127) : R.pick({128, 129, 200, 254, 255, R.range(128, 255)});
  VLCB::CircularBuffer<Elem> b((uint8_t)cap);
  std::deque<Elem> m; unsigned puts = 0, gets = 0, over = 0, hwm = 0; uint32_t next = 1;
  auto same = [&](const Elem &a, const Elem &e) { return a.id == e.id && a.inv == e.inv && a.inv == ~a.id; };
  int ops = R.pick({30, 300, 1500});
  int bias = R.range(20, 80);
  for (int i = 0; i < ops; i++)
  {
    if (R.chance(2)) bias = R.range(10, 95);
    int k = R.range(0, 99);
    if (k < 3 && R.chance(30)) { b.clear(); m.clear(); count("clears"); }
    else if (k < 10)
    {
      Elem *p = b.peek();
      observe(p ? p->id : 0);
      if (m.empty() ? p != nullptr : p == nullptr || !same(*p, m.front())) violation("peek", "capacity %d: peek gave %u, expected %u", cap, p ? p->id : 0, m.empty() ? 0 : m.front().id);
    }
    else if (R.chance(bias))
    {
      Elem e{next, ~next}; next++;
      b.put(e);
      if ((int)m.size() == cap) { m.pop_front(); over++; count("overflows"); }
      m.push_back(e); puts++; hwm = std::max(hwm, (unsigned)m.size()); count("puts");
    }
    else if (!m.empty())
    {
      Elem e = b.pop();
      observe(e.id);
      if (!same(e, m.front())) violation("pop", "capacity %d: pop gave %u, expected %u", cap, e.id, m.front().id);
      m.pop_front(); gets++; count("pops");
    }
    observe(m.size());
    if (b.available() != !m.empty()) violation("available", "capacity %d: available %d with %zu entries", cap, b.available(), m.size());
    // counters are exact within their width, at least one byte
    auto exact = [&](unsigned got, unsigned want, const char *what) { if ((got & 0xFF) != (want & 0xFF) || got > want) violation(what, "capacity %d: counter %u, expected %u", cap, got, want); };
    exact(b.getNumberOfPuts(), puts, "puts-counter"); exact(b.getNumberOfGets(), gets, "gets-counter"); exact(b.getOverflows(), over, "overflow-counter");
    if (b.getHighWaterMark() != hwm) violation("high-water-mark", "capacity %d: high-water mark %u, expected %u", cap, b.getHighWaterMark(), hwm);
    state(mix(cap, m.size()));
  }
}

std::vector<std::pair<int, VLCB::Action>> seen; // (service, action) in the order of presentation
std::vector<int> calls;                         // service of every process call
class Probe : public VLCB::Service
{
public:
  int id; int hidden;
  std::function<void(const VLCB::Action *)> react;
  explicit Probe(int i) : id(i) {}
  VlcbServiceTypes getServiceID() const override { return SERVICE_ID_HIDDEN; }
  byte getServiceVersionID() const override { return 1; }
  void process(const VLCB::Action *a) override { calls.push_back(id); if (a) seen.push_back({id, *a}); if (react) react(a); }
};
bool sameAction(const VLCB::Action &a, const VLCB::Action &b)
{
  if (a.actionType != b.actionType) return false;
  switch (a.actionType)
  {
    case VLCB::ACT_MESSAGE_IN: case VLCB::ACT_MESSAGE_OUT: return Msg(a.vlcbMessage) == Msg(b.vlcbMessage);
    case VLCB::ACT_START_CAN_ENUMERATION: return a.fromENUM == b.fromENUM;
    case VLCB::ACT_INDICATE_MODE: return a.mode == b.mode;
    default: return true;
  }
}
VLCB::Action randomAction()
{
  VLCB::Action a; memset((void *)&a, 0, sizeof a);
  switch (R.range(0, 6))
  {
    case 0: case 1: a.actionType = VLCB::ACT_MESSAGE_IN; break;
    case 2: case 3: a.actionType = VLCB::ACT_MESSAGE_OUT; break;
    case 4: a.actionType = VLCB::ACT_START_CAN_ENUMERATION; a.fromENUM = R.chance(50); return a;
    case 5: a.actionType = VLCB::ACT_INDICATE_MODE; a.mode = R.pick({MODE_NORMAL, MODE_SETUP, MODE_UNINITIALISED}); return a;
    default: a.actionType = R.pick({VLCB::ACT_CHANGE_MODE, VLCB::ACT_RENEGOTIATE, VLCB::ACT_INDICATE_ACTIVITY}); return a;
  }
  a.vlcbMessage.len = (uint8_t)R.range(1, 8);
  for (int i = 0; i < a.vlcbMessage.len; i++) a.vlcbMessage.data[i] = R.byte();
  return a;
}

void controllerCase()
{
  Geometry g; g.services = {}; 
  int ns = R.range(1, 8);
  Node n(g);
  n.preset(Identity());
  std::vector<Probe *> ps;
  for (int i = 0; i < ns; i++) { ps.push_back(new Probe(i)); n.extra.push_back(ps.back()); }
  n.boot();
  seen.clear(); calls.clear();
  std::deque<VLCB::Action> q; const size_t room = 30;
  // some services answer an action with more actions, as real services do
  for (auto *p : ps)
  {
    int chance = R.chance(40) ? R.range(5, 40) : 0;
    p->react = [&, chance](const VLCB::Action *a) { if (a && chance && R.chance(chance) && q.size() < room) { VLCB::Action x = randomAction(); q.push_back(x); n.ctl->putAction(x); count("nested_puts"); } };
  }
  int rounds = R.range(10, 60);
  for (int r = 0; r < rounds; r++)
  {
    int k = R.pick({R.range(0, 3), R.range(0, 30), 30});
    for (int i = 0; i < k && q.size() < room; i++)
    {
      VLCB::Action x = randomAction();
      if (x.actionType == VLCB::ACT_MESSAGE_OUT && R.chance(70)) { VLCB::VlcbMessage m = x.vlcbMessage; q.push_back(x); if (!n.ctl->sendMessage(&m)) violation("send-refused", "sendMessage refused with %zu queued", q.size()); }
      else if (x.actionType >= VLCB::ACT_CHANGE_MODE && x.actionType <= VLCB::ACT_INDICATE_ACTIVITY && R.chance(50)) { q.push_back(x); n.ctl->putAction(x.actionType); }
      else { q.push_back(x); n.ctl->putAction(x); }
      count("queued");
    }
    state(mix(ns, q.size()));
    observe(q.size());
    if (n.ctl->pendingAction() != !q.empty()) violation("pending", "pendingAction %d with %zu queued", n.ctl->pendingAction(), q.size());
    int steps = R.pick({1, 2, R.range(1, 40)});
    for (int s = 0; s < steps; s++)
    {
      bool has = !q.empty(); VLCB::Action want; if (has) { want = q.front(); q.pop_front(); }
      seen.clear(); calls.clear();
      n.step();
      observe(seen.size());
      if ((int)calls.size() != ns) violation("services-called", "%zu of %d services called in a step", calls.size(), ns);
      for (int i = 0; i < ns; i++) if (calls[i] != i) violation("service-order", "service %d called in place %d", calls[i], i);
      if ((int)seen.size() != (has ? ns : 0)) violation(has ? "action-lost" : "action-invented", "%zu of %d services were shown an action, %d expected", seen.size(), ns, has);
      if (has) for (auto &s2 : seen)
        if (!sameAction(s2.second, want)) violation("action-order", "service %d was shown action type %d %s, expected type %d %s", s2.first, s2.second.actionType, Msg(s2.second.vlcbMessage).str().c_str(), want.actionType, Msg(want.vlcbMessage).str().c_str());
      count("presented", seen.size());
    }
  }
}

void burstCase()
{
  Geometry g = randomGeometry(R.chance(30)); g.events = 4; g.nvs = 4;
  if (R.chance(50)) std::rotate(g.services.begin(), g.services.begin() + R.range(0, (int)g.services.size() - 1), g.services.end());
  Identity id; id.nn = randomOwn();
  Node n(g); n.preset(id); n.boot(); n.drain();
  for (int r = 0; r < 12; r++)
  {
    int k = R.pick({R.range(1, 30), 30, 29, R.range(10, 20)});
    std::vector<Msg> want; size_t mark = n.can.tx.size();
    int way = R.range(0, 2);
    for (int i = 0; i < k; i++)
    {
      Msg m;
      if (way == 0 || R.chance(30)) { m = fullMsg(R.pick({OPC_DTXC, OPC_ACDAT, OPC_DDES, OPC_EXTC, OPC_HEARTB, OPC_PNN}), {R.byte(), R.byte(), i}); VLCB::VlcbMessage v; v.len = m.len; memcpy(v.data, m.d, 8); n.ctl->sendMessage(&v); }
      else switch (R.range(0, 8))
      {
        case 0: m = withNN(OPC_NNACK, id.nn); n.ctl->sendMessageWithNN(OPC_NNACK); break;
        case 1: m = withNN(OPC_EVNLF, id.nn, {i}); n.ctl->sendMessageWithNN(OPC_EVNLF, (byte)i); break;
        case 2: { int a = R.byte(); m = withNN(OPC_NVANS, id.nn, {i, a}); n.ctl->sendMessageWithNN(OPC_NVANS, (byte)i, (byte)a); break; }
        case 3: { int a = R.byte(), b = R.byte(); m = withNN(OPC_NEVAL, id.nn, {a, i, b}); n.ctl->sendMessageWithNN(OPC_NEVAL, (byte)a, (byte)i, (byte)b); break; }
        case 4: { int a = R.byte(), b = R.byte(), c = R.byte(); m = withNN(OPC_DGN, id.nn, {a, b, i, c}); n.ctl->sendMessageWithNN(OPC_DGN, (byte)a, (byte)b, (byte)i, (byte)c); break; }
        case 5: { int a = R.byte(), b = R.byte(), c = R.byte(), d = R.byte(); m = withNN(OPC_ENRSP, id.nn, {a, b, c, d, i}); n.ctl->sendMessageWithNN(OPC_ENRSP, (byte)a, (byte)b, (byte)c, (byte)d, (byte)i); break; }
        case 6: m = withNN(OPC_WRACK, id.nn); n.ctl->sendWRACK(); break;
        case 7: m = withNN(OPC_CMDERR, id.nn, {i}); n.ctl->sendCMDERR((byte)i); break;
        default: { int a = R.byte(), b = R.byte(); m = withNN(OPC_GRSP, id.nn, {a, b, i}); n.ctl->sendGRSP((VlcbOpCodes)a, (byte)b, (byte)i); break; }
      }
      want.push_back(m);
    }
    if (R.chance(50)) n.drain(0); else n.drain();
    std::vector<Msg> got; for (size_t i = mark; i < n.can.tx.size(); i++) if (!n.can.tx[i].f.rtr && n.can.tx[i].f.len) got.push_back(Msg(n.can.tx[i].f));
    for (auto &m : got) observe(m.h());
    if (got != want) violation("burst", "a burst of %d messages reached the transport as %zu: sent %s got %s", k, got.size(), str(want).c_str(), str(got).c_str());
    state(mix(1000, k)); count("burst_messages", k);
  }
}
}

CHECK_DEF(C20, 12000, 100000, "A case is a random history of puts, gets, peeks and clears on a buffer of random capacity (1-255) against a deque, a controller with 1-8 probing services and random actions queued from outside and from inside services, or bursts of up to 30 messages through a complete module. Coverage counts (capacity, fill) states and presentations.")
{
  int k = R.range(0, 2);
  if (k == 0) bufferCase(); else if (k == 1) controllerCase(); else burstCase();
}
