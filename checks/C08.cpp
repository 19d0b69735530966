// Acknowledged configuration survives a restart unchanged.
#include "model.h"
using namespace vm;

namespace {
// What a user sees of a module, through the bus and the application interface.
struct View { std::vector<std::string> lines; };
View viewOf(Node &n, const std::vector<std::pair<int, int>> &probe)
{
  View v;
  auto add = [&](const std::string &s) { v.lines.push_back(s); observe(hashStr(s)); };
  int nn = n.nn();
  auto q = [&](const Msg &m) {
    size_t mark = n.can.tx.size();
    auto got = n.ask(m);
    std::sort(got.begin(), got.end());
    std::string s = m.str() + " -> " + str(got);
    if (n.can.tx.size() > mark) { char b[32]; snprintf(b, sizeof b, " id %03X", n.can.tx[mark].f.id); s += b; }
    add(s);
  };
  q({OPC_QNN});
  if (nn != 0)
  {
    for (int p = 1; p <= 20; p++) q(withNN(OPC_RQNPN, nn, {p}));
    q(withNN(OPC_RQEVN, nn)); q(withNN(OPC_NNEVN, nn));
    for (int i = 1; i <= n.g.nvs; i++) q(withNN(OPC_NVRD, nn, {i}));
    for (int i = 0; i < n.g.events; i++)
    {
      if (n.g.events > 40 && i % 7 && !n.conf->getEvTableEntry((byte)i)) continue;
      q(withNN(OPC_NENRD, nn, {i}));
      if (n.conf->getEvTableEntry((byte)i)) for (int k = 1; k <= n.g.evs; k++) q(withNN(OPC_REVAL, nn, {i, k}));
    }
  }
  // consumption
  for (auto &p : probe)
  {
    n.eventCalls.clear(); n.requestCalls.clear();
    n.ask(evMsg(OPC_ACON, p.first, p.second)); n.ask(evMsg(OPC_ASOF, 0x4321, p.second)); if (p.first) n.ask(evMsg(OPC_AREQ, p.first, p.second));
    std::string s = "events";
    for (auto &c : n.eventCalls) s += " " + std::to_string(c.index) + c.m.str();
    s += " requests";
    for (auto &c : n.requestCalls) s += " " + std::to_string(c.index) + c.m.str();
    add(s);
  }
  // production, only for sources that have an event
  for (int i = 0; i < n.g.events; i++) if (n.conf->getEvTableEntry((byte)i))
  {
    int src = n.conf->getEventEVval((byte)i, 1);
    if (!src) continue;
    size_t mark = n.can.tx.size();
    sendEvent(n, true, src, {1}); n.drain();
    add("produce " + std::to_string(src) + " " + str(n.sentSince(mark)));
  }
  // heartbeat
  size_t mark = n.can.tx.size();
  for (int i = 0; i < 61; i++) { sim::now += 100; n.step(); n.drain(); }
  int hb = 0; for (auto &m : n.sentSince(mark, true)) hb += m.op() == OPC_HEARTB;
  add("heartbeats " + std::to_string(hb > 0));
  return v;
}
}

CHECK_DEF(C08, 4000, 40000, "A case is a random configuration history (commissioning, numbering, CAN ID, heartbeat, node variables, teaching, unlearning, clearing, default events), a restart on the same storage, and a comparison of everything the bus and the application can see before and after it.")
{
  Geometry g = randomGeometry(R.chance(30));
  if (R.chance(70)) g.events = R.range(1, 12);
  g.produced = R.chance(30) ? R.range(0, 4) : 0;
  Identity id; id.nn = randomOwn(); id.canid = R.range(1, 99); id.flags = R.range(0, 3);
  bool fresh = R.chance(30);
  World w;
  if (fresh) { id.mode = MODE_UNINITIALISED; id.nn = 0; id.canid = 0; id.flags = 0; }
  w.boot(g, id);
  Node &n = *w.n;
  // the normal flag and 'initialised' transitions belong to a running module; learn mode ends with a restart
  if (fresh && R.chance(85)) { n.ctl->putAction(VLCB::ACT_CHANGE_MODE); n.drain(); for (int i = 0; i < 13; i++) { sim::now += 10; n.drain(); } n.ask(withNN(OPC_SNN, randomOwn())); n.drain(); }
  auto nns = usualNNs(n.nn()); auto ens = usualENs();
  int rounds = R.range(1, 3);
  int ack = (id.flags >> 1) & 1;
  for (int r = 0; r < rounds; r++)
  {
    // set by the application, there is no command for it
    if (R.chance(25)) { int hb = n.conf->heartbeat; ack = R.chance(50); n.conf->setEventAck(ack); count("event_ack_set"); if ((int)n.conf->heartbeat != hb || (int)n.conf->eventAck != ack) violation("settings-mixed", "after setEventAck(%d) the setting is %d and heartbeat %d, was %d", ack, n.conf->eventAck, n.conf->heartbeat, hb); }
    if (n.conf->currentMode == MODE_NORMAL)
    {
      learn(n, true);
      int k = R.range(0, 30);
      for (int i = 0; i < k; i++)
      {
        Msg m = randomConfigCommand(n, nns, ens);
        auto got = n.ask(m);
        logf("%s -> %s", m.str().c_str(), str(got).c_str());
        count("config_commands");
      }
      learn(n, false);
      if (R.chance(20)) { sendEvent(n, true, R.range(1, 9), {}); n.drain(); }
      if (R.chance(15)) { n.ask(withNN(OPC_MODE, n.nn(), {MODE_SETUP})); n.ask(withNN(OPC_SNN, randomOwn())); count("renumbered"); logf("renumber %04X", n.nn()); }
      if (R.chance(15)) { n.ask(withNN(OPC_ENUM, n.nn())); for (int i = 0; i < 3; i++) { Frame f = Node::frame(Msg(), R.range(1, 4)); n.can.rx.push_back(f); n.drain(); } for (int i = 0; i < 12; i++) { sim::now += 10; n.drain(); } count("enumerated"); logf("enumerated %d", n.conf->CANID); }
      if (R.chance(6)) { n.ctl->putAction(VLCB::ACT_CHANGE_MODE); n.drain(); count("went_uninitialised"); logf("uninitialised"); }
    }
    bool setup = R.chance(8) && n.conf->currentMode == MODE_NORMAL;
    int stored = n.conf->currentMode;
    std::vector<std::pair<int, int>> probe;
    for (int i = 0; i < 6; i++) probe.push_back({R.pick(nns), R.pick(ens)});
    for (int i = 0; i < g.events && probe.size() < 20; i++) if (n.conf->getEvTableEntry((byte)i)) { byte b[4]; n.conf->readEvent((byte)i, b); probe.push_back({b[0] << 8 | b[1], b[2] << 8 | b[3]}); }
    View a = viewOf(n, probe);
    Snapshot sa = Snapshot::of(n);
    if (setup) { n.ask(withNN(OPC_MODE, n.nn(), {MODE_SETUP})); count("restarts_in_setup"); }
    if (R.chance(20)) learn(n, true);
    n.restart();
    count("restarts");
    if ((int)n.conf->eventAck != ack) violation("event-ack-lost", "event acknowledgement setting %d after the restart, was %d", n.conf->eventAck, ack);
    if (n.conf->currentMode != stored) violation("mode-lost", "mode %02X before, %02X after the restart", stored, n.conf->currentMode);
    Snapshot sb = Snapshot::of(n);
    observe(sb.h());
    std::string d = sa.diff(sb);
    if (!d.empty()) violation("configuration-lost", "restart changed the configuration: %s", d.c_str());
    View b = viewOf(n, probe);
    if (a.lines.size() != b.lines.size()) violation("view-size", "different number of observations after restart");
    for (size_t i = 0; i < a.lines.size(); i++)
      if (a.lines[i] != b.lines[i]) violation("behaviour-changed-by-restart", "before: %s  after: %s", a.lines[i].c_str(), b.lines[i].c_str());
    count("observations_compared", a.lines.size());
    state(sb.h());
  }
}
