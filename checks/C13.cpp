// Every transmitted frame is well formed, under chaotic traffic.
#include "model.h"
using namespace vm;

namespace {
// Opcodes in which a module reports its own number in bytes 1-2.
bool reportsNN(int op)
{
  switch (op)
  {
    case OPC_RQNN: case OPC_NNREL: case OPC_NNACK: case OPC_WRACK: case OPC_CMDERR: case OPC_EVNLF: case OPC_NUMEV: case OPC_NVANS: case OPC_PARAN: case OPC_GRSP: case OPC_HEARTB:
    case OPC_SD: case OPC_ESD: case OPC_NEVAL: case OPC_PNN: case OPC_DGN: case OPC_ENRSP:
    case OPC_ASON: case OPC_ASON1: case OPC_ASON2: case OPC_ASON3: case OPC_ASOF: case OPC_ASOF1: case OPC_ASOF2: case OPC_ASOF3:
    case OPC_ARSON: case OPC_ARSON1: case OPC_ARSON2: case OPC_ARSON3: case OPC_ARSOF: case OPC_ARSOF1: case OPC_ARSOF2: case OPC_ARSOF3: return true;
  }
  return false;
}
}

CHECK_DEF(C13, 12000, 100000, "A case is a random mixture of valid, truncated and arbitrary bus frames, application events and responses, long messages, user actions, enumerations, number and CAN ID changes and time; a monitor on the transport checks every frame at the moment it is sent. Coverage counts the opcodes sent.")
{
  Node::useGlobal = R.chance(15); if (Node::useGlobal) count("global_configuration");
  World w;
  Geometry g = randomGeometry(R.chance(30));
  g.events = R.range(1, 20); g.nvs = R.range(0, 20);
  if (R.chance(40)) g.services.push_back(R.chance(50) ? S_LONG : S_LONGEX);
  if (R.chance(30)) std::rotate(g.services.begin(), g.services.begin() + R.range(0, (int)g.services.size() - 1), g.services.end());
  Identity id; id.nn = randomOwn(); id.canid = R.range(1, 99); id.flags = R.range(0, 1);
  bool fresh = R.chance(20);
  if (fresh) { id.mode = MODE_UNINITIALISED; id.nn = 0; id.canid = 0; id.flags = 0; }
  w.g = g; w.n = new Node(g); w.t.init(g);
  Node &n = *w.n;
  n.preset(id);
  uint64_t frames = 0;
  std::set<int> held; // node numbers held since nothing was waiting to be sent
  auto monitor = [&](const Frame &f) {
    frames++;
    observe(mix(f.id, Msg(f).h()));
    if (f.ext) violation("extended", "extended frame %s", str(f).c_str());
    if (f.id & ~0x7FFu) violation("identifier-range", "frame %s", str(f).c_str());
    if (f.id >> 7 != 0xB) violation("priority", "frame %s has priority %X", str(f).c_str(), f.id >> 7);
    if ((f.id & 0x7F) != n.conf->CANID) violation("canid", "frame %s sent while the CAN ID is %d", str(f).c_str(), n.conf->CANID);
    if (f.rtr) { if (f.len) violation("rtr-with-data", "frame %s", str(f).c_str()); count("sent_rtr"); return; }
    if (f.len == 0) { count("sent_empty"); return; }
    if (f.len > 8) violation("length", "frame of %d bytes", f.len);
    int op = f.data[0];
    char b[32]; snprintf(b, sizeof b, "sent_%02X", op); count(b);
    if (f.len != opLen(op)) violation("length", "frame %s: opcode %02X prescribes %d bytes", str(f).c_str(), op, opLen(op));
    if (reportsNN(op))
    {
      int nn = f.data[1] << 8 | f.data[2];
      held.insert(n.nn());
      if (!held.count(nn)) violation("node-number", "frame %s reports a node number that is not this module's (%04X)", str(f).c_str(), n.nn());
    }
    state(mix(op, mix(n.conf->CANID, n.nn())));
  };
  n.can.onSend = monitor;
  held.insert(id.nn);
  n.boot(); n.drain();
  if (n.lmsEx) n.lmsEx->allocateContexts(2, 64, 3);
  auto nns = usualNNs(id.nn ? id.nn : 0x0104); auto ens = usualENs();
  static const uint8_t longData[80] = {1, 2, 3};
  auto settle = [&] { for (int i = 0; i < 20000 && (n.can.available() || n.ctl->pendingAction()); i++) { held.insert(n.nn()); n.step(); } held.insert(n.nn()); n.drain(); held.clear(); held.insert(n.nn()); };
  if (!fresh) { w.fill(R.range(0, g.events), nns, ens, 40); settle(); }
  auto track = [&](int steps) { for (int i = 0; i < steps; i++) { n.step(); held.insert(n.nn()); } };
  int steps = R.range(40, 160);
  for (int s = 0; s < steps; s++)
  {
    int own = n.nn();
    int nn = R.chance(75) ? own : R.pick(nns);
    int k = R.range(0, 99);
    Msg m;
    if (k < 8) m = withNN(OPC_SNN, randomOwn());
    else if (k < 12) m = withNN(OPC_MODE, nn, {R.pick({0xFF, 0, 1, 8, 9, 12, 13, 0x55})});
    else if (k < 24) { m = randomConfigCommand(n, nns, ens); }
    else if (k < 30) m = withNN(R.chance(80) ? OPC_NNLRN : OPC_NNULN, own);
    else if (k < 34) m = R.pick({Msg({OPC_QNN}), Msg({OPC_RQMN}), Msg({OPC_RQNP})});
    else if (k < 42) m = R.pick({withNN(OPC_RQNPN, own, {R.range(0, 25)}), withNN(OPC_RQSD, own, {R.range(0, 10)}), withNN(OPC_RDGN, own, {R.range(1, 10), R.range(0, 20)}), withNN(OPC_NERD, own), withNN(OPC_RQEVN, own), withNN(OPC_NNEVN, own), withNN(OPC_NVRD, own, {R.range(0, 25)}), withNN(OPC_NENRD, own, {R.range(0, 25)}), withNN(OPC_REVAL, own, {R.range(0, 20), R.range(0, 5)})});
    else if (k < 48) { m = evMsg(OPC_REQEV, R.pick(nns), R.pick(ens), {R.range(0, g.evs)}); std::vector<int> us; for (int i = 0; i < g.events; i++) if (n.conf->getEvTableEntry((byte)i)) us.push_back(i); if (!us.empty()) { byte e[4]; n.conf->readEvent((byte)R.pick(us), e); for (int i = 0; i < 4; i++) m.d[1 + i] = e[i]; } }
    else if (k < 62) { m = fullMsg(R.byte(), {nn >> 8, nn & 255}); if (m.op() == OPC_NNRSM) m.d[0] = OPC_QNN, m.len = 1; if (R.chance(30)) { m.len = (uint8_t)R.range(0, 8); for (int i = m.len; i < 8; i++) m.d[i] = 0; } if (m.op() == OPC_NNRSM) m.d[0] = OPC_ACK; }
    else if (k < 70 && n.conf->currentMode == MODE_NORMAL) { sendEvent(n, R.chance(50), R.range(1, 20), randomData()); track(3); continue; }
    else if (k < 78)
    {
      std::vector<int> us; for (int i = 0; i < g.events; i++) if (n.conf->getEvTableEntry((byte)i)) us.push_back(i);
      if (!us.empty()) { sendResponse(n, R.chance(50), R.pick(us), randomData()); track(3); }
      continue;
    }
    else if (k < 82 && n.lms)
    {
      unsigned len = R.range(1, 40);
      byte stream = R.byte();
      if (n.lmsEx) n.lmsEx->sendLongMessage(longData, len, stream); else n.lms->sendLongMessage(longData, len, stream);
      count("long_messages");
      for (int i = 0; i < 12; i++) { sim::now += 20; Node::current = &n; if (n.lmsEx) n.lmsEx->process(); else n.lms->process(); track(2); }
      continue;
    }
    else if (k < 86) { n.ctl->putAction(R.pick({VLCB::ACT_CHANGE_MODE, VLCB::ACT_RENEGOTIATE, VLCB::ACT_START_CAN_ENUMERATION})); track(R.range(0, 5)); continue; }
    else if (k < 90) { sim::now += R.pick({1, 50, 101, 3000, 5001}); track(3); continue; }
    else if (k < 96)
    {
      Frame f = Node::frame(Msg(), R.range(0, 127)); f.rtr = R.chance(50); f.ext = R.chance(15); f.len = R.chance(50) ? 0 : (uint8_t)R.range(0, 8);
      for (int i = 0; i < 8; i++) f.data[i] = R.byte();
      if (f.data[0] == OPC_NNRSM) f.data[0] = 0;
      n.can.rx.push_back(f); track(R.range(1, 3)); continue;
    }
    else { settle(); continue; }
    if (m.len == 0) continue;
    if (R.chance(6)) { while (m.len < 8) m.d[m.len++] = R.byte(); count("overlong_commands"); }
    if (R.chance(8)) n.can.rx.push_back(Node::frame(m, n.conf->CANID)); // collides with our CAN ID
    else n.put(m);
    if (R.chance(60)) settle(); else track(R.range(1, 4));
  }
  settle();
  count("frames_checked", frames);
}
