// Every command cut short, in every mode, for this and other nodes: nothing may happen but error replies.
#include "model.h"
using namespace vm;

CHECK_DEF(C25, 8000, 120000, "A case brings a module into a random state (mode, learn, node number incl. xx00 and 0, event table), then sends complete commands that the module would act on, each first cut to every shorter length; storage writes, mode, learn state, node number, frames and application calls are watched. Coverage counts (opcode, length, mode, learn, addressed) states.")
{
  Geometry g = randomGeometry(R.chance(30)); if (g.nvs == 0) g.nvs = 3;
  if (g.eventsStart) g.eventsStart = g.nvStart + g.nvs;
  if (!g.eventsStart && g.events > 60) g.events = 60;
  g.services.push_back(S_REC);
  Identity id; id.canid = R.range(1, 99); id.flags = R.range(0, 1);
  id.nn = R.chance(50) ? R.pick({0x0100, 0x0200, 0x5300, 0xFF00, 0x0400}) : randomOwn();
  int start = R.range(0, 3); // 0 uninitialised, 1 setup from uninitialised, 2 setup from normal, 3 normal
  if (start < 2) { id.mode = MODE_UNINITIALISED; id.nn = 0; id.canid = R.range(0, 5); }
  World w; w.boot(g, Identity{MODE_NORMAL, 1, start < 2 ? 0x0100 : id.nn, 0});
  Node &n = *w.n;
  std::vector<int> nns = usualNNs(id.nn), ens = usualENs(); ens.push_back(0); nns.push_back(0);
  w.fill(R.range(1, std::min(g.events, 12)), nns, ens, 50);
  { auto &m = n.st->mem; m[0] = (uint8_t)id.mode; m[1] = (uint8_t)id.canid; m[2] = id.nn >> 8; m[3] = id.nn; m[4] = (uint8_t)id.flags; }
  n.restart();
  int mode = id.mode;
  auto userAction = [&](VLCB::ACTION a) { Node *p = Node::current; Node::current = &n; n.ctl->putAction(a); n.drain(); Node::current = p; sim::now += 150; n.drain(); };
  auto enter = [&] {
    if (start == 1) { userAction(VLCB::ACT_CHANGE_MODE); mode = MODE_SETUP; }
    if (start == 2) { userAction(VLCB::ACT_RENEGOTIATE); mode = MODE_SETUP; }
  };
  enter();
  bool learning = false;
  if (R.chance(60)) { learn(n, true); learning = true; }
  auto inSetup = [&] { auto r = n.ask({OPC_RQNP}); return r.size() == 1 && r[0].op() == OPC_PARAMS; };
  if (inSetup() != (mode == MODE_SETUP)) violation("setup-state", "the module is not in the expected mode %02X", mode);
  logf("geometry %s mode %02X nn %04X learning %d table %s", g.str().c_str(), mode, n.nn(), learning, w.t.str().c_str());
  auto storedEvent = [&](int &nn, int &en) { std::vector<int> us; for (int i = 0; i < w.t.size(); i++) if (w.t.e[i].used) us.push_back(i); if (us.empty()) { nn = 0; en = 0; return -1; } int i = R.pick(us); nn = w.t.e[i].nn; en = w.t.e[i].en; return i; };
  int rounds = R.range(10, 25);
  for (int r = 0; r < rounds; r++)
  {
    int own = n.nn(), to = R.chance(75) ? own : R.pick({own ^ 0x100, own ^ 1, 0, own & 0xFF00});
    int nn, en; int slot = storedEvent(nn, en); if (slot < 0) slot = 0;
    if (R.chance(30)) { nn = R.pick(nns); en = R.pick(ens); }
    int evs = std::max(1, g.evs);
    Msg m;
    switch (R.range(0, 27))
    {
      case 0: m = withNN(OPC_SNN, R.pick({0x0100, 0x0200, 0x1234, 1})); break;
      case 1: m = withNN(OPC_RQNN, R.byte()); break;
      case 2: m = withNN(OPC_NNLRN, to); break;
      case 3: m = withNN(OPC_NNULN, to); break;
      case 4: m = withNN(OPC_NNCLR, to); break;
      case 5: m = withNN(OPC_NNEVN, to); break;
      case 6: m = withNN(OPC_NERD, to); break;
      case 7: m = withNN(OPC_RQEVN, to); break;
      case 8: m = withNN(OPC_NNRSM, to); break;
      case 9: m = withNN(OPC_NNRST, to); break;
      case 10: m = withNN(OPC_ENUM, to); break;
      case 11: m = withNN(OPC_NVRD, to, {R.range(0, g.nvs)}); break;
      case 12: m = withNN(OPC_NENRD, to, {slot}); break;
      case 13: m = withNN(OPC_RQNPN, to, {R.range(0, 20)}); break;
      case 14: m = withNN(OPC_CANID, to, {R.range(1, 99)}); break;
      case 15: m = withNN(OPC_MODE, to, {R.pick({MODE_UNINITIALISED, MODE_SETUP, MODE_NORMAL, MODE_LEARN_ON, MODE_LEARN_OFF, MODE_HEARTBEAT_ON, MODE_HEARTBEAT_OFF})}); break;
      case 16: m = withNN(OPC_RQSD, to, {R.range(0, (int)g.services.size())}); break;
      case 17: m = withNN(OPC_RDGN, to, {R.range(0, (int)g.services.size()), R.range(0, 6)}); break;
      case 18: m = evMsg(OPC_EVULN, nn, en); break;
      case 19: m = withNN(OPC_NVSET, to, {R.range(1, g.nvs), R.byte()}); break;
      case 20: m = withNN(OPC_NVSETRD, to, {R.range(1, g.nvs), R.byte()}); break;
      case 21: m = withNN(OPC_REVAL, to, {slot, R.range(0, evs)}); break;
      case 22: m = evMsg(OPC_REQEV, nn, en, {R.range(0, evs)}); break;
      case 23: m = evMsg(OPC_EVLRN, nn, en, {R.range(1, evs), R.byte()}); break;
      case 24: m = evMsg(OPC_EVLRNI, R.chance(50) ? nn : own, R.chance(50) ? en : R.range(0, 3), {slot, R.range(1, evs), R.byte()}); break;
      case 25: m = evMsg(R.pick({OPC_AREQ, OPC_ASRQ}), nn, en); break;
      default: m = evMsg(R.pick(eventOps()), nn, en); m.len = (uint8_t)opLen(m.op()); break;
    }
    if (opLen(m.op()) != m.len) harnessError("length of %s", m.str().c_str());
    int lo = R.chance(70) ? 1 : (int)m.len - 1;
    for (int len = lo; len < m.len; len++)
    {
      Msg cut = m; cut.len = (uint8_t)len;
      for (int i = len; i < 8; i++) cut.d[i] = R.chance(70) ? 0 : R.byte(); // bytes after the end of a frame are not part of it
      size_t log = n.st->log.size(), tx = n.can.tx.size(), ev = n.eventCalls.size(), rq = n.requestCalls.size(), acts = n.rec->actions.size();
      uint64_t resets = n.st->resets, restarts = sim::restarts;
      int learnBefore = n.ctl->getParam(PAR_FLAGS) & 0x20, nnBefore = n.nn(), canid = n.conf->CANID, modeBefore = n.conf->currentMode, beat = n.conf->heartbeat;
      n.put(cut); n.drain();
      if (R.chance(30)) { sim::now += 120; n.drain(); }
      logf("cut to %d: %s", len, cut.str().c_str());
      bool addressed = len >= 3 ? cut.nn() == own : false;
      observe(mix(cut.h(), n.can.tx.size() - tx));
      state(mix(m.op() * 16 + len, mix(mode, learning * 2 + addressed)));
      count("truncated");
      char k[40]; snprintf(k, sizeof k, "op%02X", m.op());
      std::string op = k;
      if (n.st->log.size() != log || n.st->resets != resets) violation("writes-storage-" + op, "%s cut to %d bytes wrote storage address %u (mode %02X, learning %d, own %04X)", m.str().c_str(), len, n.st->log.size() > log ? n.st->log[log].addr : 0, mode, learning, own);
      if (sim::restarts != restarts) violation("restarts-" + op, "%s cut to %d bytes restarted the module", m.str().c_str(), len);
      if (n.eventCalls.size() != ev) violation("event-handled-" + op, "%s cut to %d bytes called the event handler", m.str().c_str(), len);
      if (n.requestCalls.size() != rq) violation("request-handled-" + op, "%s cut to %d bytes called the request handler", m.str().c_str(), len);
      if ((n.ctl->getParam(PAR_FLAGS) & 0x20) != learnBefore) violation("learn-" + op, "%s cut to %d bytes changed the learn state", m.str().c_str(), len);
      if (n.nn() != nnBefore || n.conf->CANID != canid || (int)n.conf->currentMode != modeBefore || (int)n.conf->heartbeat != beat) violation("identity-" + op, "%s cut to %d bytes changed the identity", m.str().c_str(), len);
      for (size_t i = tx; i < n.can.tx.size(); i++)
      {
        const Frame &f = n.can.tx[i].f;
        if (f.rtr) violation("enumerates-" + op, "%s cut to %d bytes started an enumeration", m.str().c_str(), len);
        if (f.len == 0 || f.data[0] == OPC_HEARTB) continue;
        Msg a(f);
        if (!isError(a)) violation("answers-" + op, "%s cut to %d bytes was answered by %s", m.str().c_str(), len, a.str().c_str());
        if (a.nn() != own) violation("answers-" + op, "error reply %s does not carry node number %04X", a.str().c_str(), own);
        if (a.op() == OPC_GRSP && a.d[3] != m.op()) violation("answers-" + op, "%s cut to %d bytes was answered by %s, which names another command", m.str().c_str(), len, a.str().c_str());
        count("error_replies");
      }
      for (; acts < n.rec->actions.size(); acts++) { int a = n.rec->actions[acts].actionType; if (a != VLCB::ACT_MESSAGE_IN && a != VLCB::ACT_MESSAGE_OUT && a != VLCB::ACT_INDICATE_ACTIVITY) violation("acts-" + op, "%s cut to %d bytes raised action %d", m.str().c_str(), len, a); }
    }
    if (R.chance(40))
    {
      if (inSetup() != (mode == MODE_SETUP)) violation("mode-changed", "after cut versions of %s the module %s Setup mode", m.str().c_str(), mode == MODE_SETUP ? "left" : "entered");
      count("mode_probes");
    }
    // The learn state as commands see it
    if (learning && R.chance(20)) { auto r2 = n.ask(evMsg(OPC_EVULN, 0x7A7A, 0x7B7B)); if (r2.empty() || !isError(r2[0])) violation("learn-lost", "after cut versions of %s an unlearn is answered %s", m.str().c_str(), str(r2).c_str()); }
    if (!learning && R.chance(20)) { auto r2 = n.ask(evMsg(OPC_EVULN, nn, en)); if (!r2.empty()) violation("learn-gained", "after cut versions of %s an unlearn is answered %s", m.str().c_str(), str(r2).c_str()); }
  }
  if (inSetup() != (mode == MODE_SETUP)) violation("mode-changed", "the module %s Setup mode", mode == MODE_SETUP ? "left" : "entered");
  count(learning ? "learning" : "not_learning"); char b[20]; snprintf(b, sizeof b, "mode_%02X", mode); count(b);
}
