// Factory reset by every path, and first power-up, give the default state; starting up never resets a configured module.
#include "model.h"
using namespace vm;

namespace {
bool has(const std::vector<Msg> &v, int op) { for (auto &m : v) if (m.op() == op) return true; return false; }
// Storage whose erase covers only part of the memory, as the EEPROM backends do, and that must be opened before use.
struct ResetStorage : MonStorage
{
  unsigned from = 0, to = 0; bool open = false;
  explicit ResetStorage(size_t size) : MonStorage(size) {}
  void begin() override { open = true; }
  void need() { if (!open) violation("storage-not-opened", "storage used before its begin()"); }
  byte read(unsigned int a) override { need(); return MonStorage::read(a); }
  void write(unsigned int a, byte v) override { need(); MonStorage::write(a, v); }
  void reset() override { resets++; for (unsigned i = from; i < to && i < mem.size(); i++) write(i, 0xFF); }
};

// What a board leaves behind when it restarts itself: the storage, and what had left it on the bus by then.
struct Rebooted {};
struct Restarts
{
  uint64_t n = 0; bool stop = false; std::vector<uint8_t> mem; std::vector<Msg> sent;
  void watch(Node &node, size_t mark, bool throws)
  {
    n = 0; stop = throws; mem.clear(); sent.clear();
    sim::onRestart = [this, &node, mark] {
      if (!n++) { mem = node.st->mem; sent = node.sentSince(mark); }
      logf("restart %d", (int)n); count("restarts");
      if (stop) throw Rebooted();
    };
  }
  void ignore() { sim::onRestart = nullptr; }
};

void checkDefaults(Node &n, const char *how, const std::string &path)
{
  Geometry &g = n.g;
  auto &m = n.st->mem;
  observe(mix(m[0], mix(m[2], m[3])));
  if (m[0] != MODE_UNINITIALISED || n.conf->currentMode != MODE_UNINITIALISED) violation("mode-not-default", "%s after %s: stored mode %02X, mode %02X", how, path.c_str(), m[0], n.conf->currentMode);
  if (m[2] || m[3] || n.conf->nodeNum) violation("node-number-not-default", "%s after %s: stored node number %02X%02X, node number %04X", how, path.c_str(), m[2], m[3], n.conf->nodeNum);
  if (m[1] || n.conf->CANID) violation("can-id-not-default", "%s after %s: stored CAN ID %d, CAN ID %d", how, path.c_str(), m[1], n.conf->CANID);
  if (m[4] || n.conf->heartbeat || n.conf->eventAck) violation("flags-not-default", "%s after %s: flags %02X", how, path.c_str(), m[4]);
  for (int i = 1; i <= g.nvs; i++)
  {
    if (n.conf->readNV((byte)i) != 0 || m[g.nvStart + i - 1] != 0) violation("nv-not-default", "%s after %s: node variable %d is %d", how, path.c_str(), i, n.conf->readNV((byte)i));
    observe(i);
  }
  for (int i = 0; i < g.events; i++)
  {
    if (n.conf->getEvTableEntry((byte)i) != 0) violation("event-left", "%s after %s: slot %d is in use", how, path.c_str(), i);
    for (int k = 0; k < 4; k++) if (m[g.slotAddr(i) + k] != 0xFF) violation("event-left", "%s after %s: slot %d at address %u holds %s", how, path.c_str(), i, g.slotAddr(i), hex(&m[g.slotAddr(i)], 4).c_str());
    observe(i);
  }
}
}

CHECK_DEF(C27, 6000, 40000, "A case configures a module (any geometry and layout, also beyond the area the storage erases, any mode), resets it by bus command, by the sketch before or after start-up, or starts it on virgin storage, restarts it and examines stored state, released number and the answers after it is commissioned again; other cases restart configured modules, which must keep everything. Coverage counts (path, mode, layout) states.")
{
  Geometry g = randomGeometry(R.chance(30));
  if (R.chance(20)) g.nvs = R.pick({0, 1, 255, 128});
  if (R.chance(15)) { g.events = 255; g.evs = R.range(0, 20); }
  if (R.chance(20)) { g.events = 1; }
  if (R.chance(30)) g.nvStart = R.range(6, 300);
  g.eventsStart = 0;
  bool far = R.chance(30);
  if (far) g.eventsStart = R.range(3900, 4200);
  else if (R.chance(50)) g.eventsStart = g.nvStart + g.nvs + R.range(0, 100);
  bool derived = g.eventsStart == 0; // the library derives the start of the events from the layout
  g.produced = g.evs && R.chance(50) ? R.range(0, std::min(g.events, 10)) : 0;
  ResetStorage *st = new ResetStorage(std::max(8192u, g.end() + 64));
  if (R.chance(70)) { st->from = 10; st->to = 4096; } else { st->from = 0; st->to = (unsigned)st->mem.size(); }
  Identity id; id.nn = randomOwn(); id.canid = R.range(1, 127); id.flags = R.range(0, 3);
  if (R.chance(15)) { id.mode = MODE_UNINITIALISED; id.nn = 0; id.canid = R.chance(50) ? 0 : R.range(1, 99); }
  World w; w.g = g; w.t.init(g);
  Node n(g, st);
  w.n = &n;
  int path = R.range(0, 5); // 0,1 bus command; 2 sketch before begin; 3 sketch after begin; 4 virgin storage; 5 restart only
  Restarts re;
  bool throws = sim::restartsSeen && R.chance(50); // the board really restarts, or carries on as some do
  static const char *names[] = {"bus command", "bus command", "reset before start-up", "reset by sketch", "virgin storage", "restart"};
  logf("path %s, %s, storage erases %u..%u, nn %04X mode %02X flags %d", names[path], g.str().c_str(), st->from, st->to, id.nn, id.mode, id.flags);
  if (path == 4)
  {
    // anything may be in the memory of a module that was never set up, apart from what marks it as such
    if (R.chance(50)) for (unsigned i = 4; i < st->mem.size(); i++) st->mem[i] = R.chance(50) ? R.byte() : 0xFF;
    st->mem[0] = 0xFF; st->mem[1] = R.byte(); st->mem[2] = st->mem[3] = 0xFF;
    re.watch(n, n.can.tx.size(), throws);
    bool again = false;
    try { n.boot(); n.drain(); } catch (Rebooted &) { again = true; }
    if (sim::restartsSeen && re.n != 1) violation("restarts", "the first start restarted the board %d times", (int)re.n);
    if (again)
    {
      st->open = false; n.restart();
      if (re.n != 1) violation("restarts", "the start after the first start restarted the board again");
      if (!n.conf->isResetFlagSet()) violation("reset-flag", "reset flag not set after the first start restarted the board");
      count("virgin_restarted");
    }
    if (st->resets != 1) violation("virgin-not-reset", "first start on virgin storage erased it %d times", (int)st->resets);
    checkDefaults(n, "first start", names[path]);
    if (!again && n.conf->isResetFlagSet()) violation("reset-flag", "reset flag set after the first start");
    for (auto &s : n.can.tx) if (!s.f.rtr && s.f.len) violation("traffic-at-first-start", "sent %s", str(s.f).c_str());
    count("virgin_starts");
  }
  else
  {
    n.preset(id);
    n.boot(); n.drain();
    if (id.mode == MODE_NORMAL)
    {
      w.fill(R.range(0, std::min(g.events, 12)), usualNNs(id.nn), usualENs());
      if (g.events > 0 && R.chance(40) && g.evs) { learn(n, true); int last = g.events - 1; if (!w.t.e[last].used && w.t.find(0x4321, 0x8765) < 0) teachSlot(n, w.t, last, 0x4321, 0x8765, std::vector<int>(g.evs, 0)); learn(n, false); }
      for (int i = 0; i < g.nvs; i++) if (R.chance(g.nvs > 20 ? 30 : 80)) n.ask(withNN(OPC_NVSET, n.nn(), {i + 1, R.byte()}));
      if (g.nvs && R.chance(60)) n.ask(withNN(OPC_NVSET, n.nn(), {g.nvs, R.range(1, 255)}));
      int k = R.range(0, 4);
      if (k == 0) learn(n, true);
      else if (k == 1) { n.ask(withNN(OPC_MODE, n.nn(), {MODE_SETUP})); }
      else if (k == 2) n.ask(withNN(OPC_MODE, n.nn(), {R.chance(50) ? MODE_HEARTBEAT_ON : MODE_HEARTBEAT_OFF}));
      else if (k == 3) n.ask(withNN(OPC_MODE, n.nn(), {MODE_EVENT_ACK_ON}));
      sim::now += R.range(0, 7000); n.drain();
      // not for this module, or not a command
      for (int i = R.range(0, 3); i > 0; i--)
      {
        Msg m = withNN(R.chance(50) ? OPC_NNRSM : OPC_NNRST, n.nn());
        if (R.chance(50)) { m.len = (uint8_t)R.range(1, 2); if (m.len < 2) m.d[1] = 0; m.d[2] = 0; } else { int a = n.nn() ^ (1 << R.range(0, 15)); m.d[1] = (uint8_t)(a >> 8); m.d[2] = (uint8_t)a; }
        uint64_t r = sim::restarts;
        auto got = n.ask(m);
        if (sim::restarts != r) violation("restarted-by-foreign-command", "%s restarted the module", m.str().c_str());
        if (st->resets || has(got, OPC_NNREL)) violation("reset-by-foreign-command", "%s reset the module: %s", m.str().c_str(), str(got).c_str());
        count("foreign_resets");
      }
    }
    uint64_t before = st->resets;
    std::string slots = n.slots();
    std::vector<uint8_t> was = st->mem;
    int nn = n.nn();
    if (path == 5)
    {
      if (R.chance(15) && st->mem[0] == MODE_NORMAL) { st->mem[2] = st->mem[3] = 0xFF; was = st->mem; } // Normal mode with every bit of the number set
      if (R.chance(30)) { st->mem[1] = R.chance(50) ? 0xFF : 0; was = st->mem; }
      if (R.chance(15)) { st->mem[4] = 0xFF; was = st->mem; }
      int starts = R.range(1, 3);
      if (R.chance(40) && id.mode == MODE_NORMAL && n.conf->currentMode == MODE_NORMAL && st->mem == was && nn)
      {
        // asked over the bus to restart, which changes no settings
        re.watch(n, n.can.tx.size(), throws);
        try { n.ask(withNN(OPC_NNRST, nn)); } catch (Rebooted &) { n.can.rx.clear(); }
        re.ignore();
        if (sim::restartsSeen && re.n != 1) violation("restarts", "NNRST restarted the board %d times", (int)re.n);
        if (st->mem != was) violation("changed-by-restart-command", "NNRST changed the stored settings");
        observe(re.n); count("restart_commands");
      }
      uint64_t r0 = sim::restarts;
      for (int i = 0; i < starts; i++) { st->open = false; n.restart(); sim::now += R.range(0, 20000); n.drain(); }
      if (sim::restarts != r0) violation("restarts", "starting a configured module restarted the board");
      if (st->resets != before) violation("reset-by-starting", "a module in mode %02X, node number %02X%02X was reset by starting up", was[0], was[2], was[3]);
      auto now = st->mem;
      observe(hashStr(n.slots()));
      // an enumeration may store another CAN ID
      was[1] = now[1];
      for (size_t i = 0; i < now.size(); i++) if (now[i] != was[i]) violation("changed-by-starting", "storage address %zu is %02X instead of %02X after starting up", i, now[i], was[i]);
      count("configured_restarts");
      state(mix(was[0], mix(far, g.events)));
      return;
    }
    size_t mark = n.can.tx.size();
    if (path <= 1)
    {
      bool normal = n.conf->currentMode == MODE_NORMAL;
      re.watch(n, mark, throws);
      std::vector<Msg> got;
      try { got = n.ask(withNN(OPC_NNRSM, nn)); } catch (Rebooted &) { got = n.sentSince(mark); }
      re.ignore();
      if (st->resets == before) { if (normal) violation("not-reset", "NNRSM addressed to the module did nothing"); return; }
      if (sim::restartsSeen)
      {
        // what is not on the bus when the board restarts is never sent
        if (re.n != 1) violation("restarts", "NNRSM restarted the board %d times", (int)re.n);
        if (normal && !has(re.sent, OPC_NNREL)) violation("release-lost", "NNRSM to node %04X: when the board restarted it had sent only %s", nn, str(re.sent).c_str());
        observe(hashStr(str(re.sent)));
      }
      auto rel = only(got, [](const Msg &m) { return m.op() == OPC_NNREL; });
      if (normal && (rel.size() != 1 || rel[0] != withNN(OPC_NNREL, nn))) violation("release", "NNRSM to node %04X sent %s", nn, str(got).c_str());
      if (rel.size() > 1) violation("release", "NNRSM to node %04X sent %s", nn, str(got).c_str());
      for (auto &m : got) if (m.op() != OPC_NNREL && m.op() != OPC_HEARTB) violation("reset-chatter", "NNRSM sent %s", str(got).c_str());
      count("bus_resets");
    }
    else if (path == 2)
    {
      n.powerOff(); st->open = false;
      n.boot(false);
      re.watch(n, mark, throws);
      bool again = false;
      try { n.conf->resetModule(); } catch (Rebooted &) { again = true; }
      re.ignore();
      if (sim::restartsSeen && re.n != 1) violation("restarts", "a reset before start-up restarted the board %d times", (int)re.n);
      if (!again) n.ctl->begin(), n.drain(); // processors that do not reboot carry on
      if (st->resets != before + 1) violation("reset-repeated", "one reset before start-up erased the storage %d times", (int)(st->resets - before));
      count("early_resets");
    }
    else
    {
      re.watch(n, mark, throws);
      try { n.conf->resetModule(); } catch (Rebooted &) {}
      re.ignore();
      if (sim::restartsSeen && re.n != 1) violation("restarts", "a reset by the sketch restarted the board %d times", (int)re.n);
      count("sketch_resets");
    }
    // what the storage held when the board restarted is what it starts from
    if (re.n) st->mem = re.mem;
    (void)mark;
    if (st->resets != before + 1) violation("reset-repeated", "one reset erased the storage %d times", (int)(st->resets - before));
    if (!n.conf->isResetFlagSet()) violation("reset-flag", "reset flag not set after %s", names[path]);
  }
  // what the next start finds
  uint64_t resets = st->resets;
  bool flag = st->mem[5] == 99;
  uint64_t r0 = sim::restarts;
  size_t mark = n.can.tx.size();
  st->open = false;
  n.restart();
  if (n.conf->isResetFlagSet() != flag) violation("reset-flag", "reset flag changed by the restart");
  checkDefaults(n, "restart", names[path]);
  for (size_t i = mark; i < n.can.tx.size(); i++) if (!n.can.tx[i].f.rtr && n.can.tx[i].f.len) violation("traffic-after-reset", "restart after %s sent %s", names[path], str(n.can.tx[i].f).c_str());
  // an uninitialised module sends no heartbeats and answers to no number
  sim::now += R.range(0, 12000);
  auto quiet = n.ask(withNN(OPC_NVRD, id.nn ? id.nn : 5, {1}));
  if (!quiet.empty()) violation("answers-after-reset", "answered %s", str(quiet).c_str());
  if (sim::restarts != r0) violation("restarts", "the restart after %s restarted the board again", names[path]);
  if (st->resets != resets) violation("reset-by-starting", "the restart after %s erased the storage again", names[path]);
  state(mix(path, mix(id.mode, mix(far * 4 + derived * 2 + (st->from != 0), g.events > 200))));
  count("defaults_checked");
  // commission it and look from the bus
  n.ctl->putAction(VLCB::ACT_CHANGE_MODE); n.drain();
  auto rq = n.sentSince(mark);
  if (std::count_if(rq.begin(), rq.end(), [](const Msg &m) { return m == Msg({OPC_RQNN, 0, 0}); }) != 1) violation("not-commissionable", "change of mode after reset sent %s", str(rq).c_str());
  sim::now += 150; n.drain();
  int fresh = R.range(1, 65534);
  auto ack = n.ask(withNN(OPC_SNN, fresh));
  if (!has(ack, OPC_NNACK)) violation("not-commissionable", "SNN after reset answered %s", str(ack).c_str());
  n.drain();
  for (int i = 0; i < g.nvs; i++)
    if (i < 5 || i == g.nvs - 1 || R.chance(10)) expect(n, withNN(OPC_NVRD, fresh, {i + 1}), {withNN(OPC_NVANS, fresh, {i + 1, 0})}, "nv-not-default");
  int produced = n.prod ? std::min(g.produced, g.events) : 0;
  if (n.prod && g.produced <= g.events) expect(n, withNN(OPC_RQEVN, fresh), {withNN(OPC_NUMEV, fresh, {produced})}, "event-count-after-reset");
  else if (!n.prod) expect(n, withNN(OPC_RQEVN, fresh), {withNN(OPC_NUMEV, fresh, {0})}, "event-count-after-reset");
  count("commissioned_again");
}
