// Power loss at any storage write leaves a usable module with all other settings intact.
#include "model.h"
using namespace vm;

namespace {
struct Cut { std::vector<uint8_t> mem; bool torn; };

// A module that must work: it answers, can be commissioned if necessary, and can be taught and cleared.
void usable(Node &n, const char *what)
{
  if (n.conf->currentMode != MODE_NORMAL)
  {
    n.ctl->putAction(VLCB::ACT_CHANGE_MODE); n.drain();
    for (int i = 0; i < 13; i++) { sim::now += 10; n.drain(); }
    auto got = n.ask(withNN(OPC_SNN, 0x0321));
    if (got.size() != 1 || got[0] != withNN(OPC_NNACK, 0x0321)) violation("not-usable", "%s: SNN answered %s", what, str(got).c_str());
  }
  int nn = n.nn();
  auto got = n.ask(withNN(OPC_RQNPN, nn, {1}));
  observe(got.size());
  if (got.size() != 1 || got[0].op() != OPC_PARAN) violation("not-usable", "%s: RQNPN answered %s", what, str(got).c_str());
  if (n.g.nvs)
  {
    got = n.ask(withNN(OPC_NVSET, nn, {1, 0x5A}));
    if (got.size() != 1 || got[0] != wrack(n) || n.conf->readNV(1) != 0x5A) violation("not-usable", "%s: NVSET answered %s", what, str(got).c_str());
  }
  learn(n, true);
  got = n.ask(withNN(OPC_NNCLR, nn));
  bool ok = false; for (auto &m : got) ok |= isPositive(m);
  if (!ok || n.conf->numEvents() != 0) violation("not-usable", "%s: NNCLR answered %s, %d events left", what, str(got).c_str(), n.conf->numEvents());
  n.ask(evMsg(OPC_EVLRN, 0x0777, 0x0888, {1, 9}));
  if (n.conf->findExistingEvent(0x0777, 0x0888) >= n.g.events) violation("not-usable", "%s: cannot be taught", what);
  count("usability_checks");
}
}

CHECK_DEF(C09, 5000, 30000, "A case is a random configured module and one configuration command; every prefix of the storage writes of that command is used as the state after a power cut, the module is restarted on it, inspected, the command re-issued, and its usability tested. Coverage counts the cut points.")
{
  World w;
  Geometry g = randomGeometry(R.chance(20));
  g.events = R.chance(85) ? R.range(1, 8) : R.range(9, 40);
  g.evs = R.range(1, 4);
  Identity id; id.nn = randomOwn(); id.canid = R.range(1, 99); id.flags = R.range(0, 1);
  w.boot(g, id);
  Node &n = *w.n;
  for (int i = 1; i <= g.nvs; i++) n.conf->writeNV((byte)i, R.byte());
  auto nns = usualNNs(id.nn); auto ens = usualENs();
  w.fill(R.range(0, g.events), nns, ens, 50);
  learn(n, true);
  Msg cmd;
  int kind = R.range(0, 99);
  bool setup = false, reset = false, modeCmd = false;
  if (kind < 70) cmd = randomConfigCommand(n, nns, ens);
  else if (kind < 85) { n.ask(withNN(OPC_MODE, n.nn(), {MODE_SETUP})); cmd = withNN(OPC_SNN, randomOwn()); setup = true; }
  else if (kind < 93) { cmd = withNN(OPC_MODE, n.nn(), {MODE_UNINITIALISED}); modeCmd = true; }
  else { cmd = withNN(OPC_NNRSM, n.nn()); reset = true; }

  Snapshot before = Snapshot::of(n);
  std::vector<uint8_t> memBefore = n.st->mem;
  n.st->clearLog();
  auto replies = n.ask(cmd);
  auto log = n.st->log;
  Snapshot after = Snapshot::of(n);
  logf("command %s -> %s, %zu storage writes", cmd.str().c_str(), str(replies).c_str(), log.size());
  count(std::string("cmd_") + (setup ? "set_node_number" : modeCmd ? "uninitialise" : reset ? "factory_reset" : cmd.op() == OPC_EVLRN ? "teach" : cmd.op() == OPC_EVLRNI ? "teach_index" : cmd.op() == OPC_EVULN ? "unlearn" : cmd.op() == OPC_NNCLR ? "clear" : cmd.op() == OPC_CANID ? "canid" : cmd.op() == OPC_MODE ? "heartbeat" : "nv"));
  observe(log.size());
  if (log.empty()) return;

  size_t n_cuts = log.size() + 1;
  std::vector<size_t> cuts;
  for (size_t k = 0; k < n_cuts; k++) if (n_cuts <= 80 || R.below(n_cuts) < 60 || k < 6 || k + 6 > n_cuts) cuts.push_back(k);
  for (size_t k : cuts)
  {
    std::vector<uint8_t> mem = memBefore;
    for (size_t i = 0; i < k; i++) mem[log[i].addr] = log[i].newv;
    MonStorage st; st.mem = mem;
    Node r(g, &st);
    r.boot(); r.drain();
    count("cut_points");
    Snapshot s = Snapshot::of(r);
    observe(s.h());
    state(s.h());
    char what[160]; snprintf(what, sizeof what, "cut after %zu of %zu writes of %s", k, log.size(), cmd.str().c_str());
    if (!reset)
    {
      // the item under change holds old or new; everything else is as before
      if (s.mode != before.mode && s.mode != after.mode) violation("mode-torn", "%s: mode %02X", what, s.mode);
      bool nnOk = s.nn == before.nn || s.nn == after.nn || s.nn == ((before.nn & 0xFF00) | (after.nn & 0xFF)) || s.nn == ((after.nn & 0xFF00) | (before.nn & 0xFF));
      if (!nnOk) violation("node-number-torn", "%s: node number %04X (old %04X new %04X)", what, s.nn, before.nn, after.nn);
      if (s.canid != before.canid && s.canid != after.canid) violation("canid-torn", "%s: CAN ID %d", what, s.canid);
      if (s.heartbeat != before.heartbeat && s.heartbeat != after.heartbeat) violation("heartbeat-torn", "%s: heartbeat %d", what, s.heartbeat);
      for (int i = 0; i < g.nvs; i++)
        if (s.nvs[i] != before.nvs[i] && s.nvs[i] != after.nvs[i]) violation("nv-torn", "%s: NV %d = %d (old %d new %d)", what, i + 1, s.nvs[i], before.nvs[i], after.nvs[i]);
      for (int i = 0; i < g.events; i++)
      {
        const Entry &o = before.slots[i], &nw = after.slots[i], &c = s.slots[i];
        if (Snapshot::sameSlot(o, nw)) { if (!Snapshot::sameSlot(c, o)) violation("other-event-changed", "%s: event slot %d, which the command does not change, became %d:%04X/%04X", what, i, c.used, c.nn, c.en); continue; }
        // bytes of the slot under change are old or new, one by one
        for (int b = 0; b < 4 + g.evs; b++)
        {
          unsigned a = g.slotAddr(i) + b;
          if (mem[a] != memBefore[a] && mem[a] != n.st->mem[a]) violation("event-torn", "%s: byte %d of event slot %d is neither old nor new", what, b, i);
        }
        // identity is old or new unless the cut fell inside the multi-byte write of the identity
        bool old = c.used == o.used && (!c.used || (c.nn == o.nn && c.en == o.en));
        bool neu = c.used == nw.used && (!c.used || (c.nn == nw.nn && c.en == nw.en));
        if (!old && !neu) count("identity_torn_inside_block_write");
      }
      // re-issue the interrupted command
      if (s.mode == MODE_NORMAL && !modeCmd && !setup)
      {
        if (cmd.op() == OPC_EVLRN || cmd.op() == OPC_EVLRNI || cmd.op() == OPC_EVULN || cmd.op() == OPC_NNCLR) learn(r, true);
        bool torn = false;
        for (int i = 0; i < g.events; i++) { const Entry &c = s.slots[i]; if (!Snapshot::sameSlot(before.slots[i], after.slots[i])) { bool old = c.used == before.slots[i].used && (!c.used || (c.nn == before.slots[i].nn && c.en == before.slots[i].en)), neu = c.used == after.slots[i].used && (!c.used || (c.nn == after.slots[i].nn && c.en == after.slots[i].en)); torn |= !old && !neu; } }
        auto got = r.ask(cmd);
        Snapshot fin = Snapshot::of(r);
        bool rejectedNow = false; for (auto &m : got) rejectedNow |= isError(m);
        if (!torn && !(cmd.op() == OPC_EVULN && rejectedNow))
        {
          std::string d = fin.diff(after);
          observe(hashStr(d));
          if (!d.empty()) violation("reissue-incomplete", "%s: after re-issuing the command the configuration differs from the complete one: %s", what, d.c_str());
          count("reissued");
        }
        else if (cmd.op() == OPC_EVULN && rejectedNow)
        {
          std::string d = s.diff(after);
          if (!torn && !d.empty()) violation("reissue-rejected", "%s: re-issued unlearn was rejected although the event is still stored: %s", what, d.c_str());
        }
      }
      if (setup && s.mode == MODE_NORMAL)
      {
        r.ask(withNN(OPC_MODE, r.nn(), {MODE_SETUP})); r.ask(cmd);
        Snapshot fin = Snapshot::of(r);
        if (s.nn != 0 && fin.nn != cmd.nn()) violation("reissue-incomplete", "%s: node number %04X after re-issuing SNN %04X", what, fin.nn, cmd.nn());
        count("reissued");
      }
    }
    usable(r, what);
  }
}
