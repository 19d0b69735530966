// Messages addressed to other nodes have no effect: the same history with and without them.
#include "model.h"
using namespace vm;

namespace {
// Documented commands that carry the number of the node they are for.
const std::vector<int> &addressed()
{
  static const std::vector<int> v = {OPC_NNRSM, OPC_NNULN, OPC_NNCLR, OPC_NNEVN, OPC_NERD, OPC_RQEVN, OPC_ENUM, OPC_NNRST, OPC_BOOT, OPC_NVRD, OPC_NENRD, OPC_RQNPN,
    OPC_CANID, OPC_MODE, OPC_RQSD, OPC_RDGN, OPC_NVSETRD, OPC_NVSET, OPC_REVAL};
  return v;
}
// Opcodes that are about events, the whole bus or a module in a special state rather than about one node number.
bool special(int op)
{
  switch (op)
  {
    case OPC_QNN: case OPC_RQNP: case OPC_RQMN: case OPC_SNN: case OPC_RQNN: case OPC_NNLRN: case OPC_EVULN: case OPC_EVLRN: case OPC_EVLRNI: case OPC_REQEV: case OPC_DTXC:
    case OPC_AREQ: case OPC_ASRQ: case OPC_ARON: case OPC_AROF: case OPC_ARST: return true;
  }
  for (int o : eventOps()) if (o == op) return true;
  return false;
}
bool isAddressed(int op) { for (int o : addressed()) if (o == op) return true; return false; }

struct Out { std::vector<Sent> tx; std::vector<HandlerCall> ev, rq; };
Out take(Node &n) { Out o; o.tx.swap(n.can.tx); o.ev.swap(n.eventCalls); o.rq.swap(n.requestCalls); return o; }
std::string diff(const Out &a, const Out &b)
{
  if (a.tx.size() != b.tx.size()) return "number of frames sent " + std::to_string(a.tx.size()) + "/" + std::to_string(b.tx.size());
  for (size_t i = 0; i < a.tx.size(); i++) if (str(a.tx[i].f) != str(b.tx[i].f) || a.tx[i].t != b.tx[i].t) return "frame " + str(a.tx[i].f) + " / " + str(b.tx[i].f);
  if (a.ev.size() != b.ev.size() || a.rq.size() != b.rq.size()) return "handler calls";
  for (size_t i = 0; i < a.ev.size(); i++) if (a.ev[i].index != b.ev[i].index || a.ev[i].m != b.ev[i].m) return "event handler call";
  for (size_t i = 0; i < a.rq.size(); i++) if (a.rq[i].index != b.rq[i].index || a.rq[i].m != b.rq[i].m) return "request handler call";
  return "";
}
}

CHECK_DEF(C11, 5000, 80000, "A case is a random history of commands, events, actions and time given to two identical modules, one of which also receives messages for other nodes, responses, unknown opcodes and untaught events at random points; that module must stay silent on each of them and agree with its twin in everything sent, stored and handled.")
{
  Geometry g = randomGeometry(R.chance(30));
  g.events = R.range(1, 10); g.evs = R.range(1, 4);
  Identity id; id.flags = R.range(0, 1);
  if (R.chance(85)) { id.nn = randomOwn(); id.canid = R.range(1, 99); }
  else { id.mode = MODE_UNINITIALISED; id.nn = 0; id.canid = 0; }
  World w; w.boot(g, id);
  Node &a = *w.n;
  auto nns = usualNNs(id.nn ? id.nn : 0x0104); auto ens = usualENs();
  if (id.nn) w.fill(R.range(0, g.events), nns, ens, 50);
  for (int i = 1; i <= g.nvs; i++) a.conf->writeNV((byte)i, R.byte());
  // the twin: same storage, same moment
  Node b(g);
  b.st->mem = a.st->mem;
  a.restart(); b.boot(); b.drain();
  take(a); take(b);
  bool learning = false;
  int steps = R.range(15, 60);
  for (int s = 0; s < steps; s++)
  {
    // shared step
    int own = a.nn();
    int k = R.range(0, 99);
    if (k < 30 && own)
    {
      Msg m = randomConfigCommand(a, nns, ens);
      if (m.op() == OPC_EVULN && R.chance(50)) m = evMsg(OPC_EVLRN, R.pick(nns) & 0x7FFF, R.pick(ens), {1, R.byte()});
      a.put(m); b.put(m); logf("both %s", m.str().c_str());
    }
    else if (k < 40 && own) { Msg m = withNN(R.chance(70) ? OPC_NNLRN : OPC_NNULN, own); learning = m.op() == OPC_NNLRN; a.put(m); b.put(m); logf("both %s", m.str().c_str()); }
    else if (k < 55) { Msg m = fullMsg(R.pick(eventOps()), {R.pick(nns) >> 8, R.pick(nns) & 255, 0, R.range(0, 3)}); a.put(m); b.put(m); logf("both %s", m.str().c_str()); }
    else if (k < 60 && a.conf->currentMode == MODE_NORMAL && g.events)
    {
      // a source with an event, so that no default event is created by accident in a table that never gets room again
      int v = R.range(1, 9); bool on = R.chance(50); auto d = randomData(); sendEvent(a, on, v, d); sendEvent(b, on, v, d); logf("both produce %d", v);
    }
    else if (k < 65) { auto act = R.chance(50) ? VLCB::ACT_CHANGE_MODE : VLCB::ACT_RENEGOTIATE; a.ctl->putAction(act); b.ctl->putAction(act); logf("both user action"); }
    else if (k < 75) { Msg m = withNN(OPC_SNN, randomOwn()); a.put(m); b.put(m); logf("both %s", m.str().c_str()); }
    else if (k < 85 && own) { Msg m = R.pick({withNN(OPC_NERD, own), withNN(OPC_RQEVN, own), withNN(OPC_RQNPN, own, {PAR_FLAGS}), withNN(OPC_RDGN, own, {1, 5}), withNN(OPC_NNCLR, own), withNN(OPC_ENUM, own), Msg({OPC_QNN}), Msg({OPC_RQMN}), Msg({OPC_RQNP})}); a.put(m); b.put(m); logf("both %s", m.str().c_str()); }
    else sim::now += R.pick({1, 10, 50, 101, 2500, 5001});
    a.drain(); b.drain();
    for (int i = 0; i < 2; i++) { a.step(); b.step(); }
    own = a.nn();
    Out oa = take(a), ob = take(b);
    std::string d = diff(oa, ob);
    observe(oa.tx.size());
    for (auto &t : oa.tx) observe(Msg(t.f).h());
    if (!d.empty()) violation("twin-differs", "after step %d the module that also saw foreign messages behaves differently: %s", s, d.c_str());
    if (a.st->mem != b.st->mem) { size_t i = 0; while (a.st->mem[i] == b.st->mem[i]) i++; violation("twin-storage", "after step %d storage differs at %zu: %02X/%02X", s, i, a.st->mem[i], b.st->mem[i]); }

    // foreign messages for b only
    int k2 = R.range(0, 4);
    for (int i = 0; i < k2; i++)
    {
      Msg m;
      int r = R.range(0, 99);
      int other = R.chance(50) ? R.range(0, 65535) : R.pick({own ^ 1, own ^ 0x100, own ^ 0x8000, ((own & 255) << 8) | (own >> 8), 0, 0xFFFF, own + 1, own - 1}) & 0xFFFF;
      if (r < 55)
      {
        // a command for another node
        if (other == own) continue;
        int op = R.pick(addressed());
        m = fullMsg(op, {other >> 8, other & 255});
        if (m.len >= 4 && R.chance(60)) m.d[3] = (uint8_t)R.pick({0, 1, 2, 5, 8, 9, 12, 13, 0xFF});
        if (R.chance(15)) { m.len = (uint8_t)R.range(1, m.len); for (int j = m.len; j < 8; j++) m.d[j] = 0; if (m.nn() == own) continue; }
        count("foreign_commands");
      }
      else if (r < 80)
      {
        // responses and unknown opcodes, with any number in them
        int op = R.byte();
        if (special(op) || isAddressed(op)) continue;
        if (R.chance(50)) other = own;
        m = fullMsg(op, {other >> 8, other & 255});
        if (R.chance(15)) m.len = (uint8_t)R.range(1, 8);
        count("responses_and_unknown");
      }
      else if (r < 92)
      {
        // events that are not taught
        int op = R.chance(80) ? R.pick(eventOps()) : R.pick({OPC_AREQ, OPC_ASRQ});
        int nn = R.pick(nns), en = R.pick(ens);
        bool shrt = isShortOp(op) || op == OPC_ASRQ;
        bool taught = false;
        for (int j = 0; j < g.events; j++) if (b.conf->getEvTableEntry((byte)j)) { byte e[4]; b.conf->readEvent((byte)j, e); taught |= (shrt ? 0 : nn) == (e[0] << 8 | e[1]) && en == (e[2] << 8 | e[3]); }
        if (taught) continue;
        m = fullMsg(op, {nn >> 8, nn & 255, en >> 8, en & 255});
        count("untaught_events");
      }
      else if (r < 96 && !learning)
      {
        // teaching meant for a node that is in learn mode, which this one is not
        m = fullMsg(R.pick({OPC_EVLRN, OPC_EVLRNI, OPC_EVULN, OPC_REQEV}), {R.pick(nns) >> 8, R.pick(nns) & 255, 0, R.range(0, 3)});
        byte fl = b.ctl->getParam(PAR_FLAGS);
        if (fl & PF_LRN) continue;
        count("teaching_of_others");
      }
      else
      {
        // a number given to another node that is in setup
        bool setup = false;
        b.ask({OPC_RQNP}).empty() ? void() : void(setup = true);
        a.ask({OPC_RQNP});
        take(a); take(b);
        if (setup || other == own) continue;
        m = withNN(OPC_SNN, other);
        count("numbers_for_others");
      }
      size_t mark = b.can.tx.size(), ev = b.eventCalls.size(), rq = b.requestCalls.size();
      auto mem = b.st->mem; uint64_t restarts = sim::restarts;
      unsigned long t0 = sim::now;
      auto got = b.ask(m);
      (void)t0;
      observe(m.h());
      if (b.can.tx.size() != mark || !got.empty()) violation("foreign-answered", "node %04X answered %s with %s", own, m.str().c_str(), str(got).c_str());
      if (sim::restarts != restarts) violation("foreign-restarts", "node %04X restarted on %s", own, m.str().c_str());
      if (b.eventCalls.size() != ev || b.requestCalls.size() != rq) violation("foreign-handled", "node %04X called a handler for %s", own, m.str().c_str());
      if (b.st->mem != mem) { size_t x = 0; while (mem[x] == b.st->mem[x]) x++; violation("foreign-stored", "node %04X changed storage address %zu from %02X to %02X on %s", own, x, mem[x], b.st->mem[x], m.str().c_str()); }
      state(mix(m.op(), mix(m.len, b.conf->currentMode)));
    }
  }
  // finally everything readable is the same
  Snapshot sa = Snapshot::of(a), sb = Snapshot::of(b);
  std::string d = sa.diff(sb);
  observe(sa.h());
  if (!d.empty()) violation("twin-configuration", "%s", d.c_str());
  if (a.ctl->getParam(PAR_FLAGS) != b.ctl->getParam(PAR_FLAGS)) violation("twin-flags", "flags %02X / %02X", a.ctl->getParam(PAR_FLAGS), b.ctl->getParam(PAR_FLAGS));
}
