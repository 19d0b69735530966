// Every storage write is attributed to what caused it and must lie in the cells that cause owns.
#include "model.h"
#include "LEDUserInterface.h"
#include "SerialUserInterface.h"
using namespace vm;

namespace {
struct Cells // cells a cause may write
{
  std::set<unsigned> ok; std::string why;
  void add(unsigned from, unsigned n) { for (unsigned i = 0; i < n; i++) ok.insert(from + i); }
};
}

CHECK_DEF(C30, 5000, 80000, "A case runs a module on a layout with guard gaps (random table sizes and start addresses) over random traffic: configuration commands valid, invalid, truncated and for others, all op-codes, events, application calls, actions, remote frames, clashes, console input, restarts; each byte written to storage is attributed to its cause and must belong to it. Coverage counts (cause, number of writes) states.")
{
  Geometry g = randomGeometry(R.chance(30));
  if (R.chance(70)) { g.events = R.range(1, 12); }
  if (R.chance(20)) { g.events = 255; g.evs = R.range(0, 20); }
  if (R.chance(15)) g.nvs = R.pick({0, 1, 127, 128, 255});
  g.nvStart = R.chance(40) ? 10 : R.range(6, 400);
  int gap = R.chance(30) ? 0 : R.range(1, 120);
  g.eventsStart = g.nvStart + g.nvs + gap;
  if (gap == 0 && R.chance(50)) g.eventsStart = 0;
  g.produced = g.evs ? R.range(0, std::min(g.events, 4)) : 0;
  if (R.chance(40)) g.services.push_back(R.chance(50) ? S_LONG : S_LONGEX);
  if (R.chance(30)) std::rotate(g.services.begin(), g.services.begin() + R.range(0, (int)g.services.size() - 1), g.services.end());
  Identity id; id.nn = randomOwn(); id.canid = R.range(1, 99); id.flags = R.range(0, 3);
  if (R.chance(20)) { id.mode = MODE_UNINITIALISED; id.nn = 0; id.canid = 0; }
  MonStorage *st = new MonStorage(std::max(4096u, g.end() + 256));
  for (auto &b : st->mem) b = R.byte(); // the guard cells hold anything
  for (unsigned i = g.eventsStart ? g.eventsStart : g.nvStart + g.nvs; i < g.end(); i++) st->mem[i] = 0xFF;
  Node n(g, st);
  n.preset(id);
  sim::pinIn[5] = 1;
  VLCB::SerialUserInterface sui(&n.can);
  n.extra.push_back(&sui);
  n.boot(); n.drain();
  logf("%s nn %04X mode %02X", g.str().c_str(), id.nn, id.mode);
  if (!st->log.empty()) violation("write-at-start", "starting a configured module wrote storage address %u", st->log[0].addr);
  if (n.lmsEx) { Node::current = &n; n.lmsEx->allocateContexts(2, 40, 2); }
  auto nns = usualNNs(id.nn), ens = usualENs();
  bool learning = false;
  unsigned long enumFrom = 0; bool enumPossible = false;
  auto slotUsed = [&](const std::vector<uint8_t> &m, int i) { unsigned a = g.slotAddr(i); return !(m[a] == 0xFF && m[a + 1] == 0xFF && m[a + 2] == 0xFF && m[a + 3] == 0xFF); };
  // Judge what was written since the last call. `slots`: event slots of which at most `maxSlots` may be written.
  auto judge = [&](const Cells &c, const std::set<int> &slots, int maxSlots, const std::string &what) {
    std::set<int> touched;
    for (auto &w : st->log)
    {
      observe(mix(w.addr, w.newv));
      if (c.ok.count(w.addr)) continue;
      unsigned es = g.resolvedEventsStart();
      if (w.addr >= es && w.addr < g.end())
      {
        int s = (int)((w.addr - es) / (4 + g.evs));
        if (!slots.count(s)) violation("foreign-event-written", "%s wrote address %u (%02X to %02X) of event slot %d", what.c_str(), w.addr, w.oldv, w.newv, s);
        touched.insert(s);
        continue;
      }
      if (w.addr == 1 && enumPossible && sim::now - enumFrom >= 100) { count("enumeration_results"); continue; }
      const char *area = w.addr < 6 ? "reserved cell" : w.addr >= g.nvStart && w.addr < g.nvStart + g.nvs ? "node variable" : "a cell outside every area";
      violation(w.addr < 6 ? "reserved-cell-written" : w.addr >= g.nvStart && w.addr < g.nvStart + g.nvs ? "foreign-nv-written" : "guard-cell-written", "%s wrote %s at address %u (%02X to %02X)", what.c_str(), area, w.addr, w.oldv, w.newv);
    }
    if ((int)touched.size() > maxSlots) violation("several-events-written", "%s wrote %zu event slots", what.c_str(), touched.size());
    if (enumPossible && sim::now - enumFrom >= 100 && n.can.rx.empty()) enumPossible = false;
    state(mix(hashStr(what.substr(0, what.find(' '))), std::min<size_t>(st->log.size(), 12)));
    count(st->log.empty() ? "causes_without_write" : "causes_with_writes");
    st->clearLog();
    observe(touched.size());
  };
  auto freeSlots = [&] { std::set<int> s; for (int i = 0; i < g.events; i++) if (!slotUsed(st->mem, i)) s.insert(i); return s; };
  auto trackEnum = [&](size_t mark) { for (size_t i = mark; i < n.can.tx.size(); i++) if (n.can.tx[i].f.rtr) { enumPossible = true; enumFrom = n.can.tx[i].t; } };
  int steps = R.range(20, 80);
  for (int s = 0; s < steps; s++)
  {
    int own = n.nn();
    size_t mark = n.can.tx.size();
    Cells c; std::set<int> slots; int maxSlots = 1;
    int k = R.range(0, 99);
    bool uninitialised = n.conf->currentMode == MODE_UNINITIALISED;
    if (k < 62)
    {
      Msg m;
      int j = R.range(0, 99);
      if (j < 45) m = randomConfigCommand(n, nns, ens);
      else if (j < 55) m = withNN(R.pick({OPC_NNLRN, OPC_NNLRN, OPC_NNULN}), own);
      else if (j < 60) m = withNN(OPC_MODE, own, {R.chance(70) ? R.pick({(int)MODE_LEARN_ON, (int)MODE_LEARN_OFF, (int)MODE_HEARTBEAT_ON, (int)MODE_EVENT_ACK_ON, (int)MODE_EVENT_ACK_OFF}) : R.byte()});
      else if (j < 66) m = R.pick({withNN(OPC_SNN, R.range(1, 65534)), Msg({OPC_RQNN, 0, 0}), withNN(OPC_MODE, own, {MODE_SETUP}), withNN(OPC_ENUM, own)});
      else if (j < 80) m = fullMsg(R.byte(), {own >> 8, own & 255});
      else if (j < 90) m = fullMsg(R.pick(eventOps()), {R.pick(nns) >> 8, R.pick(nns) & 255});
      else if (j < 95) { int a = own ^ (1 << R.range(0, 15)); m = fullMsg(R.pick({OPC_NVSET, OPC_NVSETRD, OPC_MODE, OPC_CANID, OPC_NNCLR, OPC_ENUM, OPC_NVRD, OPC_NERD, OPC_REVAL}), {a >> 8, a & 255}); }
      else m = fullMsg(R.byte());
      if (R.chance(8)) { m.len = (uint8_t)R.range(0, 8); for (int i = m.len; i < 8; i++) m.d[i] = 0; if (m.len == 0) m.d[0] = 0; }
      if (m.op() == OPC_NNRSM || (R.chance(80) && m.op() == OPC_NNCLR)) continue;
      bool complete = m.len > 0 && m.len >= opLen(m.op()), mine = m.len >= 3 && m.nn() == own;
      auto before = st->mem;
      if (complete) switch (m.op())
      {
        case OPC_NVSET: case OPC_NVSETRD: if (mine && m.d[3] >= 1 && m.d[3] <= g.nvs) { c.add(g.nvStart + m.d[3] - 1, 1); count("nv_sets"); } break;
        case OPC_CANID: if (mine) c.add(1, 1); break;
        case OPC_SNN: c.add(0, 6); if (uninitialised && n.prod) { slots = freeSlots(); maxSlots = g.produced; } break;
        case OPC_RQNN: c.add(0, 6); break;
        case OPC_MODE:
          if (!mine) break;
          if (m.d[3] == MODE_HEARTBEAT_ON || m.d[3] == MODE_HEARTBEAT_OFF || m.d[3] == MODE_EVENT_ACK_ON || m.d[3] == MODE_EVENT_ACK_OFF) c.add(4, 1);
          else if (m.d[3] == MODE_SETUP || m.d[3] == MODE_UNINITIALISED || m.d[3] == MODE_NORMAL) { c.add(0, 6); if (uninitialised && n.prod) { slots = freeSlots(); maxSlots = g.produced; } }
          break;
        case OPC_NNCLR: if (mine && learning) { c.add(g.resolvedEventsStart(), g.end() - g.resolvedEventsStart()); if (n.prod) c.add(5, 1); count("clears"); } break;
        case OPC_EVULN: case OPC_EVLRN:
        {
          if (!learning) break;
          std::set<int> same, ev1;
          for (int i = 0; i < g.events; i++)
          {
            unsigned a = g.slotAddr(i);
            if (!slotUsed(before, i)) continue;
            if (!memcmp(&before[a], &m.d[1], 4)) same.insert(i);
            if (g.evs && m.op() == OPC_EVLRN && m.d[5] == 1 && m.d[6] > 0 && before[a + 4] == m.d[6]) ev1.insert(i);
          }
          if (m.op() == OPC_EVLRN && (m.d[5] < 1 || m.d[5] > g.evs)) break;
          slots = !ev1.empty() ? ev1 : !same.empty() ? same : m.op() == OPC_EVLRN ? freeSlots() : std::set<int>();
          count(m.op() == OPC_EVLRN ? "teachings" : "unlearnings");
          break;
        }
        case OPC_EVLRNI: if (learning && m.d[5] < g.events && m.d[6] >= 1 && m.d[6] <= g.evs) { slots = {m.d[5]}; count("teachings_by_index"); } break;
        default: break;
      }
      if (m.len) n.put(m); else { Frame f = Node::frame(m); n.can.rx.push_back(f); }
      n.drain();
      // learn mode as the documented commands set it
      if (complete && mine && m.op() == OPC_NNLRN) learning = true;
      else if (complete && m.op() == OPC_NNLRN) learning = false;
      else if (complete && mine && m.op() == OPC_NNULN) learning = false;
      else if (complete && mine && m.op() == OPC_MODE && m.d[3] == MODE_LEARN_ON) learning = true;
      else if (complete && mine && m.op() == OPC_MODE && m.d[3] == MODE_LEARN_OFF) learning = false;
      trackEnum(mark);
      char b[16]; snprintf(b, sizeof b, "op%02X ", m.len ? m.d[0] : 0);
      judge(c, slots, maxSlots, b + m.str() + (learning ? " (learning)" : ""));
      count("messages");
      if (R.chance(15)) n.ask(withNN(OPC_MODE, n.nn(), {MODE_HEARTBEAT_OFF})), st->clearLog();
    }
    else if (k < 70 && n.prod && g.evs)
    {
      int v = R.chance(60) ? R.range(1, 5) : R.range(1, 255);
      bool known = false; for (int i = 0; i < g.events; i++) if (slotUsed(st->mem, i) && st->mem[g.slotAddr(i) + 4] == v) known = true;
      if (!known) slots = freeSlots();
      std::vector<int> data = randomData();
      sendEvent(n, R.chance(50), v, data); n.drain();
      trackEnum(mark);
      judge(c, slots, 1, "application event");
      count("produced");
    }
    else if (k < 76)
    {
      sim::now += R.pick({1, 50, 99, 100, 101, 5001, 40000}); n.drain();
      trackEnum(mark);
      judge(c, slots, 0, "time passing");
    }
    else if (k < 82)
    {
      Frame f = Node::frame(fullMsg(R.pick(eventOps())), R.chance(40) ? n.conf->CANID : R.range(0, 127));
      int kind = R.range(0, 3);
      if (kind == 1) { f.rtr = true; f.len = 0; } else if (kind == 2) f.ext = true; else if (kind == 3) f.len = 0;
      n.can.rx.push_back(f); n.drain();
      trackEnum(mark);
      judge(c, slots, 0, "frame " + str(f));
    }
    else if (k < 87)
    {
      std::string t; for (int i = R.range(1, 6); i > 0; i--) t += (char)R.pick({'n', 'e', 'v', 'c', 'h', 'y', 'm', '\r', '\n', 'r', 'p', '9', 'x'});
      for (char ch : t) sim::serialIn.push_back((uint8_t)ch);
      n.drain(12);
      trackEnum(mark);
      judge(c, slots, 0, "console " + hex((const uint8_t *)t.data(), t.size()));
      count("console");
    }
    else if (k < 90)
    {
      VLCB::ACTION a = R.pick({VLCB::ACT_CHANGE_MODE, VLCB::ACT_RENEGOTIATE, VLCB::ACT_START_CAN_ENUMERATION});
      n.ctl->putAction(a); n.drain();
      trackEnum(mark);
      if (a != VLCB::ACT_START_CAN_ENUMERATION) c.add(0, 6);
      judge(c, slots, 0, "button action");
      count("actions");
    }
    else if (k < 93 && n.prod)
    {
      if (g.events) { sendResponse(n, R.chance(50), (int)R.below(g.events), randomData()); n.drain(); }
      judge(c, slots, 0, "event response");
    }
    else if (k < 96 && n.lms)
    {
      static uint8_t content[30];
      Node::current = &n;
      if (n.lmsEx) n.lmsEx->sendLongMessage(content, 30, 3); else n.lms->sendLongMessage(content, 30, 3);
      for (int i = 0; i < 12; i++) { sim::now += 25; n.step(); if (n.lmsEx) n.lmsEx->process(); else n.lms->process(); }
      n.drain();
      trackEnum(mark);
      judge(c, slots, 0, "long message");
    }
    else
    {
      if (n.conf->currentMode == MODE_UNINITIALISED && n.conf->nodeNum == 0xFFFF) continue;
      n.restart(); learning = false; enumPossible = false;
      if (n.lmsEx) { Node::current = &n; n.lmsEx->allocateContexts(2, 40, 2); }
      judge(c, slots, 0, "restart");
      count("restarts");
    }
  }
}
