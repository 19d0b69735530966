// The same history played twice: once at an ordinary time, once with the millisecond counter wrapping round inside it.
#include "longmsg.h"
#include "LEDUserInterface.h"
using namespace vm;

namespace {
const int GREEN = 3, YELLOW = 4, BUTTON = 5;
struct Event { unsigned t; std::string what; bool operator==(const Event &o) const { return t == o.t && what == o.what; } };
struct Trace { std::vector<Event> e; unsigned prologue = 0, length = 0; };

struct Plan { Geometry g; Identity id; bool ex, crc; unsigned long timeout; int delay; int interval; };

Trace play(const Plan &p, Rng rng, unsigned long start)
{
  sim::reset();
  C->rng = rng;
  Trace tr;
  sim::now = start;
  sim::pinIn[BUTTON] = 1;
  Node n(p.g);
  n.preset(p.id);
  VLCB::LEDUserInterface ui(GREEN, YELLOW, BUTTON);
  n.extra.push_back(&ui);
  n.boot();
  LmNode l; l.n = &n; l.ex = p.ex; l.streams = {1, 2, 3, 7}; l.bufLen = 60;
  lmNodes[0] = &l;
  if (p.ex)
  {
    if (!n.lmsEx->allocateContexts(3, 60, 3)) harnessError("allocateContexts");
    n.lmsEx->use_crc(p.crc);
  }
  n.lms->setTimeout((unsigned)p.timeout);
  n.lms->setDelay((byte)p.delay);
  lmSubscribe(0);
  size_t tx = 0, pins = 0, act = 0, ev = 0, rq = 0, lm = 0;
  std::map<int, int> level;
  auto at = [&](unsigned long t) { return (unsigned)(t - start); };
  auto collect = [&] {
    for (; act < n.rec->actions.size(); act++)
    {
      char b[64]; snprintf(b, sizeof b, "action %d", n.rec->actions[act].actionType);
      if (n.rec->actions[act].actionType == VLCB::ACT_CHANGE_MODE || n.rec->actions[act].actionType == VLCB::ACT_RENEGOTIATE || n.rec->actions[act].actionType == VLCB::ACT_START_CAN_ENUMERATION) tr.e.push_back({at(sim::now), b});
    }
    for (; tx < n.can.tx.size(); tx++) tr.e.push_back({at(n.can.tx[tx].t), "sent " + str(n.can.tx[tx].f)});
    for (; pins < sim::pinWrites.size(); pins++)
    {
      auto &w = sim::pinWrites[pins];
      if (level.count(w.pin) && level[w.pin] == w.val) continue;
      level[w.pin] = w.val;
      char b[64]; snprintf(b, sizeof b, "pin %d level %d", w.pin, w.val); tr.e.push_back({at(w.t), b});
    }
    for (; ev < n.eventCalls.size(); ev++) tr.e.push_back({at(n.eventCalls[ev].t), "event " + n.eventCalls[ev].m.str()});
    for (; rq < n.requestCalls.size(); rq++) tr.e.push_back({at(n.requestCalls[rq].t), "request " + n.requestCalls[rq].m.str()});
    for (; lm < l.got.size(); lm++)
    {
      char b[64]; snprintf(b, sizeof b, "long message stream %d status %d ", l.got[lm].stream, l.got[lm].status);
      tr.e.push_back({at(l.got[lm].t), b + hex(l.got[lm].bytes.data(), l.got[lm].bytes.size())});
    }
  };
  auto poll = [&] { n.step(); l.tick(); n.step(); collect(); };
  auto run = [&](long ms, int interval) {
    for (long e = 0; e < ms;) { int d = std::min<long>(interval, ms - e); e += d; sim::now += d; poll(); }
  };
  std::vector<std::vector<uint8_t> *> keep;
  auto sendLong = [&] {
    auto *v = new std::vector<uint8_t>(lmContent(R.range(1, 40))); keep.push_back(v);
    if (p.ex) n.lmsEx->sendLongMessage(v->data(), (unsigned)v->size(), (byte)R.range(1, 9));
    else n.lms->sendLongMessage(v->data(), (unsigned)v->size(), (byte)R.range(1, 9));
  };
  // Prologue: use every timer once, so that none still holds its initial zero.
  poll();
  n.put({OPC_MODE, n.nn() >> 8, n.nn() & 255, MODE_HEARTBEAT_ON}); poll();
  sim::pinIn[BUTTON] = 0; run(20, 10); sim::pinIn[BUTTON] = 1; run(20, 10); // short press: enumeration
  sendLong(); run(1500, 50);
  n.put(withNN(OPC_MODE, n.nn(), {MODE_SETUP})); run(1300, 50);
  n.put({OPC_RQNN, 0, 9}); run(5400, 100);
  if (n.conf->currentMode != MODE_NORMAL) violation("prologue", "module not in Normal mode after an aborted setup");
  tr.prologue = at(sim::now);

  int interval = p.interval;
  std::deque<Msg> incoming; // rest of a long message being received
  int steps = R.range(8, 30);
  for (int s = 0; s < steps; s++)
  {
    if (R.chance(20)) interval = R.pick({1, 3, 20, 97, 250});
    int k = R.range(0, 13);
    switch (k)
    {
      case 0: n.put({OPC_MODE, n.nn() >> 8, n.nn() & 255, R.chance(75) ? MODE_HEARTBEAT_ON : MODE_HEARTBEAT_OFF}); break;
      case 1: n.put(withNN(OPC_MODE, n.nn(), {MODE_SETUP})); break;
      case 2: n.put(R.chance(70) ? withNN(OPC_SNN, R.range(1, 60000)) : Msg({OPC_RQNN, 0, 9})); break;
      case 3: sim::pinIn[BUTTON] = 0; break;
      case 4: sim::pinIn[BUTTON] = 1; break;
      case 5: { sim::pinIn[BUTTON] = 0; poll(); int d = R.pick({R.range(1, 600), R.range(900, 2100), R.range(3900, 4300)}); run(d, std::max(interval, 20)); sim::pinIn[BUTTON] = 1; poll(); break; }
      case 6: n.put(withNN(OPC_ENUM, n.nn())); break;
      case 7: { Frame f; memset(&f, 0, sizeof f); f.rtr = R.chance(30); f.id = 0x580 | R.range(1, 99); n.can.rx.push_back(f); break; }
      case 8: sendLong(); break;
      case 9: case 10:
        if (incoming.empty()) for (Msg &m : lmFrames(lmContent(R.range(6, 50)), R.pick(l.streams))) incoming.push_back(m);
        for (int i = R.range(1, 3); i > 0 && !incoming.empty(); i--) { n.put(incoming.front()); incoming.pop_front(); run(R.range(0, 30), interval); }
        if (R.chance(15)) incoming.clear();
        break;
      case 11: n.put(R.pick({evMsg(OPC_ACON, 9, 9), Msg({OPC_QNN}), withNN(OPC_RQEVN, n.nn()), withNN(OPC_RQNPN, n.nn(), {0}), evMsg(OPC_AREQ, n.nn(), 1)})); break;
      case 12: if (n.prod && n.g.produced) { Node *c = Node::current; Node::current = &n; n.prod->sendEvent(R.chance(50), 1); Node::current = c; } break;
      default: break;
    }
    poll();
    run(R.pick({R.range(0, 40), R.range(80, 130), R.range(300, 1200), R.range(1000, 6000), (int)p.timeout + R.range(-2, 2)}), interval);
  }
  run(200, 20);
  tr.length = at(sim::now);
  for (auto *v : keep) delete v;
  return tr;
}
}

CHECK_DEF(C26, 1200, 16000, "A case plays one random history of traffic, button use, enumerations, heartbeats and long messages twice, at an ordinary time and with the millisecond counter wrapping at a chosen point (often next to an observed event), and compares every frame, LED level, handler call and delivery with its relative time. Coverage counts (kind of event, distance from the wrap).")
{
  Plan p;
  p.g.events = R.range(1, 6); p.g.nvs = 2; p.g.produced = 1;
  p.g.services = {S_MNS, R.chance(50) ? S_CAN : S_CAND, S_NV, S_TEACH, S_CONS, S_PROD};
  p.ex = R.chance(50); p.crc = R.chance(50);
  p.g.services.push_back(p.ex ? S_LONGEX : S_LONG);
  p.g.services.push_back(S_REC);
  p.id.nn = randomOwn(); p.id.canid = R.range(1, 99); p.id.flags = 0;
  p.timeout = R.pick({100, 1000, 5000}); p.delay = R.pick({0, 1, 20, 100, 255}); p.interval = R.pick({1, 10, 50});
  Rng seed(R.next());
  Rng mine = R;
  unsigned long base = (unsigned long)mine.range(1000000, 2000000000);
  logf("%s timeout %lu delay %d base %lu", p.g.str().c_str(), (unsigned long)p.timeout, p.delay, base);
  Trace a = play(p, seed, base);
  std::vector<unsigned> late; for (auto &e : a.e) if (e.t >= a.prologue) late.push_back(e.t);
  int wraps = 3;
  for (int i = 0; i < wraps; i++)
  {
    unsigned w = a.prologue + (unsigned)mine.below(a.length - a.prologue + 1);
    if (!late.empty() && mine.chance(75)) { int v = (int)mine.pick(late) + mine.pick({0, 1, -1, mine.range(-120, 30), mine.range(-500, 0), mine.range(-5000, 0)}); if (v >= (int)a.prologue) w = (unsigned)v; }
    logf("counter wraps %u ms into the history (prologue %u, length %u)", w, a.prologue, a.length);
    Trace b = play(p, seed, (unsigned long)0 - (unsigned long)w);
    size_t k = 0;
    while (k < a.e.size() && k < b.e.size() && a.e[k] == b.e[k])
    {
      observe(mix(a.e[k].t, hashStr(a.e[k].what)));
      int d = (int)a.e[k].t - (int)w;
      if (d > -200 && d < 6000) { count("events_near_wrap"); state(mix(hashStr(a.e[k].what.substr(0, 18)), d < 0 ? 0 : d < 10 ? 1 : d < 120 ? 2 : d < 600 ? 3 : 4)); }
      k++;
    }
    if (k < a.e.size() || k < b.e.size())
      violation("differs-across-wrap", "wrap at %u ms: event %zu is %u ms %s without the wrap and %u ms %s with it", w, k,
                k < a.e.size() ? a.e[k].t : 0, k < a.e.size() ? a.e[k].what.c_str() : "(none)", k < b.e.size() ? b.e[k].t : 0, k < b.e.size() ? b.e[k].what.c_str() : "(none)");
    if (a.length != b.length) harnessError("histories of different length");
    count("wraps_played");
    for (auto &e : a.e) count("ev_" + e.what.substr(0, e.what.find(' ')));
  }
}
