// CAN ID self-enumeration and the SET CANID command.
#include "model.h"
using namespace vm;

namespace {
Frame raw(int canid, int len, bool rtr = false, bool ext = false, int pri = 0xB)
{
  Frame f; memset(&f, 0, sizeof f);
  f.id = (pri << 7) | (canid & 0x7F); f.rtr = rtr; f.ext = ext; f.len = (uint8_t)len;
  return f;
}
}

CHECK_DEF(C12, 6000, 100000, "A case is a random history of enumerations (each with a random trigger, a random set of replies spread over less than 100 ms, interleaved traffic, requests and time steps), SET CANID commands and restarts; after each the adopted, stored and transmitted CAN ID, the frames sent and the acknowledgement are compared with the model.")
{
  World w;
  Geometry g = randomGeometry(false);
  g.events = R.range(1, 6); g.evs = R.range(1, 3);
  if (R.chance(30)) std::rotate(g.services.begin(), g.services.begin() + R.range(0, (int)g.services.size() - 1), g.services.end());
  Identity id; id.nn = randomOwn(); id.canid = R.range(1, 99);
  bool fresh = R.chance(15);
  if (fresh) { id.mode = MODE_UNINITIALISED; id.nn = 0; id.canid = 0; }
  w.boot(g, id);
  Node &n = *w.n;
  if (!fresh) w.fill(R.range(0, g.events), usualNNs(id.nn), usualENs(), 100);
  int canid = id.canid;
  n.can.tx.clear();
  if (R.chance(20)) sim::now = R.pick({50ul, 4294967200ul, 4294967295ul, 1000000ul});
  auto checkIds = [&](size_t from, const char *when) {
    for (size_t i = from; i < n.can.tx.size(); i++) { observe(n.can.tx[i].f.id); if (n.can.tx[i].f.id != (unsigned)((0xB << 7) | canid)) violation("id-in-frame", "%s: frame %s sent while the CAN ID is %d", when, str(n.can.tx[i].f).c_str(), canid); }
  };
  auto rtrs = [&](size_t from) { int c = 0; for (size_t i = from; i < n.can.tx.size(); i++) c += n.can.tx[i].f.rtr; return c; };
  int rounds = R.range(2, 8);
  for (int r = 0; r < rounds; r++)
  {
    int own = n.nn();
    size_t mark = n.can.tx.size();
    // things that are no trigger
    for (int i = R.range(0, 3); i > 0; i--)
    {
      int k = R.range(0, 5);
      Frame f = k == 0 ? raw(canid, R.range(0, 8), false, true) : k == 1 ? raw(canid, R.pick({0, 0, 5}), true) : k == 2 ? raw(canid, 0) : Node::frame(withNN(OPC_ENUM, (own ^ 0x10) ? own ^ 0x10 : 5), canid == 7 ? 8 : 7);
      if (k == 4) f = Node::frame(fullMsg(OPC_ACON, {1, 2, 3, 4}), canid == 7 ? 8 : 7);
      if (k == 5) { sim::now += R.range(1, 300); }
      else n.can.rx.push_back(f);
      n.drain();
      if (rtrs(mark)) violation("spurious-enumeration", "enumeration started by %s", str(f).c_str());
      count("non_triggers");
    }
    checkIds(mark, "before enumeration");
    if (!fresh && R.chance(35))
    {
      int v = R.chance(60) ? R.range(1, 99) : R.pick({0, 1, 99, 100, 101, 126, 127, 128, 129, 200, 255});
      bool mine = R.chance(80);
      int nn = mine ? own : (own ^ 0x0101) ? own ^ 0x0101 : 3;
      auto mem = n.st->mem;
      bool ok = v >= 1 && v <= 99;
      if (mine && ok) canid = v;
      std::vector<Msg> want;
      if (mine) want = ok ? okReply(n, OPC_CANID, SERVICE_ID_CAN) : errReply(n, OPC_CANID, SERVICE_ID_CAN, CMDERR_INV_EN_IDX);
      mark = n.can.tx.size();
      // sent from an address that collides with neither the old nor the new ID
      int from = -1;
      auto got = n.ask(withNN(OPC_CANID, nn, {v}), from);
      logf("CANID %04X %d -> %s", nn, v, str(got).c_str());
      observe(mix(v, mine));
      if (!sameSet(got, want)) violation("set-canid-reply", "SET CANID %d answered %s, expected %s", v, str(got).c_str(), str(want).c_str());
      mem[1] = (uint8_t)canid;
      if (n.st->mem != mem) violation("set-canid-stored", "after SET CANID %d (%s) stored CAN ID is %d, expected %d", v, mine ? "own" : "foreign", n.st->mem[1], canid);
      if (n.conf->CANID != canid) violation("set-canid", "CAN ID is %d, expected %d", n.conf->CANID, canid);
      checkIds(mark, "after SET CANID");
      count(mine ? ok ? "set_canid" : "set_canid_rejected" : "set_canid_foreign");
      continue;
    }
    if (R.chance(8)) { n.restart(); count("restarts"); if (n.conf->CANID != canid) violation("canid-lost", "CAN ID %d after a restart, was %d", n.conf->CANID, canid); continue; }
    // trigger
    mark = n.can.tx.size();
    bool ack = false, ackOptional = false;   // whether a command that meets a running enumeration is acknowledged is left open
    int trig = fresh ? R.chance(30) ? 0 : 3 : R.range(0, 2);
    std::string what;
    if (trig == 0) { Msg m = R.chance(50) ? fullMsg(R.pick({OPC_ACON, OPC_ASON, OPC_HEARTB, OPC_PNN, OPC_KLOC}), {9, 9}) : Msg({OPC_RTON}); n.can.rx.push_back(Node::frame(m, canid, R.range(0, 15))); what = "conflict"; }
    else if (trig == 1) { n.put(withNN(OPC_ENUM, own)); ack = true; what = "ENUM"; }
    else if (trig == 2) { n.ctl->putAction(VLCB::ACT_START_CAN_ENUMERATION); what = "button"; }
    else { n.ctl->putAction(VLCB::ACT_CHANGE_MODE); what = "setup"; }
    logf("trigger %s at %lu, CAN ID %d", what.c_str(), sim::now, canid);
    unsigned long t0 = sim::now;
    n.drain();
    count("trigger_" + what); if (fresh && trig == 0 && canid == 0) count("conflict_at_zero");
    if (rtrs(mark) != 1) violation("no-enumeration-request", "%s: %d enumeration requests sent", what.c_str(), rtrs(mark));
    for (size_t i = mark; i < n.can.tx.size(); i++) if (n.can.tx[i].f.rtr && (n.can.tx[i].f.len != 0 || n.can.tx[i].f.ext)) violation("enumeration-request-form", "%s", str(n.can.tx[i].f).c_str());
    // replies
    std::set<int> used;
    int density = R.pick({0, 3, 20, 60, 126, 200});
    std::vector<int> ids;
    for (int i = 0; i < density; i++) ids.push_back(R.chance(70) ? R.range(0, R.pick({8, 20, 70, 127})) : R.range(0, 127));
    if (R.chance(20)) { int upto = R.range(1, 126); for (int i = 1; i <= upto; i++) ids.push_back(i); if (R.chance(30)) { int gap = R.range(1, upto); ids.erase(std::remove(ids.begin(), ids.end(), gap), ids.end()); } }
    std::set<int> all(ids.begin(), ids.end()); all.erase(0);
    if (all.size() >= 127) ids.erase(std::remove(ids.begin(), ids.end(), R.range(1, 127)), ids.end());
    for (int v : ids) if (v) used.insert(v);
    int answered = 0, wantAnswered = 0, traffic = 0;
    size_t pos = 0;
    size_t body = n.can.tx.size();
    size_t calls = n.eventCalls.size(), wantCalls = calls;
    while (pos < ids.size() || R.chance(40))
    {
      int burst = R.range(1, 25);
      for (int i = 0; i < burst && pos < ids.size(); i++) n.can.rx.push_back(raw(ids[pos++], 0, false, false, R.range(0, 15)));
      int k = R.range(0, 9);
      if (k == 0) { n.can.rx.push_back(raw(R.range(1, 127), R.pick({0, 0, 3}), true)); wantAnswered++; traffic++; }
      else if (k == 1) { std::vector<int> us; for (int i = 0; i < w.t.size(); i++) if (w.t.e[i].used) us.push_back(i); if (!us.empty()) { int i = R.pick(us); n.can.rx.push_back(Node::frame(evMsg(OPC_ACON, w.t.e[i].nn, w.t.e[i].en), canid == 125 ? 124 : 125)); wantCalls++; traffic++; } }
      else if (k == 2) { n.can.rx.push_back(raw(R.range(1, 127), 0, false, true)); traffic++; }
      else if (k == 3 && R.chance(50))
      {
        // another trigger while the module is enumerating: it neither starts over nor forgets to acknowledge the command
        int t2 = R.range(0, fresh ? 1 : 2);
        if (t2 == 0) n.can.rx.push_back(Node::frame(fullMsg(OPC_HEARTB, {9, 9}), canid, R.range(0, 15)));
        else if (t2 == 1) n.ctl->putAction(VLCB::ACT_START_CAN_ENUMERATION);
        else { n.put(withNN(OPC_ENUM, own), canid == 125 ? 124 : 125); if (!ack) ackOptional = true; }
        logf("second trigger %d", t2); count("triggers_during_enumeration");
      }
      else if (k == 4 && !fresh && R.chance(10))
      {
        // an ID set meanwhile is used at once, and the enumeration goes on
        int v = R.range(1, 99);
        n.drain(); checkIds(mark, "before SET CANID");
        size_t m2 = n.can.tx.size();
        n.put(withNN(OPC_CANID, own, {v}), canid == 125 ? 124 : 125); n.drain();
        canid = v;
        checkIds(m2, "after SET CANID"); mark = n.can.tx.size();
        logf("SET CANID %d during the enumeration", v); count("set_canid_during_enumeration");
      }
      n.drain();
      if (sim::now - t0 < 90) sim::now += R.range(0, 9);
      n.step();
      if (pos >= ids.size() && R.chance(50)) break;
    }
    // query answered during enumeration
    if (!fresh && R.chance(40)) { auto got = n.ask({OPC_QNN}, canid == 125 ? 124 : 125); if (got.size() != 1 || got[0].op() != OPC_PNN) violation("deaf-in-enumeration", "QNN during enumeration answered %s", str(got).c_str()); count("queries_during_enumeration"); }
    if (n.conf->CANID != canid) violation("adopted-early", "CAN ID changed to %d after %lu ms", n.conf->CANID, sim::now - t0);
    for (size_t i = body; i < n.can.tx.size(); i++) { answered += n.can.tx[i].f.len == 0 && !n.can.tx[i].f.rtr; }
    if (answered != wantAnswered) violation("rtr-unanswered", "%d of %d enumeration requests of others answered during enumeration", answered, wantAnswered);
    if (n.eventCalls.size() != wantCalls) violation("events-lost", "%zu of %zu events handled during enumeration", n.eventCalls.size() - calls, wantCalls - calls);
    if (rtrs(body)) violation("second-request", "another enumeration request was sent during the enumeration");
    checkIds(mark, "during enumeration");
    count("traffic_during_enumeration", traffic);
    // just before the deadline nothing happens, after it the ID is adopted
    if (R.chance(50)) { sim::now = t0 + 99; n.step(); n.step(); if (n.conf->CANID != canid) violation("adopted-early", "CAN ID changed to %d after 99 ms", n.conf->CANID); }
    int free = 1; while (used.count(free)) free++;
    auto mem = n.st->mem;
    body = n.can.tx.size();
    sim::now = t0 + (R.chance(50) ? R.range(100, 105) : R.range(100, 900));
    n.step(); n.drain();
    canid = free;
    observe(mix(free, used.size()));
    logf("%zu replies, %zu ids used, expecting CAN ID %d, got %d", ids.size(), used.size(), free, n.conf->CANID);
    if (n.conf->CANID != free) violation("wrong-id", "%s with %zu used IDs: adopted CAN ID %d, lowest unused is %d", what.c_str(), used.size(), n.conf->CANID, free);
    mem[1] = (uint8_t)free;
    if (n.st->mem != mem) violation("id-not-stored", "%s: stored CAN ID %d, adopted %d", what.c_str(), n.st->mem[1], free);
    std::vector<Msg> want, got = n.sentSince(body);
    if (ack) want = {withNN(OPC_NNACK, n.nn())};
    if (ackOptional && got.size() == 1) want = {withNN(OPC_NNACK, n.nn())};
    if (!sameSet(got, want)) violation("acknowledgement", "%s: after enumeration %s was sent, expected %s", what.c_str(), str(got).c_str(), str(want).c_str());
    checkIds(body, "after enumeration");
    // it has ended: late replies and time change nothing
    for (int i = R.range(0, 3); i > 0; i--) { n.can.rx.push_back(raw(R.range(1, 127), 0)); sim::now += R.range(0, 200); n.drain(); }
    if (n.conf->CANID != free) violation("not-ended", "after the enumeration the CAN ID became %d", n.conf->CANID);
    if (n.can.tx.size() != body + want.size()) violation("not-ended", "after the enumeration another frame was sent: %s", str(n.can.tx.back().f).c_str());
    state(mix(free, mix(trig, used.size())));
    count("enumerations");
    if (fresh && trig == 3) { auto got2 = n.ask(withNN(OPC_SNN, randomOwn())); if (got2.size() != 1) violation("setup", "SNN answered %s", str(got2).c_str()); fresh = false; }
  }
}
