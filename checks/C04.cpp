// Consumed events reach the registered handler exactly once, in order, iff taught.
#include "model.h"
using namespace vm;

CHECK_DEF(C04, 8000, 120000, "A case is a random event table and a random stream of event and other messages from the bus (single and in bursts) and of own produced events, with table changes in between; every handler call is compared with the sequence the table predicts.")
{
  World w;
  bool coe = R.chance(40);
  Geometry g = randomGeometry(coe);
  Identity id; id.nn = randomOwn(); id.canid = R.range(1, 99);
  w.boot(g, id);
  Node &n = *w.n;
  auto nns = usualNNs(id.nn); auto ens = usualENs();
  w.fill(R.range(1, 24), nns, ens, 70);
  int rounds = R.range(10, 40);
  // Sometimes the handler itself sends an event, as a sketch that chains events does.
  int chain = 0;
  for (auto &e : w.t.e) if (!coe && e.used && e.ev[0] > 0 && R.chance(30)) { chain = e.ev[0]; break; }
  unsigned chained = 0;
  if (chain) n.onEvent = [&](int, const Msg &) { chained++; n.prod->sendEvent(true, (byte)chain); };
  bool renegotiating = false;
  bool learning = false;   // events are consumed in learn mode too
  std::vector<std::pair<int, int>> changed;   // identities that the last table changes removed, replaced or added
  for (int r = 0; r < rounds; r++)
  {
    if (R.chance(12)) { learning = !learning; learn(n, learning); logf("learn mode %s", learning ? "on" : "off"); count("learn_mode_changes"); }
    if (R.chance(4)) { renegotiating = !renegotiating; n.ctl->putAction(VLCB::ACT_RENEGOTIATE); n.drain(); logf(renegotiating ? "asking for another node number" : "request withdrawn"); count("renegotiations"); }
    std::vector<HandlerCall> want;
    n.eventCalls.clear();
    chained = 0;
    size_t mark = n.can.tx.size();
    int k = R.range(0, 99);
    if (k < 70)
    {
      int burst = R.chance(60) ? 1 : R.range(2, chain ? 5 : 9);
      for (int b = 0; b < burst; b++)
      {
        int nn = R.pick(nns), en = R.pick(ens);
        std::vector<int> us; for (int i = 0; i < w.t.size(); i++) if (w.t.e[i].used) us.push_back(i);
        int i = us.empty() || R.chance(35) ? -1 : R.pick(us);
        if (i >= 0) { nn = w.t.e[i].nn; en = w.t.e[i].en; if (R.chance(30)) nearly(nn, en); }
        else if (!changed.empty() && R.chance(40)) { auto &c = R.pick(changed); nn = c.first; en = c.second; count("changed_identities_sent"); }
        int op = R.pick(eventOps());
        Msg m;
        if (R.chance(88))
        {
          if (isShortOp(op) && R.chance(80)) nn = R.range(0, 65535); // the sender of a short event
          m = fullMsg(op, {nn >> 8, nn & 255, en >> 8, en & 255});
          int idx = w.t.find(isShortOp(op) ? 0 : nn, en);
          if (idx >= 0) want.push_back({0, idx, m});
          count(idx < 0 ? "events_not_taught" : isShortOp(op) ? "short_events_taught" : op == OPC_ARON || op == OPC_AROF ? "responses_taught" : "long_events_taught");
        }
        else
        {
          // something that carries the same numbers but is not a consumed event
          op = R.pick({OPC_AREQ, OPC_ASRQ, OPC_ARSON, OPC_ARSOF, OPC_ENRSP, OPC_EVANS, OPC_DDES, OPC_RQDDS, OPC_CABDAT});
          m = fullMsg(op, {nn >> 8, nn & 255, en >> 8, en & 255});
          count("not_events");
        }
        n.put(m);
        logf("bus %s", m.str().c_str());
      }
      n.drain();
    }
    else if (k < 85)
    {
      std::vector<int> us; for (int i = 0; i < w.t.size(); i++) if (w.t.e[i].used && w.t.e[i].ev[0] > 0) us.push_back(i);
      if (us.empty()) continue;
      int num = R.range(1, 5);
      for (int b = 0; b < num; b++)
      {
        int i = R.pick(us);
        bool on = R.chance(50); auto d = randomData();
        sendEvent(n, on, w.t.e[i].ev[0], d);
        Msg m = producedMsg(on, w.t.e[i].nn, w.t.e[i].en, n.nn(), d);
        logf("own %s", m.str().c_str());
        if (coe) { want.push_back({0, i, m}); count("own_events_consumed"); } else count("own_events_not_consumed");
      }
      n.drain();
    }
    else
    {
      // change the table
      learn(n, true); if (R.chance(50)) changed.clear();
      std::vector<int> us; for (int i = 0; i < w.t.size(); i++) if (w.t.e[i].used && w.t.e[i].ev[0] != chain) us.push_back(i);
      if (!us.empty() && R.chance(50))
      {
        int i = R.pick(us); changed.push_back({w.t.e[i].nn, w.t.e[i].en});
        n.ask(evMsg(OPC_EVULN, w.t.e[i].nn, w.t.e[i].en)); w.t.e[i].used = false; logf("unlearn slot %d", i);
      }
      else
      {
        int i = (int)R.below(w.t.size()), nn = R.pick(nns), en = R.pick(ens);
        if (!us.empty() && R.chance(40)) { int j = R.pick(us); nn = w.t.e[j].nn; en = w.t.e[j].en; nearly(nn, en); }
        if (w.t.e[i].used && R.chance(50)) { nn = w.t.e[i].nn; en = w.t.e[i].en; nearly(nn, en); n.put(evMsg(OPC_ACON, w.t.e[i].nn, w.t.e[i].en)); n.drain(); }
        int at = w.t.find(nn, en);
        if ((at < 0 || at == i) && !(nn == 0xFFFF && en == 0xFFFF) && !(w.t.e[i].used && w.t.e[i].ev[0] == chain && chain))
        {
          std::vector<int> ev(w.t.evs, 0);
          if (w.t.e[i].used) changed.push_back({w.t.e[i].nn, w.t.e[i].en});
          changed.push_back({nn, en});
          teachSlot(n, w.t, i, nn, en, ev); logf("teach slot %d %04X/%04X", i, nn, en);
        }
      }
      learn(n, false); learning = false;
      n.eventCalls.clear();
      count("table_changes");
      continue;
    }
    auto &got = n.eventCalls;
    for (auto &c : got) observe(mix(c.index, c.m.h()));
    observe(want.size());
    if (got.size() != want.size()) violation("handler-call-count", "handler called %zu times, expected %zu; table %s", got.size(), want.size(), w.t.str().c_str());
    for (size_t i = 0; i < got.size(); i++)
    {
      if (got[i].index != want[i].index) violation("handler-index", "handler call %zu for %s has index %d, expected %d", i, want[i].m.str().c_str(), got[i].index, want[i].index);
      if (got[i].m != want[i].m) violation("handler-message", "handler call %zu got %s, expected %s", i, got[i].m.str().c_str(), want[i].m.str().c_str());
    }
    if (chain)
    {
      auto sent = n.sentSince(mark);
      if (k < 70)
      {
        observe(sent.size());
        if (sent.size() != want.size()) violation("chained-events", "the handler sent %zu events but %zu were transmitted", want.size(), sent.size());
        count("chained_events", sent.size());
      }
    }
    state(mix(w.t.h(), want.size()));
  }
}
