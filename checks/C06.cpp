// Event status requests reach the producer once and are answered in matching form.
#include "model.h"
using namespace vm;

CHECK_DEF(C06, 8000, 120000, "A case is a random event table and a random stream of status requests (long, short, for this and other nodes, taught and untaught, singly and in bursts) and other messages; request-handler calls and the responses sent from the handler or later are compared with what the table predicts.")
{
  World w;
  Geometry g = randomGeometry(R.chance(25));
  Identity id; id.nn = randomOwn(); id.canid = R.range(1, 99);
  w.boot(g, id);
  Node &n = *w.n;
  Table &t = w.t;
  auto nns = usualNNs(id.nn); auto ens = usualENs();
  w.fill(R.range(1, 24), nns, ens, 30);
  bool respond = R.chance(60);
  std::vector<Msg> wantSent;
  if (respond) n.onRequest = [&](int index, const Msg &) {
    bool on = R.chance(50); auto d = randomData();
    sendResponse(n, on, index, d);
    wantSent.push_back(producedMsg(on, t.e[index].nn, t.e[index].en, n.nn(), d, true));
  };
  int rounds = R.range(10, 40);
  std::vector<std::pair<int, int>> changed;
  bool learning = false;   // requests are answered in learn mode too
  for (int r = 0; r < rounds; r++)
  {
    if (R.chance(10)) { learning = !learning; learn(n, learning); logf("learn mode %s", learning ? "on" : "off"); count("learn_mode_changes"); }
    int own = n.nn();
    n.requestCalls.clear(); wantSent.clear();
    std::vector<HandlerCall> want;
    size_t mark = n.can.tx.size();
    int k = R.range(0, 99);
    std::vector<int> us; for (int i = 0; i < t.size(); i++) if (t.e[i].used) us.push_back(i);
    if (k < 75)
    {
      int burst = R.chance(60) ? 1 : R.range(2, 6);
      for (int b = 0; b < burst; b++)
      {
        int i = us.empty() || R.chance(30) ? -1 : R.pick(us);
        int nn = R.pick(nns), en = R.pick(ens);
        if (i >= 0) { nn = t.e[i].nn; en = t.e[i].en; if (R.chance(25)) { nearly(nn, en); i = -1; } }
        else if (!changed.empty() && R.chance(40)) { auto &c = R.pick(changed); nn = c.first; en = c.second; count("changed_identities_asked"); }
        Msg m;
        int form = R.range(0, 9);
        if (i >= 0 && nn == 0) form = 5 + R.range(0, 3);
        if (form < 5 && nn != 0)
        {
          m = evMsg(OPC_AREQ, nn, en);
          int idx = t.find(nn, en);
          bool hit = idx >= 0 && t.e[idx].ev[0] != 0;
          if (hit) want.push_back({0, idx, m});
          count(hit ? "long_requests_for_produced" : idx >= 0 ? "long_requests_for_consumed" : "long_requests_unknown");
        }
        else if (form < 9)
        {
          int to = R.pick({0, own, own, 0, own ^ 1, own ^ 0x0100, 0xFFFF});
          m = evMsg(OPC_ASRQ, to, en);
          int idx = t.find(0, en);
          bool hit = (to == 0 || to == own) && idx >= 0 && t.e[idx].ev[0] != 0;
          if (hit) want.push_back({0, idx, m});
          count(hit ? "short_requests_for_produced" : to != 0 && to != own ? "short_requests_other_node" : "short_requests_not_produced");
        }
        else
        {
          m = fullMsg(R.chance(60) ? R.pick(eventOps()) : R.pick({OPC_ARSON, OPC_ARSOF, OPC_ENRSP, OPC_NVANS, OPC_DDRS}), {nn >> 8, nn & 255, en >> 8, en & 255});
          count("not_requests");
        }
        n.put(m);
        logf("bus %s", m.str().c_str());
      }
      n.drain();
      auto &got = n.requestCalls;
      for (auto &c : got) observe(mix(c.index, c.m.h()));
      observe(want.size());
      if (got.size() != want.size()) violation("request-call-count", "request handler called %zu times, expected %zu; table %s", got.size(), want.size(), t.str().c_str());
      for (size_t i = 0; i < got.size(); i++)
        if (got[i].index != want[i].index || got[i].m != want[i].m) violation("request-call", "request call %zu: index %d %s, expected index %d %s", i, got[i].index, got[i].m.str().c_str(), want[i].index, want[i].m.str().c_str());
      auto sent = n.sentSince(mark);
      for (auto &m : sent) observe(m.h());
      if (sent != wantSent) violation("response", "responses %s expected %s", str(sent).c_str(), str(wantSent).c_str());
      count("responses", sent.size());
    }
    else if (k < 90)
    {
      // responses sent unasked, outside the handler
      if (us.empty()) continue;
      std::vector<Msg> ws;
      int num = R.range(1, 6);
      for (int b = 0; b < num; b++)
      {
        int i = R.pick(us); bool on = R.chance(50); auto d = randomData();
        sendResponse(n, on, i, d);
        ws.push_back(producedMsg(on, t.e[i].nn, t.e[i].en, own, d, true));
        count(t.e[i].nn == 0 ? "short_responses" : "long_responses");
      }
      n.drain();
      auto sent = n.sentSince(mark);
      for (auto &m : sent) observe(m.h());
      if (sent != ws) violation("response", "responses %s expected %s", str(sent).c_str(), str(ws).c_str());
    }
    else if (k < 95)
    {
      learn(n, true);
      if (!us.empty() && R.chance(50)) { int i = R.pick(us); n.ask(evMsg(OPC_EVULN, t.e[i].nn, t.e[i].en)); t.e[i].used = false; }
      else if (!us.empty()) { int i = R.pick(us); std::vector<int> ev = t.e[i].ev; ev[0] = ev[0] ? 0 : 200 + R.range(0, 55); if (t.findEv1(ev[0]) < 0 || ev[0] == 0) teachSlot(n, t, i, t.e[i].nn, t.e[i].en, ev); }
      // give the entry of an event that was just asked for to a similar event
      if (!us.empty() && R.chance(40))
      {
        int i = R.pick(us);
        if (t.e[i].used)
        {
          int nn = t.e[i].nn, en = t.e[i].en, ev1 = t.e[i].ev[0];
          if (nn) n.put(evMsg(OPC_AREQ, nn, en)); else n.put(evMsg(OPC_ASRQ, own, en));
          n.drain();
          changed = {{nn, en}};
          nearly(nn, en);
          if (t.find(nn, en) < 0 && !(nn == 0xFFFF && en == 0xFFFF)) { std::vector<int> ev = t.e[i].ev; ev[0] = ev1; teachSlot(n, t, i, nn, en, ev); changed.push_back({nn, en}); }
        }
      }
      learn(n, false); learning = false;
      count("table_changes");
    }
    else
    {
      int nn = randomOwn();
      n.ask(withNN(OPC_MODE, own, {MODE_SETUP})); n.ask(withNN(OPC_SNN, nn));
      logf("renumber %04X", nn); count("renumbered");
    }
    state(mix(t.h(), n.nn()));
  }
}
