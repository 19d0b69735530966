// Diagnostics report true counts and valid codes only.
#include "model.h"
using namespace vm;

CHECK_DEF(C16, 7000, 60000, "A case is a random module and a random history of events consumed and produced, teaching, node-number changes, time and transport activity, interleaved with diagnostic requests (single codes, all codes of a service, all services, invalid services and codes, truncated) compared with independent counts kept by the harness. Case 0 asks for everything of a full module, case 1 passes 65536 events. Coverage counts distinct (service type, code, magnitude) answers.")
{
  bool queueCase = C->index == 0, longCase = C->index == 1;
  Geometry g;
  g.events = R.chance(8) ? R.pick({255, 200, 129}) : R.range(2, 20); g.evs = R.range(1, 4); g.nvs = R.range(0, 8);
  std::vector<Svc> rest = {S_MNSD};
  rest.push_back(R.chance(70) ? S_CAND : S_CAN);
  bool all = queueCase || longCase;
  if (all || R.chance(60)) rest.push_back(S_NV);
  bool cons = all || R.chance(75), prod = all || R.chance(75), teach = true;
  if (cons) rest.push_back(R.chance(80) ? S_CONSD : S_CONS);
  if (prod) rest.push_back(R.chance(80) ? S_PRODD : S_PROD);
  if (R.chance(20)) rest.push_back(S_COE);
  rest.push_back(R.chance(80) ? S_TEACHD : S_TEACH);
  if (R.chance(20)) rest.push_back(S_HIDDEN);
  for (size_t i = rest.size(); i > 1; i--) std::swap(rest[i - 1], rest[R.below(i)]);
  if (queueCase) rest = fullServices(true);
  g.services = rest;
  g.produced = 0;
  Identity id; id.nn = randomOwn(); id.canid = R.range(1, 99); id.flags = 0;
  World w; w.boot(g, id);
  Node &n = *w.n;
  bool hasCoe = std::find(rest.begin(), rest.end(), S_COE) != rest.end();
  n.can.rxc = R.pick({0, R.range(0, 70000), 65530}); n.can.txc = R.pick({0, R.range(0, 70000), 65530, 255});
  n.can.rec = R.range(0, 300); n.can.tec = R.range(0, 300); n.can.es = R.range(0, R.chance(50) ? 255 : 65535); if (R.chance(10)) { n.can.rec = R.range(0, 65535); n.can.tec = R.range(0, 65535); }
  sim::now = R.chance(30) ? 0 : R.chance(50) ? R.below(4294900000ul) : R.pick({65535999ul, 65536000ul, 65536999ul, 999ul, 1000ul, 4000000000ul});
  unsigned produced = 0, taught = 0, nnChanges = 0;
  auto svcType = [](Svc s) { switch (s) { case S_MNSD: return 1; case S_NV: return 2; case S_CAN: case S_CAND: return 3; case S_TEACH: case S_TEACHD: return 4; case S_PROD: case S_PRODD: return 5; case S_CONS: case S_CONSD: return 6; case S_COE: return 8; default: return 0; } };
  auto ncodes = [](Svc s) { switch (s) { case S_MNSD: return 6; case S_CAND: return 18; case S_TEACHD: case S_PRODD: case S_CONSD: return 1; default: return 0; } };
  // value of a code at this moment; the request being answered has been received
  auto value = [&](Svc s, int code) -> unsigned {
    unsigned long up = sim::now / 1000;
    switch (s)
    {
      case S_MNSD: return code == 2 ? (up >> 16) & 0xFFFF : code == 3 ? up & 0xFFFF : code == 5 ? nnChanges & 0xFFFF : 0;
      case S_CAND: return code == 1 ? n.can.rec & 0xFFFF : code == 2 ? n.can.tec & 0xFFFF : code == 3 ? n.can.es & 0xFFFF : code == 6 ? n.can.txc & 0xFFFF : code == 9 ? (n.can.rxc + 1) & 0xFFFF : 0;
      case S_TEACHD: return taught & 0xFFFF;
      case S_PRODD: return produced & 0xFFFF;
      case S_CONSD: return n.eventCalls.size() & 0xFFFF;
      default: return 0;
    }
  };
  auto dgn = [&](int idx, int code, unsigned v) { return withNN(OPC_DGN, n.nn(), {idx, code, (int)(v >> 8 & 255), (int)(v & 255)}); };
  auto allOf = [&](int idx) { Svc s = rest[idx - 1]; std::vector<Msg> v; v.push_back(dgn(idx, 0, ncodes(s))); for (int c = 1; c <= ncodes(s); c++) v.push_back(dgn(idx, c, value(s, c))); return v; };
  auto inOrder = [&](const Msg &m, const std::vector<Msg> &want, const char *key) {
    auto got = n.ask(m);
    logf("%s -> %s", m.str().c_str(), str(got).c_str());
    for (auto &x : got) observe(x.h());
    observe(want.size());
    if (got != want) violation(key, "after %s expected %s got %s", m.str().c_str(), str(want).c_str(), str(got).c_str());
  };
  auto error = [&](const Msg &m, int code, int idx, const char *key) {
    auto got = n.ask(m);
    logf("%s -> %s", m.str().c_str(), str(got).c_str());
    observe(got.size());
    bool ok = got.size() == 1 && got[0].op() == OPC_GRSP && got[0].len == 6 && got[0].nn() == n.nn() && got[0].d[3] == OPC_RDGN && got[0].d[5] == code;
    // the third byte names the service: its type or index, or the node service
    if (ok) ok = got[0].d[4] == 1 || (idx > 0 && (got[0].d[4] == idx || got[0].d[4] == svcType(rest[idx - 1])));
    if (!ok) violation(key, "after %s got %s", m.str().c_str(), str(got).c_str());
  };
  auto nns = usualNNs(id.nn); auto ens = usualENs();
  auto produce = [&](int v) {
    size_t mark = n.can.tx.size();
    sendEvent(n, R.chance(50), v, randomData()); n.drain();
    for (auto &m : n.sentSince(mark)) if (std::find(eventOps().begin(), eventOps().end(), m.op()) != eventOps().end()) produced++;
  };
  auto teachOne = [&] {
    size_t mark = n.can.tx.size();
    n.ask(randomConfigCommand(n, nns, ens));
    for (auto &m : n.sentSince(mark)) if (m.op() == OPC_GRSP && m.len == 6 && (m.d[3] == OPC_EVLRN || m.d[3] == OPC_EVLRNI) && m.d[5] == GRSP_OK) taught++;
  };
  if (queueCase)
  {
    std::vector<Msg> want; for (size_t i = 1; i <= rest.size(); i++) { auto v = allOf((int)i); want.insert(want.end(), v.begin(), v.end()); }
    longList(n, withNN(OPC_RDGN, id.nn, {0, 0}), want, "all-services-replies-exceed-queue");
    return;
  }
  if (longCase)
  {
    learn(n, true); n.ask(evMsg(OPC_EVLRN, 7, 7, {1, 0})); taught++; learn(n, false);
    int pc = 0, cc = 0, tc = 0; for (size_t i = 0; i < rest.size(); i++) { if (rest[i] == S_PRODD) pc = (int)i + 1; if (rest[i] == S_CONSD) cc = (int)i + 1; if (rest[i] == S_TEACHD) tc = (int)i + 1; }
    learn(n, true);
    for (int i = 1; i <= 66000; i++)
    {
      sendEvent(n, true, 1, {}); n.drain(); produced++;
      n.can.rx.push_back(Node::frame(evMsg(OPC_ACON, 7, 7))); n.drain();
      n.can.rx.push_back(Node::frame(evMsg(OPC_EVLRN, 7, 7, {1, 0}))); n.drain(); taught++;
      if (i % 4000 == 0 || (i > 65530 && i < 65540) || i == 256)
      {
        n.drain(); n.can.tx.clear();
        for (int k : {pc, cc, tc}) if (k) { inOrder(withNN(OPC_RDGN, id.nn, {k, 1}), {dgn(k, 1, value(rest[k - 1], 1))}, "long-count"); count("long_counts"); }
        if (n.eventCalls.size() < (size_t)i) violation("long-consumed", "%zu handler calls after %d events", n.eventCalls.size(), i);
      }
    }
    return;
  }
  if (R.chance(60)) { w.fill(g.events > 20 ? R.range(10, 60) : R.range(0, g.events), nns, ens, 50); taught = 0; for (auto &s : n.sentSince(0)) if (s.op() == OPC_GRSP && (s.d[3] == OPC_EVLRN || s.d[3] == OPC_EVLRNI) && s.d[5] == GRSP_OK) taught++; }
  if (g.events > 20) count("large_tables");
  bool big = R.chance(4);
  int steps = R.range(15, 50);
  for (int s = 0; s < steps; s++)
  {
    int reps = big ? R.range(1, 80) : R.range(1, 5);
    switch (R.range(0, 11))
    {
      case 0: for (int i = 0; i < reps; i++) { byte b[4]; std::vector<int> us; for (int k = 0; k < g.events; k++) if (n.conf->getEvTableEntry((byte)k)) us.push_back(k); if (us.empty()) break; n.conf->readEvent((byte)R.pick(us), b); Msg m = producedMsg(R.chance(50), b[0] << 8 | b[1], b[2] << 8 | b[3], 0x0777, randomData()); if (R.chance(20)) m.d[4] ^= 1; n.ask(m); } count("consume"); break;
      case 1: if (prod) { for (int i = 0; i < reps; i++) produce(R.range(1, 10)); count("produce"); } break;
      case 2: learn(n, R.chance(80)); for (int i = 0; i < reps; i++) teachOne(); if (R.chance(70)) learn(n, false); count("teach"); break;
      case 3: for (int i = 0; i < reps; i++) { n.ask(withNN(OPC_MODE, n.nn(), {MODE_SETUP})); if (R.chance(80)) { int to = randomOwn(); auto got = n.ask(withNN(OPC_SNN, to)); nnChanges++; if (n.nn() != to) violation("renumber", "SNN %04X not accepted: %s", to, str(got).c_str()); } else n.ask({OPC_RQNN, 0, 5}); n.ask(withNN(OPC_SNN, randomOwn())); } count("renumber"); break;
      case 4: sim::now += R.pick({1, 999, 1000, 65536000, 12345678}); if (R.chance(50)) { n.can.rec += R.range(0, 5); n.can.tec += R.range(0, 5); n.can.es = R.byte(); } n.drain(3); break;
      case 5: case 6: case 7:
      {
        int idx = R.range(1, (int)rest.size()); Svc sv = rest[idx - 1];
        if (svcType(sv) == 0) { error(withNN(OPC_RDGN, n.nn(), {idx, R.range(0, 5)}), GRSP_INVALID_SERVICE, 0, "hidden-service"); count("hidden"); break; }
        int c = ncodes(sv) ? R.range(1, ncodes(sv)) : 1;
        if (ncodes(sv) && R.chance(85)) { unsigned v = value(sv, c); inOrder(withNN(OPC_RDGN, n.nn(), {idx, c}), {dgn(idx, c, v)}, "value"); state(mix(mix(svcType(sv), c), v > 255 ? 2 : v > 0)); count("values"); }
        else { c = R.pick({ncodes(sv) + 1, R.range(ncodes(sv) + 1, 255), 255, 128}); error(withNN(OPC_RDGN, n.nn(), {idx, c}), GRSP_INVALID_DIAGNOSTIC, idx, "invalid-code"); count("invalid_codes"); }
        break;
      }
      case 8: case 9:
      {
        int idx = R.range(1, (int)rest.size());
        if (svcType(rest[idx - 1]) == 0) break;
        inOrder(withNN(OPC_RDGN, n.nn(), {idx, 0}), allOf(idx), "all-codes"); count("all_codes");
        break;
      }
      case 10:
      {
        if (R.chance(50)) { error(withNN(OPC_RDGN, n.nn(), {R.pick({(int)rest.size() + 1, 255, 128, R.range((int)rest.size() + 1, 255)}), R.range(0, 5)}), GRSP_INVALID_SERVICE, 0, "invalid-service"); count("invalid_service"); break; }
        std::vector<Msg> want; for (size_t i = 1; i <= rest.size(); i++) if (svcType(rest[i - 1])) { auto v = allOf((int)i); want.insert(want.end(), v.begin(), v.end()); }
        if (want.size() > 28) break;
        inOrder(withNN(OPC_RDGN, n.nn(), {0, R.chance(50) ? 0 : R.range(0, 20)}), want, "all-services"); count("all_services");
        break;
      }
      case 11:
        if (R.chance(50)) { Msg m = withNN(OPC_RDGN, n.nn(), {R.range(0, 5)}); m.len = (uint8_t)R.range(3, 4); error(m, CMDERR_INV_CMD, 0, "truncated"); count("truncated"); }
        else { inOrder(withNN(OPC_RDGN, (n.nn() + 1) & 0xFFFF, {1, 1}), {}, "other-node"); n.ask({OPC_QNN}); }
        break;
    }
  }
  (void)hasCoe; (void)teach;
}
