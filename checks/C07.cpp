// Node variables: an isolated array of bytes with checked indices.
#include "model.h"
using namespace vm;

CHECK_DEF(C07, 8000, 120000, "A case is a random history of NV reads, writes and write-and-reads (valid, index 0, out of range, truncated, for other nodes, singly and in bursts) on a random geometry, compared reply by reply and byte by byte with an array model.")
{
  if (C->index == 0)
  {
    Geometry g; g.nvs = 60; g.events = 4; g.services = {S_MNS, S_CAN, S_NV};
    Identity id; World w; w.boot(g, id);
    std::vector<Msg> want = {withNN(OPC_NVANS, id.nn, {0, 60})};
    for (int i = 1; i <= 60; i++) { int v = R.byte(); w.n->ask(withNN(OPC_NVSET, id.nn, {i, v})); want.push_back(withNN(OPC_NVANS, id.nn, {i, v})); }
    longList(*w.n, withNN(OPC_NVRD, id.nn, {0}), want, "all-nvs-replies-exceed-queue");
    return;
  }
  Geometry g = randomGeometry(R.chance(20));
  g.nvs = R.chance(60) ? R.range(1, 25) : R.chance(70) ? R.range(26, 253) : R.pick({0, 254, 255});
  g.nvStart = R.chance(80) ? 10 : R.range(10, 300);
  g.eventsStart = R.chance(50) ? 0 : g.nvStart + g.nvs + R.range(0, 9);
  if (R.chance(60)) g.services = {S_MNS, S_CAN, S_NV};
  Identity id; id.nn = randomOwn(); id.canid = R.range(1, 99);
  World w; w.boot(g, id);
  Node &n = *w.n;
  std::vector<uint8_t> nv(256, 0);
  int own = id.nn, svc = n.nvs->getServiceID();
  int steps = R.range(20, 120);
  std::vector<uint8_t> mem = n.st->mem;
  auto unchangedExcept = [&](int idx, const Msg &m) {
    for (size_t a = 0; a < mem.size(); a++)
      if (mem[a] != n.st->mem[a] && !(idx >= 1 && a == g.nvStart + idx - 1)) violation("nv-command-changed-other-storage", "%s changed storage address %zu", m.str().c_str(), a);
    mem = n.st->mem;
    observe();
  };
  for (int s = 0; s < steps; s++)
  {
    int idx = R.chance(75) && g.nvs ? R.range(1, g.nvs) : R.pick({0, g.nvs, std::min(255, g.nvs + 1), 255, 254, 128});
    bool valid = idx >= 1 && idx <= g.nvs;
    int v = R.byte();
    int nn = R.chance(88) ? own : R.pick({0, own ^ 1, own ^ 0x100, ((own & 255) << 8) | (own >> 8)});
    bool mine = nn == own;
    int k = R.range(0, 99);
    Msg m; std::vector<Msg> want; int changes = -1;
    if (k < 35)
    {
      if (idx == 0 && g.nvs > 27)
      {
        // More replies than the action queue may hold (the known limit): whatever is sent must be true,
        // in order, end with the last variable, and the module must come back to its other work.
        if (!R.chance(40)) continue;
        m = withNN(OPC_NVRD, nn, {0});
        auto got = n.ask(m);
        int at = -1;
        for (auto &x : got)
        {
          observe(x.h());
          if (x.d[0] != OPC_NVANS || x.nn() != own || x.d[3] > g.nvs || x.d[3] <= at || x.d[4] != (x.d[3] == 0 ? g.nvs : nv[x.d[3]]))
            violation("read-all-wrong-reply", "%s with %d variables answered %s after index %d", m.str().c_str(), g.nvs, x.str().c_str(), at);
          at = x.d[3];
        }
        if (mine ? at != g.nvs : !got.empty()) violation("read-all-end", "%s with %d variables: last reply has index %d", m.str().c_str(), g.nvs, at);
        unchangedExcept(-1, m);
        count("read_all_long");
        continue;
      }
      m = withNN(OPC_NVRD, nn, {idx});
      if (mine && idx == 0) { want.push_back(withNN(OPC_NVANS, own, {0, g.nvs})); for (int i = 1; i <= g.nvs; i++) want.push_back(withNN(OPC_NVANS, own, {i, nv[i]})); count("read_all"); }
      else if (mine && valid) { want.push_back(withNN(OPC_NVANS, own, {idx, nv[idx]})); count("reads"); }
      else if (mine) { want = {grsp(n, OPC_NVRD, svc, CMDERR_INV_NV_IDX), cmderr(n, CMDERR_INV_NV_IDX)}; count("reads_rejected"); }
    }
    else if (k < 85)
    {
      bool rd = R.chance(40);
      int op = rd ? OPC_NVSETRD : OPC_NVSET;
      m = withNN(op, nn, {idx, v});
      if (mine && valid) { nv[idx] = v; changes = idx; want = {rd ? withNN(OPC_NVANS, own, {idx, v}) : wrack(n)}; count(rd ? "set_and_reads" : "sets"); }
      else if (mine) { want = {grsp(n, op, svc, CMDERR_INV_NV_IDX), cmderr(n, CMDERR_INV_NV_IDX)}; count("sets_rejected"); }
    }
    else if (k < 92)
    {
      int op = R.pick({OPC_NVRD, OPC_NVSET, OPC_NVSETRD});
      m = withNN(op, own, {idx, v}); m.len = (uint8_t)R.range(3, opLen(op) - 1);
      auto got = n.ask(m);
      logf("truncated %s -> %s", m.str().c_str(), str(got).c_str());
      if (got.size() < 1) violation("truncated-not-answered", "%s not answered", m.str().c_str());
      for (auto &x : got) { observe(x.h()); if (!isError(x)) violation("truncated-accepted", "truncated %s answered %s", m.str().c_str(), str(got).c_str()); }
      unchangedExcept(-1, m);
      count("truncated");
      continue;
    }
    else if (k < 95) { n.restart(); mem = n.st->mem; count("restarts"); continue; }
    else
    {
      // a burst of sets to different variables then read back
      if (g.nvs < 1) continue;
      std::vector<Msg> ws; size_t mark = n.can.tx.size(); mem = n.st->mem;
      for (int b = 0; b < 6; b++) { int i = R.range(1, g.nvs); int x = R.byte(); bool rd = R.chance(50); nv[i] = x; n.put(withNN(rd ? OPC_NVSETRD : OPC_NVSET, own, {i, x})); ws.push_back(rd ? withNN(OPC_NVANS, own, {i, x}) : wrack(n)); }
      n.drain();
      auto got = n.sentSince(mark);
      for (auto &x : got) observe(x.h());
      if (got != ws) violation("nv-burst", "burst of sets answered %s expected %s", str(got).c_str(), str(ws).c_str());
      mem = n.st->mem; count("bursts");
      continue;
    }
    if (R.chance(4)) { int l = m.len; m.len = (uint8_t)R.range(l, 8); for (int i = l; i < m.len; i++) m.d[i] = R.byte(); count("overlong"); } // surplus bytes mean nothing
    if (!mine) count("for_other_nodes");
    expect(n, m, want, "nv-reply");
    unchangedExcept(changes, m);
    uint64_t h = 7; for (int i = 1; i <= g.nvs; i++) h = mix(h, nv[i]);
    state(h);
  }
  for (int i = 1; i <= g.nvs; i++) { observe(nv[i]); if (n.conf->readNV(i) != nv[i]) violation("nv-value", "readNV(%d)=%d expected %d", i, n.conf->readNV(i), nv[i]); }
}
