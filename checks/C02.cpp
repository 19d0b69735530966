// Event table as a bounded map under teach, unlearn, clear and read.
#include "model.h"
using namespace vm;

namespace {
struct U { std::vector<int> nns, ens; };

Table t;
Node *n;
int svc;
bool learning;
std::vector<std::pair<int, int>> gone;   // identities whose entry was deleted or given to another event

// Expected replies of one command; updates the model. `created` is set to true when a new entry must be located.
struct Effect { std::vector<Msg> want; bool created = false, deleted = false; int nn = 0, en = 0, ev = 0, val = 0; };

Effect apply(const Msg &m)
{
  Effect x;
  int nn = m.nn(), en = m.en();
  switch (m.op())
  {
    case OPC_NNLRN: learning = nn == n->nn(); break;
    case OPC_NNULN: if (nn == n->nn()) learning = false; break;
    case OPC_EVLRN:
    {
      if (!learning) break;
      int ev = m.d[5], v = m.d[6];
      if (ev == 0 || ev > t.evs) { x.want = errReply(*n, OPC_EVLRN, svc, CMDERR_INV_EV_IDX); break; }
      if (ev == 1 && v > 0 && t.findEv1(v) >= 0)
      {
        Entry &e = t.e[t.findEv1(v)];
        gone.push_back({e.nn, e.en});
        e.nn = nn; e.en = en;
        x.want = okReply(*n, OPC_EVLRN, svc); count("op_reteach_by_ev1"); break;
      }
      int i = t.find(nn, en);
      if (i >= 0) { t.e[i].ev[ev - 1] = v; x.want = okReply(*n, OPC_EVLRN, svc); count("op_update"); break; }
      if (t.used() == t.size()) { x.want = errReply(*n, OPC_EVLRN, svc, CMDERR_TOO_MANY_EVENTS); count("op_full"); break; }
      x.want = okReply(*n, OPC_EVLRN, svc);
      x.created = true; x.nn = nn; x.en = en; x.ev = ev; x.val = v; count("op_create");
      break;
    }
    case OPC_EVLRNI:
    {
      if (!learning) break;
      int idx = m.d[5], ev = m.d[6], v = m.d[7];
      if (idx >= t.size()) { x.want = {grsp(*n, OPC_EVLRNI, svc, CMDERR_INV_EN_IDX)}; break; }
      if (ev == 0 || ev > t.evs) { x.want = errReply(*n, OPC_EVLRNI, svc, CMDERR_INV_EV_IDX); break; }
      Entry &e = t.e[idx];
      if (!e.used) { e.used = true; e.ev.assign(t.evs, -1); }
      else gone.push_back({e.nn, e.en});
      e.nn = nn; e.en = en; e.ev[ev - 1] = v;
      x.want = okReply(*n, OPC_EVLRNI, svc); count("op_teach_index");
      break;
    }
    case OPC_EVULN:
    {
      if (!learning) break;
      int i = t.find(nn, en);
      if (i < 0) { x.want = errReply(*n, OPC_EVULN, svc, CMDERR_INVALID_EVENT); count("op_unlearn_missing"); break; }
      t.e[i].used = false; t.e[i].ev.assign(t.evs, -1);
      gone.push_back({nn, en});
      x.want = okReply(*n, OPC_EVULN, svc); count("op_unlearn");
      break;
    }
    case OPC_NNCLR:
      if (nn != n->nn()) break;
      if (!learning) { x.want = errReply(*n, OPC_NNCLR, svc, CMDERR_NOT_LRN); break; }
      for (auto &e : t.e) { e.used = false; e.ev.assign(t.evs, -1); }
      x.want = okReply(*n, OPC_NNCLR, svc); count("op_clear");
      break;
    case OPC_REQEV:
    {
      if (!learning) break;
      int i = t.find(nn, en), ev = m.d[5];
      if (i < 0) { x.want = errReply(*n, OPC_REQEV, svc, CMDERR_INVALID_EVENT); break; }
      if (ev > t.evs) { x.want = errReply(*n, OPC_REQEV, svc, CMDERR_INV_EV_IDX); break; }
      if (ev == 0)
      {
        x.want.push_back(evMsg(OPC_EVANS, nn, en, {0, t.evs}));
        for (int k = 1; k <= t.evs; k++) x.want.push_back(evMsg(OPC_EVANS, nn, en, {k, t.e[i].ev[k - 1]}));
        count("op_read_all_evs");
      }
      else { x.want.push_back(evMsg(OPC_EVANS, nn, en, {ev, t.e[i].ev[ev - 1]})); count("op_read_ev"); }
      break;
    }
    case OPC_REVAL:
    {
      if (nn != n->nn()) break;
      int idx = m.d[3], ev = m.d[4];
      if (idx >= t.size() || !t.e[idx].used) { x.want = errReply(*n, OPC_REVAL, svc, CMDERR_INV_EN_IDX); break; }
      if (ev > t.evs) { x.want = errReply(*n, OPC_REVAL, svc, CMDERR_INV_EV_IDX); break; }
      if (ev == 0)
      {
        x.want.push_back(withNN(OPC_NEVAL, nn, {idx, 0, t.evs}));
        for (int k = 1; k <= t.evs; k++) x.want.push_back(withNN(OPC_NEVAL, nn, {idx, k, t.e[idx].ev[k - 1]}));
        count("op_index_read_all_evs");
      }
      else x.want.push_back(withNN(OPC_NEVAL, nn, {idx, ev, t.e[idx].ev[ev - 1]}));
      break;
    }
    case OPC_NENRD:
    {
      if (nn != n->nn()) break;
      int idx = m.d[3];
      if (idx >= t.size() || !t.e[idx].used) x.want = errReply(*n, OPC_NENRD, svc, CMDERR_INV_EN_IDX);
      else x.want = {withNN(OPC_ENRSP, nn, {t.e[idx].nn >> 8, t.e[idx].nn & 255, t.e[idx].en >> 8, t.e[idx].en & 255, idx})};
      break;
    }
  }
  return x;
}

// Read the event variables that the model does not know.
void adopt()
{
  for (int i = 0; i < t.size(); i++) if (t.e[i].used) for (int v = 1; v <= t.evs; v++) if (t.e[i].ev[v - 1] < 0)
  {
    auto got = n->ask(withNN(OPC_REVAL, n->nn(), {i, v}));
    if (got.size() != 1 || got[0].op() != OPC_NEVAL || got[0].d[3] != i || got[0].d[4] != v)
      violation("read-ev-of-new-event", "REVAL %d %d answered %s; table %s", i, v, str(got).c_str(), t.str().c_str());
    t.e[i].ev[v - 1] = got[0].d[5];
  }
}

// Reading all event variables when there are more than the action queue may hold (the known limit):
// whatever is sent must be true, in order and end with the last variable.
void readAllLong(const Msg &m, const Effect &x)
{
  auto got = n->ask(m);
  size_t at = 0;
  for (auto &r : got)
  {
    observe(r.h());
    while (at < x.want.size() && x.want[at] != r) at++;
    if (at == x.want.size()) violation("read-all-wrong-reply", "%s with %d event variables answered %s", m.str().c_str(), t.evs, r.str().c_str());
  }
  if (got.empty() || got.back() != x.want.back()) violation("read-all-end", "%s with %d event variables does not end with the last one", m.str().c_str(), t.evs);
  count("op_read_all_evs_long");
}

void locate(const Effect &x)
{
  int idx = n->conf->findExistingEvent(x.nn, x.en);
  if (idx >= t.size()) violation("taught-event-not-found", "acknowledged teaching of %04X/%04X ev %d but the event is not found; table %s", x.nn, x.en, x.ev, t.str().c_str());
  if (t.e[idx].used) violation("taught-event-overwrote", "teaching %04X/%04X took the used slot %d; table %s", x.nn, x.en, idx, t.str().c_str());
  t.e[idx].used = true; t.e[idx].nn = x.nn; t.e[idx].en = x.en; t.e[idx].ev.assign(t.evs, -1); t.e[idx].ev[x.ev - 1] = x.val;
}

Msg genCmd(const U &u)
{
  int own = n->nn();
  int nn = R.pick(u.nns), en = R.pick(u.ens);
  // most of the time address a stored event
  std::vector<int> us; for (int i = 0; i < t.size(); i++) if (t.e[i].used) us.push_back(i);
  bool existing = !us.empty() && R.chance(45);
  int slot = -1;
  if (existing) { slot = R.pick(us); nn = t.e[slot].nn; en = t.e[slot].en; if (R.chance(25)) nearly(nn, en); }
  else if (!gone.empty() && R.chance(25)) { size_t i = gone.size() - 1 - R.below(std::min<size_t>(gone.size(), 3)); nn = gone[i].first; en = gone[i].second; }
  int ev = R.chance(85) ? R.range(1, t.evs ? t.evs : 1) : R.pick({0, t.evs + 1, 255, t.evs});
  if (ev > 255) ev = 255;
  int val = R.chance(50) ? R.range(0, 6) : R.byte();
  int idx = R.chance(85) && t.size() ? (int)R.below(t.size()) : R.pick({t.size() & 255, 255, 254});
  if (slot >= 0 && R.chance(30)) idx = slot;
  int k = R.range(0, 99);
  if (k < 40) return evMsg(OPC_EVLRN, nn, en, {ev, val});
  if (k < 60) return evMsg(OPC_EVLRNI, nn, en, {idx, ev, val});
  if (k < 74) return evMsg(OPC_EVULN, nn, en);
  if (k < 76) return withNN(OPC_NNCLR, R.chance(90) ? own : nn);
  if (k < 82) return evMsg(OPC_REQEV, nn, en, {R.chance(30) ? 0 : ev ? ev : 1});
  if (k < 88) return withNN(OPC_REVAL, own, {idx, R.chance(30) ? 0 : ev ? ev : 1});
  if (k < 92) return withNN(OPC_NENRD, own, {idx});
  if (k < 95) return withNN(OPC_NNULN, R.chance(70) ? own : nn);
  return withNN(OPC_NNLRN, R.chance(80) ? own : nn);
}

// Commands whose outcome the documentation leaves open are not generated (see DESIGN.md C02).
bool wellDefined(const Msg &m)
{
  int nn = m.nn(), en = m.en();
  if ((m.op() == OPC_EVLRN || m.op() == OPC_EVLRNI) && learning)
  {
    if (nn == 0xFFFF && en == 0xFFFF) return false;
    int ev, v;
    if (m.op() == OPC_EVLRN)
    {
      ev = m.d[5]; v = m.d[6];
      if (ev == 1 && v > 0)
      {
        if (t.countEv1(v) > 1 || t.countEv1(-1) > 0) return false;
        int i = t.findEv1(v), j = t.find(nn, en);
        if (i >= 0 && j >= 0 && i != j) return false; // would duplicate a stored event: directed case
      }
    }
    else
    {
      int idx = m.d[5]; ev = m.d[6]; v = m.d[7];
      if (idx < t.size() && ev >= 1 && ev <= t.evs)
      {
        int j = t.find(nn, en);
        if (j >= 0 && j != idx) return false;
      }
    }
  }
  return true;
}

void setup(Geometry g, int nn)
{
  n = new Node(g);
  Identity id; id.nn = nn; id.canid = R.range(1, 99); n->preset(id);
  n->boot(); n->drain();
  t.init(g);
  svc = n->teach->getServiceID();
  learning = false; gone.clear();
  logf("geometry %s nn=%04X", g.str().c_str(), nn);
}

// Directed case: re-teaching a produced event (by EV1) to the identity of another stored event.
void directedDuplicate()
{
  Geometry g; g.events = 4; g.evs = 2; g.services = fullServices(true);
  setup(g, 0x0104);
  n->ask(withNN(OPC_NNLRN, n->nn()));
  n->ask(evMsg(OPC_EVLRN, 0x0200, 1, {1, 7}));
  n->ask(evMsg(OPC_EVLRN, 0x0300, 2, {1, 0}));
  auto got = n->ask(evMsg(OPC_EVLRN, 0x0300, 2, {1, 7}));
  observe(got.size());
  auto list = n->ask(withNN(OPC_NERD, n->nn()));
  logf("listing after re-teach: %s", str(list).c_str());
  std::set<std::vector<int>> ids;
  for (auto &m : list) { observe(m.h()); if (!ids.insert({m.d[3], m.d[4], m.d[5], m.d[6]}).second) violation("reteach-by-ev1-duplicates-stored-event", "EVLRN 0300/0002 ev1=7 left two entries for one event: %s", str(list).c_str()); }
}

// Directed case: the all-ones event identity, which is the marker of a free slot.
void directedAllOnes()
{
  Geometry g; g.events = 4; g.evs = 2; g.services = fullServices(true);
  setup(g, 0x0104);
  n->ask(withNN(OPC_NNLRN, n->nn()));
  auto got = n->ask(evMsg(OPC_EVLRN, 0xFFFF, 0xFFFF, {1, 7}));
  bool ok = false; for (auto &m : got) { ok |= isPositive(m); observe(m.h()); }
  auto list = n->ask(withNN(OPC_NERD, n->nn()));
  logf("teach FFFF/FFFF: %s, listing %s", str(got).c_str(), str(list).c_str());
  observe(list.size());
  if (ok && list.empty()) violation("teach-all-ones-acknowledged-but-not-stored", "EVLRN FFFF/FFFF was acknowledged but the event is not stored");
}

// Directed case: listing more events than the action queue holds.
void directedLongListing()
{
  Geometry g; g.events = 60; g.evs = 1; g.services = fullServices(true);
  setup(g, 0x0104);
  n->ask(withNN(OPC_NNLRN, n->nn()));
  std::vector<Msg> want;
  for (int i = 0; i < 50; i++) { n->ask(evMsg(OPC_EVLRN, 0x0200, i + 1, {1, 0})); want.push_back(withNN(OPC_ENRSP, n->nn(), {2, 0, 0, i + 1, i})); }
  longList(*n, withNN(OPC_NERD, n->nn()), want, "listing-replies-exceed-queue");
}
}

CHECK_DEF(C02, 8000, 120000, "A case is a random history of teach/teach-by-index/unlearn/clear/read commands, in and out of learn mode and partly in bursts, on a random table geometry, compared reply by reply with a map model and audited through every read path.")
{
  if (C->index == 0) { directedDuplicate(); return; }
  if (C->index == 1) { directedAllOnes(); return; }
  if (C->index == 2) { directedLongListing(); return; }
  Geometry g;
  int k = R.range(0, 99);
  g.events = k < 45 ? R.range(1, 6) : k < 80 ? R.range(5, 25) : k < 92 ? R.range(26, 130) : R.range(131, 255);
  g.evs = R.chance(70) ? R.range(1, 4) : R.chance(70) ? R.range(5, 24) : R.chance(50) ? R.range(25, 60) : 0;
  if ((long)g.events * (4 + g.evs) > 7000) g.evs = R.range(1, 4);
  if (R.chance(2)) { g.events = R.range(1, 6); g.evs = R.pick({100, 251, 252, 254, 255}); count("very_many_event_variables"); }
  g.nvs = R.range(0, 20);
  if (R.chance(30)) g.eventsStart = g.nvStart + g.nvs + R.range(0, 50);
  g.services = fullServices(R.chance(70), R.chance(30));
  int own = R.chance(40) ? R.range(1, 65534) : R.pick({0x0104, 0x0100, 1, 0xFE00, 0x8000, 0x00FF});
  setup(g, own);

  U u;
  u.nns = {0, own, ((own & 255) << 8) | (own >> 8), (own + 128) & 0xFFFF, 0x0200, 0x0300, 0x0203, 0xFFFF};
  u.ens = {0, 1, 2, 0x0100, 129, 0x0101, 256 + 129, 0xFFFF, R.range(0, 65535)};
  int extra = g.events > 12 ? g.events : 0;
  for (int i = 0; i < extra; i++) u.ens.push_back(R.chance(50) ? i : R.range(0, 65535));

  int ops = R.chance(80) ? R.range(10, 60) : R.range(60, 200);
  if (R.chance(90)) { n->ask(withNN(OPC_NNLRN, own)); learning = true; }
  // sometimes start with a nearly full table
  if (learning && t.evs > 0 && R.chance(40))
  {
    int target = R.chance(60) ? t.size() - (int)R.below(3) : (int)R.below(t.size() + 1);
    for (int i = 0; i < target; i++)
    {
      int nn = R.pick(u.nns), en = R.chance(50) ? R.pick(u.ens) : i * 7 + 3;
      Msg m = evMsg(OPC_EVLRN, nn, en, {1, 0});
      if (!wellDefined(m) || t.find(nn, en) >= 0) continue;
      Effect x = apply(m);
      expect(*n, m, x.want, "teach-replies");
      if (x.created) locate(x);
    }
    adopt();
    count("prefilled_tables");
  }
  std::deque<Msg> script;
  for (int i = 0; i < ops; i++)
  {
    adopt();
    if (script.empty() && R.chance(10))
    {
      // a burst delivered before the module gets to process any of it
      std::vector<Msg> want;
      size_t mark = n->can.tx.size();
      bool needLocate = false; Effect last;
      int len = R.range(2, 4);
      for (int b = 0; b < len && !needLocate; b++)
      {
        Msg m = genCmd(u);
        if ((m.op() == OPC_REQEV && m.d[5] == 0) || (m.op() == OPC_REVAL && m.d[4] == 0) || !wellDefined(m)) continue;
        if (m.op() == OPC_REQEV || m.op() == OPC_REVAL) continue; // may read a value still to be adopted
        Effect x = apply(m);
        want.insert(want.end(), x.want.begin(), x.want.end());
        n->put(m);
        logf("burst %s", m.str().c_str());
        if (x.created) { needLocate = true; last = x; }
      }
      n->drain();
      auto got = n->sentSince(mark);
      for (auto &m : got) observe(m.h());
      if (!sameSet(got, want)) violation("burst-replies", "burst expected %s got %s", str(want).c_str(), str(got).c_str());
      if (needLocate) locate(last);
      count("bursts");
    }
    else
    {
      // now and then look an event up, give its entry to a similar one, and look both up again
      if (script.empty() && learning && t.used() && t.evs > 0 && R.chance(8))
      {
        std::vector<int> us; for (int k = 0; k < t.size(); k++) if (t.e[k].used) us.push_back(k);
        int a = R.pick(us), nn = t.e[a].nn, en = t.e[a].en;
        nearly(nn, en);
        script.push_back(evMsg(OPC_REQEV, t.e[a].nn, t.e[a].en, {1}));
        if (R.chance(70)) script.push_back(evMsg(OPC_EVLRNI, nn, en, {a, R.range(1, t.evs), 0}));
        else { script.push_back(evMsg(OPC_EVULN, t.e[a].nn, t.e[a].en)); script.push_back(evMsg(OPC_EVLRN, nn, en, {1, 0})); }
        script.push_back(evMsg(OPC_REQEV, t.e[a].nn, t.e[a].en, {1}));
        if (R.chance(50)) { script.push_back(evMsg(OPC_REQEV, nn, en, {1})); script.push_back(evMsg(OPC_EVULN, nn, en)); script.push_back(evMsg(OPC_REQEV, nn, en, {1})); }
        count("lookups_around_replacement");
      }
      Msg m = script.empty() ? genCmd(u) : script.front();
      if (!script.empty()) script.pop_front();
      if (!wellDefined(m)) { count("avoided_undocumented"); continue; }
      Effect x = apply(m);
      if (x.want.size() > 25) { readAllLong(m, x); continue; }
      expect(*n, m, x.want, "teach-replies");
      if (x.created) locate(x);
    }
    state(t.h());
    if (R.chance(t.size() > 30 ? 2 : 8)) auditTable(*n, t, "mid");
    int cnt = n->conf->numEvents();
    observe(cnt);
    if (cnt != t.used()) violation("count", "numEvents()=%d, model has %d: %s", cnt, t.used(), t.str().c_str());
  }
  adopt();
  auditTable(*n, t, "end");
  // events that are not stored are not found
  for (int i = 0; i < 10; i++)
  {
    int nn = R.pick(u.nns), en = R.pick(u.ens);
    int f = n->conf->findExistingEvent(nn, en), want = t.find(nn, en);
    observe(f);
    if (want < 0 ? f != t.size() : f != want) violation("lookup", "findExistingEvent(%04X,%04X)=%d, model %d: %s", nn, en, f, want, t.str().c_str());
  }
}
