// A produced event is always sent as the event currently assigned to its source.
#include "model.h"
using namespace vm;

CHECK_DEF(C05, 8000, 120000, "A case is a random history of send requests for random sources with 0-3 data bytes, interleaved with teaching, renaming, unlearning, clearing, node-number changes and restarts, from a virgin or configured module; every transmitted event is compared with the event the table assigns to its source.")
{
  World w;
  Geometry g = randomGeometry(R.chance(25));
  if (R.chance(50)) g.events = R.range(1, 8);
  g.produced = R.chance(40) ? R.range(0, 6) : 0;
  if (R.chance(3)) { g.produced = R.pick({254, 255}); g.events = R.pick({10, 255}); g.evs = 2; }
  Identity id; id.nn = randomOwn(); id.canid = R.range(1, 99);
  bool fresh = R.chance(40);
  if (fresh) { id.mode = MODE_UNINITIALISED; id.nn = 0; id.canid = 0; }
  w.boot(g, id);
  Node &n = *w.n;
  Table &t = w.t;
  n.st->limit = g.end();
  int own = id.nn;

  // The module's own view of the entry holding source v; slot identity is not prescribed.
  auto locateEv1 = [&](int v) { int f = -1; for (int i = 0; i < t.size(); i++) if (n.conf->getEvTableEntry(i) != 0 && n.conf->getEventEVval(i, 1) == v) { if (f >= 0) return -2; f = i; } return f; };
  auto readSlot = [&](int i) { byte b[4]; n.conf->readEvent(i, b); Entry e; e.used = true; e.nn = b[0] << 8 | b[1]; e.en = b[2] << 8 | b[3]; for (int k = 1; k <= t.evs; k++) e.ev.push_back(n.conf->getEventEVval(i, k)); return e; };
  auto adoptNew = [&](int v) {
    int i = locateEv1(v);
    if (i < 0) violation("default-event-missing", "no (or more than one) table entry for source %d after its event was created", v);
    if (t.e[i].used) violation("default-event-overwrote", "creating the default event of source %d took the used slot %d: %s", v, i, t.str().c_str());
    Entry e = readSlot(i);
    if (e.nn != own) violation("default-event-nn", "default event of source %d has node number %04X, own is %04X", v, e.nn, own);
    if (t.find(e.nn, e.en) >= 0) violation("default-event-duplicate", "default event of source %d reuses the stored event %04X/%04X", v, e.nn, e.en);
    for (size_t k = 1; k < e.ev.size(); k++) if (e.ev[k] != 0) violation("default-event-variable", "default event of source %d starts with EV%zu = %d", v, k + 1, e.ev[k]);
    if (e.en == 0) violation("default-event-zero", "default event of source %d has event number 0", v);
    t.e[i] = e;
    observe(mix(e.nn, e.en));
    count("default_events_created");
  };
  auto audit = [&](const char *what) {
    for (int i = 0; i < t.size(); i++)
    {
      bool used = n.conf->getEvTableEntry(i) != 0;
      observe(used);
      if (used != t.e[i].used) violation("table-disturbed", "%s: slot %d is %s, expected %s; %s", what, i, used ? "used" : "free", t.e[i].used ? "used" : "free", t.str().c_str());
      if (!used) continue;
      Entry e = readSlot(i);
      if (e.nn != t.e[i].nn || e.en != t.e[i].en || e.ev != t.e[i].ev) violation("table-disturbed", "%s: slot %d changed to %04X/%04X; %s", what, i, e.nn, e.en, t.str().c_str());
    }
  };

  if (fresh)
  {
    n.ctl->putAction(VLCB::ACT_CHANGE_MODE);
    n.drain(); sim::now += 200; n.drain();
    own = randomOwn();
    n.ask(withNN(OPC_SNN, own));
    if (n.nn() != own) violation("setup-failed", "SNN not accepted");
    int want = std::min(g.produced, g.events);
    for (int v = 1; v <= want; v++) adoptNew(v);
    if (n.conf->numEvents() != want) violation("default-events-count", "%d default events after commissioning, expected %d", n.conf->numEvents(), want);
    count("commissioned");
  }
  else w.fill(R.range(0, g.events < 20 ? g.events : 20), usualNNs(own), usualENs());
  audit("start");
  uint8_t guard[64]; memcpy(guard, &n.st->mem[g.end()], 64);

  auto sources = [&] { std::vector<int> s; for (auto &e : t.e) if (e.used && e.ev[0] > 0) s.push_back(e.ev[0]); return s; };
  int steps = R.range(10, 60);
  for (int s = 0; s < steps; s++)
  {
    int k = R.range(0, 99);
    if (k < 65)
    {
      auto src = sources();
      int v = !src.empty() && R.chance(75) ? R.pick(src) : R.chance(70) ? R.range(1, 8) : R.range(1, 255);
      int num = R.chance(80) ? 1 : R.range(2, 8);
      std::vector<Msg> want;
      size_t mark = n.can.tx.size();
      for (int b = 0; b < num; b++)
      {
        if (b > 0 && R.chance(50) && !src.empty()) v = R.pick(src);
        bool on = R.chance(50); auto d = randomData();
        int i = t.findEv1(v);
        bool full = i < 0 && t.used() == t.size();
        sendEvent(n, on, v, d);
        if (i < 0 && !full) { adoptNew(v); i = t.findEv1(v); }
        logf("send source %d %s data %zu", v, on ? "on" : "off", d.size());
        if (full) { count("sends_without_room"); continue; }
        want.push_back(producedMsg(on, t.e[i].nn, t.e[i].en, own, d));
        count(t.e[i].nn == 0 ? "short_events_sent" : "long_events_sent");
      }
      n.drain();
      auto got = n.sentSince(mark);
      for (auto &m : got) observe(m.h());
      observe(want.size());
      if (got != want) violation("produced-event", "sent %s expected %s; table %s", str(got).c_str(), str(want).c_str(), t.str().c_str());
    }
    else if (k < 75)
    {
      // rename a produced event by its EV1, as configuration tools do
      auto src = sources();
      int nn = R.pick(usualNNs(own)), en = R.pick(usualENs());
      if (src.empty() || (nn == 0xFFFF && en == 0xFFFF)) continue;
      int v = R.pick(src);
      if (int other = t.find(nn, en); other >= 0)
      {
        // another entry has that event too: the source still takes it; it then gets one of its own
        if (other == t.findEv1(v)) continue;
        learn(n, true); n.ask(evMsg(OPC_EVLRN, nn, en, {1, v})); learn(n, false);
        size_t mark = n.can.tx.size();
        sendEvent(n, false, v, {}); n.drain();
        auto got = n.sentSince(mark);
        observe(got.size());
        std::vector<Msg> want = {producedMsg(false, nn, en, own, {})};
        if (got != want) violation("produced-event-after-rename", "source %d taught the event %04X/%04X of entry %d: sent %s expected %s", v, nn, en, other, str(got).c_str(), str(want).c_str());
        count("renamed_to_existing");
        do { nn = R.range(1, 0xFFFE); en = R.range(0, 0xFFFF); } while (t.find(nn, en) >= 0);
      }
      learn(n, true);
      n.ask(evMsg(OPC_EVLRN, nn, en, {1, v}));
      learn(n, false);
      int i = t.findEv1(v); t.e[i].nn = nn; t.e[i].en = en;
      logf("rename source %d to %04X/%04X", v, nn, en);
      count("renamed");
      // the module may have used the entry before; make sure it now sends the new identity
      size_t mark = n.can.tx.size();
      sendEvent(n, true, v, {}); n.drain();
      std::vector<Msg> want = {producedMsg(true, nn, en, own, {})};
      auto got = n.sentSince(mark);
      observe(got.size());
      if (got != want) violation("produced-event-after-rename", "sent %s expected %s", str(got).c_str(), str(want).c_str());
    }
    else if (k < 83)
    {
      std::vector<int> us; for (int i = 0; i < t.size(); i++) if (t.e[i].used) us.push_back(i);
      if (us.empty()) continue;
      int i = R.pick(us);
      learn(n, true); n.ask(evMsg(OPC_EVULN, t.e[i].nn, t.e[i].en)); learn(n, false);
      t.e[i].used = false; logf("unlearn slot %d", i); count("unlearned");
    }
    else if (k < 86)
    {
      bool raised = R.chance(50); if (raised) n.conf->setResetFlag(); else n.conf->clearResetFlag();
      learn(n, true); n.ask(withNN(OPC_NNCLR, own)); learn(n, false);
      if (!n.conf->isResetFlagSet()) violation("reset-flag", "clearing all events left the reset flag down, so that the sketch will not create its default events");
      for (auto &e : t.e) e.used = false;
      logf("clear"); count("cleared");
    }
    else if (k < 91)
    {
      int nn = randomOwn();
      n.ask(withNN(OPC_MODE, own, {MODE_SETUP})); n.ask(withNN(OPC_SNN, nn));
      if (n.nn() != nn) violation("renumber-failed", "SNN %04X after MODE setup not accepted", nn);
      own = nn; logf("renumber %04X", nn); count("renumbered");
    }
    else if (k < 94)
    {
      n.restart(); logf("restart"); count("restarts");
    }
    else w.fill(R.range(1, 3), usualNNs(own), usualENs());
    audit("after step");
    if (memcmp(guard, &n.st->mem[g.end()], 64)) violation("written-beyond-table", "storage beyond the event table changed");
    state(t.h());
  }
}
