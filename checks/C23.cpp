// Serial console: random characters typed between and during bus traffic. The printout of every query is parsed and
// compared with the module's real state, queries may change nothing, and a second module that gets the same traffic
// but no console input must behave identically on the bus.
#include "model.h"
#include "SerialUserInterface.h"
using namespace vm;

namespace {
// All numbers in a line, decimal or 0x hexadecimal.
std::vector<long> numbers(const std::string &s)
{
  std::vector<long> v;
  for (size_t i = 0; i < s.size();)
  {
    if (!isdigit((unsigned char)s[i])) { i++; continue; }
    if (i && isalpha((unsigned char)s[i - 1])) { while (i < s.size() && isdigit((unsigned char)s[i])) i++; continue; } // EV001
    char *e; v.push_back(strtol(&s[i], &e, s[i] == '0' && (s[i + 1] == 'x' || s[i + 1] == 'X') ? 16 : 10)); i = e - s.c_str();
  }
  return v;
}
std::vector<std::string> lines(const std::string &s)
{
  std::vector<std::string> v; std::string cur;
  for (char c : s) if (c == '\n') { v.push_back(cur); cur.clear(); } else if (c != '\r') cur += c;
  if (!cur.empty()) v.push_back(cur);
  return v;
}
bool indicates(const std::string &s, int mode)
{
  for (int m : {(int)MODE_NORMAL, (int)MODE_SETUP, (int)MODE_UNINITIALISED}) if ((s.find(m == MODE_NORMAL ? "NORMAL" : m == MODE_SETUP ? "SETUP" : "UNINITIALISED") != std::string::npos) != (m == mode)) return false;
  return true;
}
bool has(const std::string &s, const char *w) { return s.find(w) != std::string::npos; }
std::string str(const std::vector<long> &v) { std::string s; for (long x : v) s += std::to_string(x) + " "; return s; }
const char *modeName(int m) { return m == MODE_NORMAL ? "Normal" : m == MODE_SETUP ? "Setup" : "Uninitialised"; }
}

CHECK_DEF(C23, 3000, 40000, "A case runs a module with the serial console in a random geometry and state through random console characters (commands and arbitrary bytes), alone and mixed with bus traffic; printouts are parsed and compared with the stored state, and the bus behaviour with that of an identical module without console input. Coverage counts (character, mode, table state) states.")
{
  Geometry g = randomGeometry(R.chance(30));
  if (R.chance(20)) { g.events = R.pick({1, 127, 128, 254, 255}); g.evs = R.range(0, 3); }
  if (R.chance(10)) { g.events = R.range(1, 8); g.evs = R.pick({254, 255, 100}); }
  if (R.chance(20)) g.nvs = R.pick({0, 1, 99, 100, 127, 128, 200, 255});
  if (g.eventsStart) g.eventsStart = g.nvStart + g.nvs + R.range(0, 50);
  g.services.insert(g.services.begin(), S_REC);
  Identity id; id.nn = R.chance(80) ? randomOwn() : R.pick({65535, 32768, 255}); id.canid = R.range(1, 99); id.flags = R.range(0, 1);
  if (R.chance(25)) { id.mode = MODE_UNINITIALISED; id.nn = 0; id.canid = R.pick({0, 5}); }
  Node n(g), q(g); // q: the same module, nobody at its console
  for (Node *k : {&n, &q})
  {
    k->preset(id);
    for (int i = 0; i < g.nvs; i++) k->st->mem[g.nvStart + i] = (uint8_t)((i * 37 + id.nn) ^ (i * i));
  }
  int used = R.chance(50) ? R.range(0, std::min(g.events, 12)) : R.chance(50) ? R.range(0, g.events) : R.pick({0, 1, g.events});
  Table t; t.init(g);
  for (int i = 0; i < used; i++)
  {
    int slot = (int)R.below(g.events); if (used == g.events) slot = i;
    Entry &e = t.e[slot]; e.used = true; e.nn = R.chance(30) ? 0 : (int)R.below(65535); e.en = (int)R.below(65536);
    unsigned a = g.slotAddr(slot);
    for (Node *k : {&n, &q}) { auto &m = k->st->mem; m[a] = e.nn >> 8; m[a + 1] = e.nn; m[a + 2] = e.en >> 8; m[a + 3] = e.en; }
    for (int v = 0; v < g.evs; v++) { e.ev[v] = R.byte(); for (Node *k : {&n, &q}) k->st->mem[a + 4 + v] = (uint8_t)e.ev[v]; }
  }
  for (int i = 0; i < g.events; i++) if (!t.e[i].used && R.chance(30)) for (int v = 0; v < g.evs; v++) { uint8_t b = R.byte(); n.st->mem[g.slotAddr(i) + 4 + v] = b; q.st->mem[g.slotAddr(i) + 4 + v] = b; }
  VLCB::SerialUserInterface ui(&n.can), ui2(&q.can);
  n.extra.push_back(&ui); q.extra.push_back(&ui2);
  auto drainBoth = [&] {
    std::deque<uint8_t> keep; keep.swap(sim::serialIn);
    std::string out = sim::serialOut; q.drain(); sim::serialOut = out;
    keep.swap(sim::serialIn);
    n.drain();
  };
  n.boot(); { std::string o = sim::serialOut; q.boot(); sim::serialOut = o; }
  drainBoth();
  logf("geometry %s mode %02X nn %04X", g.str().c_str(), id.mode, id.nn);
  if (!indicates(sim::serialOut, id.mode)) violation("mode-indication", "starting in mode %02X printed: %s", id.mode, sim::serialOut.c_str());
  for (auto *c : {&n.can.rec, &n.can.tec, &n.can.es}) *c = R.range(0, R.chance(60) ? 255 : 65535);
  q.can.rec = n.can.rec; q.can.tec = n.can.tec; q.can.es = n.can.es;
  size_t nMark = n.can.tx.size(), qMark = q.can.tx.size();
  int mode = id.mode; // instant mode
  bool diverged = false;
  auto sameBus = [&](const char *when) {
    std::vector<Frame> a, b;
    for (; nMark < n.can.tx.size(); nMark++) a.push_back(n.can.tx[nMark].f);
    for (; qMark < q.can.tx.size(); qMark++) b.push_back(q.can.tx[qMark].f);
    observe(mix(a.size(), b.size()));
    if (diverged) return;
    bool same = a.size() == b.size();
    for (size_t i = 0; same && i < a.size(); i++) same = a[i].id == b[i].id && a[i].len == b[i].len && a[i].rtr == b[i].rtr && !memcmp(a[i].data, b[i].data, a[i].len);
    if (!same) violation("console-disturbs-bus", "%s: %zu frames with console input, %zu without", when, a.size(), b.size());
  };
  int typedCommands = R.range(8, 24);
  for (int i = 0; i < typedCommands; i++)
  {
    int k = R.range(0, 9);
    if (k < 3) // bus traffic to both, sometimes with queries typed in the middle
    {
      std::vector<Msg> burst; int count_ = R.range(1, 6);
      for (int j = 0; j < count_; j++)
      {
        if (mode == MODE_NORMAL && R.chance(60))
          burst.push_back(R.chance(25) ? withNN(R.chance(60) ? OPC_NNLRN : OPC_NNULN, n.nn()) : R.chance(50) ? randomConfigCommand(n, usualNNs(n.nn()), usualENs()) : withNN(R.pick({OPC_RQEVN, OPC_NNEVN, OPC_NENRD}), n.nn(), {0}));
        else burst.push_back(R.chance(50) ? evMsg(R.pick(eventOps()), 5, R.range(0, 9)) : fullMsg(R.pick({OPC_QNN, OPC_RQEVN, OPC_RQNPN, OPC_ACON1}), {R.byte(), R.byte()}));
      }
      for (auto &m : burst) { n.put(m); q.put(m); logf("bus %s", m.str().c_str()); }
      if (R.chance(50)) { std::string typed; int tn = R.range(1, 5); for (int j = 0; j < tn; j++) { char c = R.pick({'n', 'e', 'v', 'c', 'h', 'm', '\r', '\n', 'x', 'Q'}); typed += c; sim::serialIn.push_back((uint8_t)c); } count("typed_during_traffic"); }
      drainBoth(); while (!sim::serialIn.empty()) n.step();
      sameBus("traffic");
      for (int s = 0; s < g.events; s++)
      {
        Entry e; unsigned a = g.slotAddr(s); auto &m = n.st->mem;
        e.nn = m[a] << 8 | m[a + 1]; e.en = m[a + 2] << 8 | m[a + 3]; e.used = e.nn != 0xFFFF || e.en != 0xFFFF;
        for (int v = 0; v < g.evs; v++) e.ev.push_back(m[a + 4 + v]);
        t.e[s] = e;
      }
      continue;
    }
    if (k == 4 && mode != MODE_UNINITIALISED && n.nn() && R.chance(40))
    {
      // a button asks for a new node number, or withdraws that request
      sim::serialOut.clear();
      for (Node *x : {&q, &n}) { x->ctl->putAction(VLCB::ACT_RENEGOTIATE); std::string o = sim::serialOut; x->drain(); if (x == &q) sim::serialOut = o; }
      mode = mode == MODE_NORMAL ? MODE_SETUP : (int)n.conf->currentMode; count("renegotiations");
      if (!indicates(sim::serialOut, mode)) violation("mode-indication", "a renegotiation to mode %02X printed: %s", mode, sim::serialOut.c_str());
      sameBus("renegotiation");
      continue;
    }
    if (k == 3) { sim::now += R.range(1, 8000); drainBoth(); sameBus("time"); continue; }
    // one console character
    int c = R.chance(70) ? R.pick({'n', 'e', 'v', 'c', 'e', 'v'}) : R.chance(60) ? R.pick({'h', 'y', '*', 'm', '\r', '\n'}) : R.chance(30) ? 's' : R.byte();
    drainBoth(); sameBus("before typing");
    size_t log = n.st->log.size(), acts = n.rec->actions.size(), tx = n.can.tx.size(); uint64_t resets = n.can.resets; int prints = sim::printConfigCalls;
    unsigned rxc = n.can.rxc, txc = n.can.txc;
    bool learning = n.ctl->getParam(PAR_FLAGS) & 0x20;
    sim::serialOut.clear();
    uint64_t restarts = sim::restarts; sim::freeHeap = R.range(0, 60000);
    sim::serialIn.push_back((uint8_t)c);
    n.step(); n.drain();
    std::string out = sim::serialOut; auto L = lines(out);
    logf("typed %02X '%c' -> %zu lines", c, c >= 32 && c < 127 ? c : '.', L.size());
    observe(hashStr(out)); state(mix(c, mix(mode, std::min(t.used(), 3)))); count(std::string("typed_") + (strchr("nevchym*s", c) && c ? std::string(1, (char)c) : "other"));
    if (!sim::serialIn.empty()) violation("input-not-read", "a typed character was not read");
    auto silent = [&](const char *what) {
      if (n.st->log.size() != log) violation("query-writes-storage", "'%c' (%02X) %s wrote storage address %u", c, c, what, n.st->log.back().addr);
      if (n.can.tx.size() != tx) violation("query-sends", "'%c' (%02X) %s sent %zu frames", c, c, what, n.can.tx.size() - tx);
      if (n.rec->actions.size() != acts) violation("query-acts", "'%c' (%02X) %s raised action %d", c, c, what, n.rec->actions.back().actionType);
      if (((n.ctl->getParam(PAR_FLAGS) & 0x20) != 0) != learning) violation("query-changes-learn", "'%c' changed the learn state", c);
    };
    if (c != 's') silent("");
    if (sim::restartsSeen && sim::restarts != restarts + (c == '*')) violation("restarts", "%lu restarts after '%c' (%02X)", (unsigned long)(sim::restarts - restarts), c, c);
    if (n.can.resets != resets + (c == 'y')) violation("transport-reset", "%lu transport resets after '%c' (%02X)", (unsigned long)(n.can.resets - resets), c, c);
    if (sim::printConfigCalls != prints + (c == 'n')) violation("print-config", "printConfig called %d times for '%c'", sim::printConfigCalls - prints, c);
    if (strchr("nevchym*s\r\n", c) && c && has(out, "unknown")) violation("known-as-unknown", "'%c' (%02X) printed: %s", c, c, out.c_str());
    switch (c)
    {
      case 'n':
      {
        bool ok = false;
        for (auto &l : L) if (has(l, "mode =")) { auto v = numbers(l); ok = has(l, modeName(n.conf->currentMode)) && v == std::vector<long>{(long)n.conf->CANID, (long)n.conf->nodeNum}; }
        if (!ok) violation("print-identity", "mode %02X CAN ID %d node number %u printed as: %s", n.conf->currentMode, n.conf->CANID, n.conf->nodeNum, out.c_str());
        break;
      }
      case 'v':
      {
        std::vector<std::vector<long>> rows; for (auto &l : L) { auto v = numbers(l); if (v.size()) rows.push_back(v); }
        if ((int)rows.size() != g.nvs) violation("print-nvs", "%zu rows for %d node variables", rows.size(), g.nvs);
        for (int j = 0; j < g.nvs; j++)
        {
          int v = n.st->mem[g.nvStart + j];
          if (rows[j] != std::vector<long>{j + 1, v, v}) violation("print-nvs", "node variable %d = %d printed as %s", j + 1, v, str(rows[j]).c_str());
        }
        break;
      }
      case 'e':
      {
        int u = t.used(); std::vector<long> sizes, counts, bytes; std::vector<std::vector<long>> rows; bool table = false;
        for (auto &l : L)
        {
          auto v = numbers(l);
          if (has(l, "max events")) sizes = v; else if (has(l, "stored events =")) counts = v; else if (has(l, "using")) bytes = v;
          else if (has(l, "----")) table = true; else if (table && v.size()) rows.push_back(v);
        }
        if (sizes != std::vector<long>{g.events, g.evs, 4 + g.evs}) violation("print-event-sizes", "%d events, %d EVs printed as %s", g.events, g.evs, str(sizes).c_str());
        if (counts != std::vector<long>{u, g.events - u}) violation("print-event-counts", "%d of %d events stored printed as %s", u, g.events, str(counts).c_str());
        if (bytes != std::vector<long>{u * (4 + g.evs), g.events * (4 + g.evs)}) violation("print-event-bytes", "bytes printed as %s", str(bytes).c_str());
        if ((int)rows.size() != u) violation("print-events", "%zu rows for %d stored events", rows.size(), u);
        int r = 0;
        for (int s = 0; s < g.events; s++) if (t.e[s].used)
        {
          auto &e = t.e[s];
          std::vector<long> want = {s, e.nn >> 8, e.nn & 255, e.en >> 8, e.en & 255};
          for (int v : e.ev) want.push_back(v);
          auto got = rows[r++]; if (got.size() == want.size() + 1) got.pop_back(); // the hash
          if (got != want) violation("print-events", "event slot %d (%s) printed as %s", s, str(want).c_str(), str(rows[r - 1]).c_str());
        }
        count("event_rows", u);
        break;
      }
      case 'c':
        if (L.empty() || numbers(L[0]) != std::vector<long>{(long)rxc, (long)txc, n.can.rec, n.can.tec, n.can.es}) violation("print-can", "CAN status %u %u %u %u %u printed as %s", rxc, txc, n.can.rec, n.can.tec, n.can.es, out.c_str());
        break;
      case 's':
      {
        diverged = true;
        int changes = 0; for (; acts < n.rec->actions.size(); acts++) changes += n.rec->actions[acts].actionType == VLCB::ACT_CHANGE_MODE;
        auto sent = n.sentSince(tx);
        bool rqnn = false, nnrel = false; for (auto &m : sent) { rqnn |= m.op() == OPC_RQNN; nnrel |= m.op() == OPC_NNREL; }
        int to = mode == MODE_UNINITIALISED ? MODE_SETUP : MODE_UNINITIALISED;
        if (changes != 1) violation("setup-command", "'s' raised %d changes of mode", changes);
        if (rqnn != (to == MODE_SETUP) || nnrel != (mode == MODE_NORMAL)) violation("setup-command", "'s' in mode %02X sent %s", mode, vm::str(sent).c_str());
        if (!indicates(out, to)) violation("mode-indication", "'s' in mode %02X printed: %s", mode, out.c_str());
        if (to == MODE_UNINITIALISED && ((int)n.conf->currentMode != MODE_UNINITIALISED || n.conf->nodeNum != 0)) violation("setup-command", "'s' left mode %02X node number %04X", n.conf->currentMode, n.conf->nodeNum);
        mode = to; sim::now += 200; n.drain();
        if (mode == MODE_SETUP && R.chance(60))
        {
          int nn = randomOwn(); sim::serialOut.clear();
          n.ask(withNN(OPC_SNN, nn)); mode = MODE_NORMAL;
          if (!indicates(sim::serialOut, MODE_NORMAL) || (int)n.conf->nodeNum != nn) violation("mode-indication", "SNN printed: %s", sim::serialOut.c_str());
        }
        break;
      }
      case 'm':
        if (sim::restartsSeen && (L.empty() || numbers(L[0]) != std::vector<long>{(long)sim::freeHeap})) violation("print-memory", "%u bytes free printed as: %s", sim::freeHeap, out.c_str());
        break;
      case 'h': case 'y': case '*': case '\r': case '\n': break;
      default:
        if (L.empty()) violation("unknown-unreported", "unknown character %02X printed nothing", c);
        break;
    }
    n.drain(); if (diverged) nMark = n.can.tx.size(); else sameBus("after typing");
    for (int s = 0; s < 1 && n.st->resets; s++) violation("query-resets", "the console erased the storage");
  }
}
