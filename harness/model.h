// Reference model of the event table and of the replies of the event teaching commands, used by several checks.
#pragma once
#include "node.h"

namespace vm {

struct Entry
{
  bool used = false;
  int nn = 0, en = 0;
  std::vector<int> ev; // -1: unspecified (never taught)
};

struct Table
{
  int evs = 0;
  std::vector<Entry> e;
  void init(const Geometry &g) { evs = g.evs; e.assign(g.events, Entry()); for (auto &x : e) x.ev.assign(evs, -1); }
  int size() const { return (int)e.size(); }
  int used() const { int n = 0; for (auto &x : e) n += x.used; return n; }
  int find(int nn, int en) const { for (int i = 0; i < size(); i++) if (e[i].used && e[i].nn == nn && e[i].en == en) return i; return -1; }
  int findEv1(int v) const { for (int i = 0; i < size(); i++) if (evs > 0 && e[i].used && e[i].ev[0] == v) return i; return -1; }
  int countEv1(int v) const { int n = 0; for (auto &x : e) n += evs > 0 && x.used && x.ev[0] == v; return n; }
  uint64_t h() const
  {
    uint64_t r = size();
    for (auto &x : e) { r = mix(r, x.used); if (x.used) { r = mix(r, x.nn * 65536ull + x.en); for (int v : x.ev) r = mix(r, v); } }
    return r;
  }
  std::string str() const
  {
    std::string s; char b[64];
    for (int i = 0; i < size(); i++) if (e[i].used)
    {
      snprintf(b, sizeof b, "%d:%04X/%04X(", i, e[i].nn, e[i].en); s += b;
      for (int v : e[i].ev) { snprintf(b, sizeof b, "%d,", v); s += b; }
      s += ") ";
    }
    return s.empty() ? "(empty)" : s;
  }
};

inline Msg grsp(Node &n, int op, int svc, int code) { return withNN(OPC_GRSP, n.nn(), {op, svc, code}); }
inline Msg cmderr(Node &n, int code) { return withNN(OPC_CMDERR, n.nn(), {code}); }
inline Msg wrack(Node &n) { return withNN(OPC_WRACK, n.nn()); }
inline std::vector<Msg> okReply(Node &n, int op, int svc) { return {wrack(n), grsp(n, op, svc, GRSP_OK)}; }
inline std::vector<Msg> errReply(Node &n, int op, int svc, int code) { return {cmderr(n, code), grsp(n, op, svc, code)}; }

// Deliver a message and compare the replies as a multiset.
inline std::vector<Msg> expect(Node &n, const Msg &m, const std::vector<Msg> &want, const char *key)
{
  auto got = n.ask(m);
  logf("%s -> %s", m.str().c_str(), str(got).c_str());
  for (auto &x : got) observe(x.h());
  observe(want.size());
  if (!sameSet(got, want))
    violation(key, "after %s expected replies %s got %s", m.str().c_str(), str(want).c_str(), str(got).c_str());
  return got;
}

// Put the module into / out of learn mode over the bus.
inline void learn(Node &n, bool on) { n.ask(withNN(on ? OPC_NNLRN : OPC_NNULN, n.nn())); }

// Fill a slot completely by index: a known entry with all EVs taught. Needs learn mode.
inline void teachSlot(Node &n, Table &t, int idx, int nn, int en, const std::vector<int> &ev)
{
  for (int i = 0; i < t.evs; i++)
  {
    auto got = n.ask(evMsg(OPC_EVLRNI, nn, en, {idx, i + 1, ev[i]}));
    bool ok = false; for (auto &m : got) ok |= isPositive(m);
    if (!ok) violation("setup-teach-rejected", "EVLRNI to slot %d ev %d rejected: %s", idx, i + 1, str(got).c_str());
  }
  t.e[idx].used = true; t.e[idx].nn = nn; t.e[idx].en = en; t.e[idx].ev = ev;
}

// Compare the table as the bus queries show it with the model. Unspecified EVs (-1) are adopted.
inline void auditTable(Node &n, Table &t, const char *when, bool full = true)
{
  int nn = n.nn();
  int svc = n.teach->getServiceID();
  int used = t.used();
  expect(n, withNN(OPC_RQEVN, nn), {withNN(OPC_NUMEV, nn, {used})}, "audit-count");
  expect(n, withNN(OPC_NNEVN, nn), {withNN(OPC_EVNLF, nn, {t.size() - used})}, "audit-free");
  if (used <= 25)
  {
    std::vector<Msg> want;
    for (int i = 0; i < t.size(); i++) if (t.e[i].used) { Msg m = withNN(OPC_ENRSP, nn, {t.e[i].nn >> 8, t.e[i].nn & 255, t.e[i].en >> 8, t.e[i].en & 255, i}); want.push_back(m); }
    expect(n, withNN(OPC_NERD, nn), want, "audit-list");
  }
  for (int i = 0; i < t.size(); i++)
  {
    if (t.size() > 30 && !t.e[i].used && R.below(8) != 0) continue;
    if (!full && R.below(3) != 0) continue;
    if (t.e[i].used)
    {
      expect(n, withNN(OPC_NENRD, nn, {i}), {withNN(OPC_ENRSP, nn, {t.e[i].nn >> 8, t.e[i].nn & 255, t.e[i].en >> 8, t.e[i].en & 255, i})}, "audit-read-index");
      for (int v = 1; v <= t.evs; v++)
      {
        if (t.evs > 8 && R.below(t.evs) > 8) continue;
        if (t.e[i].ev[v - 1] < 0)
        {
          auto got = n.ask(withNN(OPC_REVAL, nn, {i, v}));
          if (got.size() != 1 || got[0].op() != OPC_NEVAL || got[0].len != 6 || got[0].d[3] != i || got[0].d[4] != v || got[0].nn() != nn)
            violation("audit-ev", "REVAL %d %d answered %s", i, v, str(got).c_str());
          t.e[i].ev[v - 1] = got[0].d[5];
          observe(got[0].h());
        }
        else
          expect(n, withNN(OPC_REVAL, nn, {i, v}), {withNN(OPC_NEVAL, nn, {i, v, t.e[i].ev[v - 1]})}, "audit-ev");
      }
      int f = n.conf->findExistingEvent(t.e[i].nn, t.e[i].en);
      observe(f);
      if (f != t.find(t.e[i].nn, t.e[i].en)) violation("audit-lookup", "%s: event %04X/%04X in slot %d is found in slot %d", when, t.e[i].nn, t.e[i].en, i, f);
    }
    else
    {
      expect(n, withNN(OPC_NENRD, nn, {i}), errReply(n, OPC_NENRD, svc, CMDERR_INV_EN_IDX), "audit-free-index");
      expect(n, withNN(OPC_REVAL, nn, {i, R.range(0, t.evs)}), errReply(n, OPC_REVAL, svc, CMDERR_INV_EN_IDX), "audit-free-ev");
    }
  }
  count("table_audits");
  state(t.h());
}
}

namespace vm {
// A configured module together with its event table model.
// Turns a pair of numbers into one that is easily mistaken for it: some bit or byte differs, or parts change places.
inline void nearly(int &nn, int &en)
{
  switch (R.range(0, 9))
  {
    case 0: std::swap(nn, en); break;
    case 1: en = ((en & 255) << 8) | (en >> 8); break;
    case 2: nn = ((nn & 255) << 8) | (nn >> 8); break;
    case 3: case 4: en ^= 1 << R.pick({7, 15}); break;
    case 5: case 6: nn ^= 1 << R.pick({7, 15}); break;
    case 7: { int m = 1 << R.range(0, 7); en ^= m | m << 8; break; }
    case 8: en ^= 1 << R.range(0, 15); break;
    default: nn ^= 1 << R.range(0, 15); break;
  }
}
struct World
{
  Geometry g;
  Node *n = nullptr;
  Table t;

  void boot(const Geometry &geo, const Identity &id, bool drain = true)
  {
    g = geo;
    n = new Node(g);
    n->preset(id);
    n->boot();
    if (drain) n->drain();
    t.init(g);
    logf("geometry %s mode=%02X nn=%04X canid=%d flags=%d", g.str().c_str(), id.mode, id.nn, id.canid, id.flags);
  }

  // Teach a number of distinct events by index, every event variable, distinct non-zero EV1 values (EV1 is 0 in
  // `consumedPercent` of them).
  void fill(int number, const std::vector<int> &nns, const std::vector<int> &ens, int consumedPercent = 40)
  {
    learn(*n, true);
    for (int i = 0; i < number && t.used() < t.size(); i++)
    {
      int nn = R.pick(nns), en = R.pick(ens);
      if (R.chance(25)) { int k = (int)R.below(t.size()); if (t.e[k].used) { nn = t.e[k].nn; en = t.e[k].en; } nearly(nn, en); }
      if (nn == 0xFFFF && en == 0xFFFF) continue;
      if (t.find(nn, en) >= 0) continue;
      std::vector<int> freeSlots; for (int k = 0; k < t.size(); k++) if (!t.e[k].used) freeSlots.push_back(k);
      int idx = R.chance(60) ? freeSlots[0] : R.pick(freeSlots);
      std::vector<int> ev;
      for (int k = 0; k < t.evs; k++) ev.push_back(R.byte());
      if (t.evs > 0)
      {
        if (R.chance(consumedPercent)) ev[0] = 0;
        else { int v = R.range(1, 255); if (t.findEv1(v) >= 0) v = 0; ev[0] = v; }
      }
      teachSlot(*n, t, idx, nn, en, ev);
    }
    learn(*n, false);
    logf("table %s", t.str().c_str());
  }
};

// A request whose replies outnumber the action queue. `key` identifies the known way this fails: the replies that do
// not fit push out the earliest ones, the rest comes in order. Anything else is another failure.
inline void longList(Node &n, const Msg &m, const std::vector<Msg> &want, const char *key)
{
  auto got = n.ask(m);
  logf("%s -> %s", m.str().c_str(), str(got).c_str());
  for (auto &x : got) observe(x.h());
  observe(want.size());
  if (got == want) return;
  bool tail = got.size() >= 20 && got.size() < want.size() && std::equal(got.rbegin(), got.rend(), want.rbegin());
  violation(tail ? key : (std::string(key) + "-otherwise").c_str(), "after %s only %zu of %zu replies were sent: %s", m.str().c_str(), got.size(), want.size(), str(got).c_str());
}

inline std::vector<int> usualNNs(int own) { return {0, own, ((own & 255) << 8) | (own >> 8), (own + 128) & 0xFFFF, (own + 1) & 0xFFFF, 0x0203, 0x0302, 0xFFFF}; }
inline std::vector<int> usualENs() { return {0, 1, 2, 3, 5, 0x0100, 129, 0x0101, 256 + 129, 0xFFFF, 0x1234}; }
inline int randomOwn() { return R.chance(40) ? R.range(1, 65534) : R.pick({0x0104, 0x0100, 1, 0xFE00, 0x8000, 0x00FF}); }

inline Geometry randomGeometry(bool coe)
{
  Geometry g;
  g.events = R.chance(60) ? R.range(1, 25) : R.chance(60) ? R.range(26, 100) : R.range(101, 255);
  g.evs = R.chance(70) ? R.range(1, 4) : R.range(5, 20);
  if ((long)g.events * (4 + g.evs) > 7000) g.evs = R.range(1, 4);
  g.nvs = R.range(0, 20);
  g.produced = 0;
  if (R.chance(30)) g.eventsStart = g.nvStart + g.nvs + R.range(0, 50);
  g.services = fullServices(R.chance(70), coe);
  return g;
}

inline bool isShortOp(int op)
{
  switch (op)
  {
    case OPC_ASON: case OPC_ASON1: case OPC_ASON2: case OPC_ASON3: case OPC_ASOF: case OPC_ASOF1: case OPC_ASOF2: case OPC_ASOF3: return true;
    default: return false;
  }
}
inline const std::vector<int> &eventOps()
{
  static const std::vector<int> v = {OPC_ACON, OPC_ACON1, OPC_ACON2, OPC_ACON3, OPC_ACOF, OPC_ACOF1, OPC_ACOF2, OPC_ACOF3,
                                     OPC_ASON, OPC_ASON1, OPC_ASON2, OPC_ASON3, OPC_ASOF, OPC_ASOF1, OPC_ASOF2, OPC_ASOF3, OPC_ARON, OPC_AROF};
  return v;
}
// A message of the length its opcode prescribes: the bytes given, then random ones.
inline Msg fullMsg(int op, std::initializer_list<int> lead = {})
{
  Msg m; m.d[m.len++] = (uint8_t)op;
  for (int v : lead) if (m.len < 8) m.d[m.len++] = (uint8_t)v;
  m.len = (uint8_t)opLen(op);
  for (int i = 1 + (int)lead.size(); i < m.len; i++) m.d[i] = R.byte();
  return m;
}
// Produced events as the application requests them.
inline void sendEvent(Node &n, bool on, int v, const std::vector<int> &data)
{
  Node *prev = Node::current; Node::current = &n;
  switch (data.size())
  {
    case 0: n.prod->sendEvent(on, (byte)v); break;
    case 1: n.prod->sendEvent(on, (byte)v, (byte)data[0]); break;
    case 2: n.prod->sendEvent(on, (byte)v, (byte)data[0], (byte)data[1]); break;
    default: n.prod->sendEvent(on, (byte)v, (byte)data[0], (byte)data[1], (byte)data[2]); break;
  }
  Node::current = prev;
}
inline void sendResponse(Node &n, bool on, int index, const std::vector<int> &data)
{
  switch (data.size())
  {
    case 0: n.prod->sendEventResponse(on, (byte)index); break;
    case 1: n.prod->sendEventResponse(on, (byte)index, (byte)data[0]); break;
    case 2: n.prod->sendEventResponse(on, (byte)index, (byte)data[0], (byte)data[1]); break;
    default: n.prod->sendEventResponse(on, (byte)index, (byte)data[0], (byte)data[1], (byte)data[2]); break;
  }
}
inline std::vector<int> randomData(int maxn = 3) { std::vector<int> v; int k = R.range(0, maxn); for (int i = 0; i < k; i++) v.push_back(R.byte()); return v; }
// The message that carries the event (nn,en) stored in the table of a node numbered own.
inline Msg producedMsg(bool on, int nn, int en, int own, const std::vector<int> &data, bool response = false)
{
  static const int lon[4] = {OPC_ACON, OPC_ACON1, OPC_ACON2, OPC_ACON3}, loff[4] = {OPC_ACOF, OPC_ACOF1, OPC_ACOF2, OPC_ACOF3};
  static const int son[4] = {OPC_ASON, OPC_ASON1, OPC_ASON2, OPC_ASON3}, soff[4] = {OPC_ASOF, OPC_ASOF1, OPC_ASOF2, OPC_ASOF3};
  static const int rlon[4] = {OPC_ARON, OPC_ARON1, OPC_ARON2, OPC_ARON3}, rloff[4] = {OPC_AROF, OPC_AROF1, OPC_AROF2, OPC_AROF3};
  static const int rson[4] = {OPC_ARSON, OPC_ARSON1, OPC_ARSON2, OPC_ARSON3}, rsoff[4] = {OPC_ARSOF, OPC_ARSOF1, OPC_ARSOF2, OPC_ARSOF3};
  bool sh = nn == 0;
  int k = (int)data.size();
  int op = response ? (sh ? (on ? rson : rsoff) : (on ? rlon : rloff))[k] : (sh ? (on ? son : soff) : (on ? lon : loff))[k];
  Msg m = evMsg(op, sh ? own : nn, en);
  for (int v : data) m.d[m.len++] = (uint8_t)v;
  return m;
}
}

namespace vm {
// Everything configuration-like that can be observed through the library's own interface.
struct Snapshot
{
  int mode = 0, nn = 0, canid = 0, heartbeat = 0;
  std::vector<int> nvs;
  std::vector<Entry> slots;
  static Snapshot of(Node &n)
  {
    Snapshot s;
    s.mode = n.conf->currentMode; s.nn = n.conf->nodeNum; s.canid = n.conf->CANID; s.heartbeat = n.conf->heartbeat;
    for (int i = 1; i <= n.g.nvs; i++) s.nvs.push_back(n.conf->readNV((byte)i));
    for (int i = 0; i < n.g.events; i++)
    {
      Entry e; e.used = n.conf->getEvTableEntry((byte)i) != 0;
      if (e.used)
      {
        byte b[4]; n.conf->readEvent((byte)i, b); e.nn = b[0] << 8 | b[1]; e.en = b[2] << 8 | b[3];
        for (int k = 1; k <= n.g.evs; k++) e.ev.push_back(n.conf->getEventEVval((byte)i, (byte)k));
      }
      s.slots.push_back(e);
    }
    return s;
  }
  // First difference, or empty.
  std::string diff(const Snapshot &o) const
  {
    char b[160];
    if (mode != o.mode) { snprintf(b, sizeof b, "mode %02X/%02X", mode, o.mode); return b; }
    if (nn != o.nn) { snprintf(b, sizeof b, "node number %04X/%04X", nn, o.nn); return b; }
    if (canid != o.canid) { snprintf(b, sizeof b, "CAN ID %d/%d", canid, o.canid); return b; }
    if (heartbeat != o.heartbeat) { snprintf(b, sizeof b, "heartbeat %d/%d", heartbeat, o.heartbeat); return b; }
    for (size_t i = 0; i < nvs.size(); i++) if (nvs[i] != o.nvs[i]) { snprintf(b, sizeof b, "NV %zu %d/%d", i + 1, nvs[i], o.nvs[i]); return b; }
    for (size_t i = 0; i < slots.size(); i++)
      if (!sameSlot(slots[i], o.slots[i])) { snprintf(b, sizeof b, "event slot %zu %d:%04X/%04X vs %d:%04X/%04X", i, slots[i].used, slots[i].nn, slots[i].en, o.slots[i].used, o.slots[i].nn, o.slots[i].en); return b; }
    return "";
  }
  static bool sameSlot(const Entry &a, const Entry &b) { return a.used == b.used && (!a.used || (a.nn == b.nn && a.en == b.en && a.ev == b.ev)); }
  uint64_t h() const
  {
    uint64_t r = mix(mix(mode, nn), mix(canid, heartbeat));
    for (int v : nvs) r = mix(r, v);
    for (auto &e : slots) { r = mix(r, e.used); if (e.used) { r = mix(r, e.nn * 65536ull + e.en); for (int v : e.ev) r = mix(r, v); } }
    return r;
  }
};

// One random configuration command of a learning, normal-mode module (own number, valid most of the time).
inline Msg randomConfigCommand(Node &n, const std::vector<int> &nns, const std::vector<int> &ens)
{
  int own = n.nn();
  int nn = R.pick(nns), en = R.pick(ens);
  if (nn == 0xFFFF && en == 0xFFFF) en = 1;
  int ev = n.g.evs ? R.range(1, n.g.evs) : 1;
  std::vector<int> us; for (int i = 0; i < n.g.events; i++) if (n.conf->getEvTableEntry((byte)i)) us.push_back(i);
  if (!us.empty() && R.chance(50)) { byte b[4]; n.conf->readEvent((byte)R.pick(us), b); nn = b[0] << 8 | b[1]; en = b[2] << 8 | b[3]; }
  switch (R.range(0, 9))
  {
    case 0: case 1: if (n.g.nvs) return withNN(R.chance(50) ? OPC_NVSET : OPC_NVSETRD, own, {R.range(1, n.g.nvs), R.byte()}); // fall through
    case 2: case 3: case 4: return evMsg(OPC_EVLRN, nn, en, {ev, ev == 1 && R.chance(50) ? 0 : R.byte()});
    case 5: return evMsg(OPC_EVLRNI, nn, en, {(int)R.below(n.g.events), ev, R.byte()});
    case 6: return evMsg(OPC_EVULN, nn, en);
    case 7: return R.chance(15) ? withNN(OPC_NNCLR, own) : evMsg(OPC_EVULN, nn, en);
    case 8: return withNN(OPC_CANID, own, {R.range(1, 99)});
    default: return withNN(OPC_MODE, own, {R.chance(50) ? MODE_HEARTBEAT_ON : MODE_HEARTBEAT_OFF});
  }
}
}
