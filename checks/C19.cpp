// Extended long message service: concurrent messages, CRC, context exhaustion and faults.
#include "longmsg.h"
using namespace vm;

namespace {
struct Rx // what one receiver must do, fragment by fragment
{
  unsigned nctx, bufLen; bool crc; unsigned long timeout;
  std::vector<uint8_t> streams;
  struct Ctx { unsigned len; uint8_t next; std::vector<uint8_t> bytes; bool crcGiven; std::vector<uint8_t> orig; unsigned long last; };
  enum { EITHER = 100 }; // complete or CRC error
  std::map<int, Ctx> active;
  std::vector<Delivery> due;
  void end(int s, int status) { due.push_back({0, active[s].bytes, s, status}); active.erase(s); char b[32]; snprintf(b, sizeof b, "expect_%d", status); count(b); }
  // A CRC of 16 bits detects every burst of up to 16 bits; other differences are almost always detected.
  int finalStatus(const Ctx &c) const
  {
    if (!crc || !c.crcGiven || c.bytes == c.orig) return LM_COMPLETE;
    if (c.bytes.size() != c.orig.size()) return EITHER;
    size_t first = 0, last = c.bytes.size() - 1;
    while (c.bytes[first] == c.orig[first]) first++;
    while (c.bytes[last] == c.orig[last]) last--;
    return last - first <= 1 ? (int)LM_CRC : (int)EITHER;
  }
  void frame(const Msg &m, const std::vector<uint8_t> *orig)
  {
    int s = m.d[1];
    auto it = active.find(s);
    if (m.d[2] == 0 && !(it != active.end() && it->second.next == 0))
    {
      if (m.d[7] != 0 || !std::count(streams.begin(), streams.end(), s)) return;
      if (it != active.end()) end(s, LM_SEQ);
      if (active.size() >= nctx) { count("contexts_exhausted"); return; }
      Ctx c; c.len = m.d[3] << 8 | m.d[4]; c.next = 1; c.crcGiven = m.d[5] || m.d[6]; if (orig) c.orig = *orig; c.last = sim::now;
      active[s] = c;
      if (c.len == 0) end(s, LM_COMPLETE);
      return;
    }
    if (it == active.end()) return;
    Ctx &c = it->second;
    if (m.d[2] != c.next) { end(s, LM_SEQ); return; }
    c.next++; c.last = sim::now;
    for (int i = 0; i < 5; i++)
    {
      c.bytes.push_back(m.d[3 + i]);
      if (c.bytes.size() >= c.len) { end(s, finalStatus(c)); return; }
      if (c.bytes.size() >= bufLen) { end(s, LM_TRUNC); return; }
    }
  }
  void poll() { for (auto it = active.begin(); it != active.end();) { int s = it->first; bool t = sim::now - it->second.last >= timeout; ++it; if (t) end(s, LM_TIMEOUT); } }
};

struct Pace { unsigned long t = 0; int polls = 0; };
struct ExNode { LmNode l; Rx rx; unsigned nsend; bool crc; int delay = 20; StreamMonitor mon[256]; Pace pace[256]; };

ExNode *makeNode(int i, int nn, int canid, bool mustSend = false)
{
  ExNode *e = new ExNode;
  Geometry g; g.events = 4; g.nvs = 2; g.services = {S_MNS, S_CAN, S_LONGEX};
  Identity id; id.nn = nn; id.canid = canid;
  e->l.n = new Node(g); e->l.n->preset(id); e->l.n->boot(); e->l.n->drain();
  e->l.ex = true;
  e->rx.nctx = R.chance(4) ? 0 : R.range(1, 5); e->nsend = !mustSend && R.chance(4) ? 0 : R.range(1, 5);
  e->rx.bufLen = e->l.bufLen = R.chance(20) ? R.range(1, 12) : R.range(13, 300);
  e->crc = e->rx.crc = R.chance(50);
  int k = R.range(1, 8);
  std::set<int> s; while ((int)s.size() < k) s.insert(R.chance(60) ? R.range(0, 14) : R.byte());
  e->l.streams.assign(s.begin(), s.end()); e->rx.streams = e->l.streams;
  Node *p = Node::current; Node::current = e->l.n;
  if (!e->l.n->lmsEx->allocateContexts((byte)e->rx.nctx, e->rx.bufLen, (byte)e->nsend)) harnessError("allocateContexts");
  e->l.n->lmsEx->use_crc(e->crc);
  if (R.chance(50)) { e->l.timeout = R.pick({1000, 5000, 20000}); e->l.n->lms->setTimeout((unsigned)e->l.timeout); }
  e->rx.timeout = e->l.timeout;
  if (R.chance(40)) { e->delay = R.chance(50) ? R.pick({0, 1, 5, 50, 128, 255}) : R.range(0, 60); e->l.n->lms->setDelay((byte)e->delay); }
  Node::current = p;
  lmNodes[i] = &e->l;
  lmSubscribe(i);
  return e;
}
// Compare what was delivered with what was due.
void settle(ExNode &e, const char *when)
{
  auto key = [](const Delivery &d) { return std::make_tuple(d.stream, d.status, d.bytes); };
  auto show = [](const std::vector<Delivery> &v) { std::string s; for (auto &d : v) { char b[64]; snprintf(b, sizeof b, "{stream %d status %d ", d.stream, d.status); s += b + hex(d.bytes.data(), d.bytes.size()) + "} "; } return s.empty() ? std::string("nothing") : s; };
  std::vector<Delivery> a = e.l.got, b = e.rx.due;
  for (auto &d : b) if (d.status == Rx::EITHER)
  {
    d.status = LM_CRC;
    for (auto &x : a) if (x.stream == d.stream && x.bytes == d.bytes && x.status == LM_COMPLETE) d.status = LM_COMPLETE;
    count("crc_undecided");
  }
  auto lt = [&](const Delivery &x, const Delivery &y) { return key(x) < key(y); };
  std::sort(a.begin(), a.end(), lt); std::sort(b.begin(), b.end(), lt);
  bool same = a.size() == b.size();
  for (size_t i = 0; same && i < a.size(); i++) same = key(a[i]) == key(b[i]);
  if (!same)
  {
    bool falseComplete = false;
    for (auto &d : a) if (d.status == LM_COMPLETE && std::none_of(b.begin(), b.end(), [&](const Delivery &x) { return key(x) == key(d); })) falseComplete = true;
    violation(falseComplete ? "false-complete" : "delivery", "%s: delivered %s; due %s (buffer %u, %u contexts, crc %d)", when, show(a).c_str(), show(b).c_str(), e.rx.bufLen, e.rx.nctx, e.rx.crc);
  }
  for (auto &d : a) { observe(d.status); state(mix(d.status, mix(d.bytes.size(), e.rx.active.size()))); }
  e.l.got.clear(); e.rx.due.clear();
}
bool huge;
unsigned randomLen(unsigned bufLen)
{
  int k = R.range(0, 99);
  if (k < 3) return 0;
  if (k < 30) return R.range(1, 11);
  if (k < 45) return bufLen;
  if (k < 55) return R.range((int)bufLen, (int)bufLen + 6);
  if (k < 60) return bufLen > 1 ? bufLen - 1 : 1;
  if (k < 97) return R.range(1, 250);
  if (bufLen >= 1500 && R.chance(4)) { count("huge_messages"); huge = true; return R.chance(30) ? R.range(32760, 33000) : R.chance(30) ? R.range(65500, 65535) : R.range(1400, 40000); }
  return R.range(1270, 1400);
}

void endToEnd()
{
  huge = false;
  int nn = R.range(2, 3);
  ExNode *e[3];
  for (int i = 0; i < nn; i++) e[i] = makeNode(i, 0x0101 + i, 1 + i);
  if (R.chance(20)) for (int i = 0; i < nn; i++) { e[i]->l.bufLen = 0; }
  std::vector<std::pair<Msg, std::vector<uint8_t>>> bus[3];
  for (int i = 0; i < nn; i++)
  {
    if (e[i]->l.bufLen == 0) // big buffers, so that sequence numbers wrap
    {
      e[i]->rx.bufLen = e[i]->l.bufLen = 1500;
      Node::current = e[i]->l.n;
      e[i]->l.n->lmsEx->allocateContexts((byte)e[i]->rx.nctx, 1500, (byte)e[i]->nsend);
    }
    e[i]->l.n->can.onSend = [&, i](const Frame &f) {
      Msg m(f); if (m.op() != OPC_DTXC) return;
      count("fragments_sent"); auto &mon = e[i]->mon[m.d[1]]; std::vector<uint8_t> orig; if (!mon.expect.empty()) orig = mon.expect.front(); {
        Pace &p = e[i]->pace[m.d[1]];
        if (mon.active) { if (sim::now - p.t < (unsigned long)e[i]->delay) violation("too-close", "stream %d: fragment sent %lu ms after the one before, the delay is %d", m.d[1], sim::now - p.t, e[i]->delay); count("gaps_checked"); }
        p.t = sim::now; p.polls = 0;
      }
      mon.frame(m); bus[i].push_back({m, orig});
    };
  }
  auto inProgress = [&](int i) { unsigned k = 0; for (auto &m : e[i]->mon) if (m.active || !m.expect.empty()) k++; return k; };
  int messages = R.range(3, 14), sent = 0, maxTick = R.pick({1, 5, 25, 40}), eager = R.pick({5, 30, 90});
  int used[3][256] = {{0}};
  for (int guard = 0;; guard++)
  {
    if (guard > 300000) violation("never-sent", "messages still being sent after %d polls", guard);
    bool any = false;
    for (int i = 0; i < nn; i++)
    {
      ExNode &s = *e[i];
      s.l.n->drain(0);
      if (s.l.n->lmsEx->is_sending() != inProgress(i)) violation("is-sending", "is_sending() is %d while %u messages are in progress", s.l.n->lmsEx->is_sending(), inProgress(i));
      while (sent < messages * nn && R.chance(eager))
      {
        // streams are shared out so that no two nodes use the same one at a time
        int stream = R.chance(80) ? R.pick(e[(i + 1) % nn]->l.streams) : R.byte();
        bool other = false; for (int j = 0; j < nn; j++) if (j != i && used[j][stream]) other = true;
        if (other) break;
        std::vector<uint8_t> v = lmContent(randomLen(e[(i + 1) % nn]->rx.bufLen));
        bool room = !(s.mon[stream].active || !s.mon[stream].expect.empty()) && inProgress(i) < s.nsend;
        uint8_t *copy = (uint8_t *)malloc(v.size() ? v.size() : 1); for (size_t z = 0; z < v.size(); z++) copy[z] = v[z];
        if (room && R.chance(4)) allocFail = 0;
        bool tried = allocFail == 0;
        bool ok = s.l.n->lmsEx->sendLongMessage(copy, (unsigned)v.size(), (byte)stream);
        if (tried && allocFail == -1) { room = false; count("send_out_of_memory"); } // refused then, too
        allocFail = -1;
        if (room) s.mon[stream].expect.push_back(v);
        memset(copy, 0xEE, v.size()); free(copy); // the service keeps its own copy
        if (ok != room) violation(ok ? "accepted-without-room" : "refused-with-room", "sendLongMessage returned %d with %u of %u contexts in use, stream %d %sin progress", ok, inProgress(i), s.nsend, stream, s.mon[stream].active ? "" : "not ");
        count(ok ? "accepted" : "refused");
        if (ok) { used[i][stream] = 1; sent++; }
        s.l.n->drain(0);
        if (R.chance(30)) break;
      }
    }
    sim::now += R.range(0, huge ? 40 : maxTick);
    for (int i = 0; i < nn; i++) { e[i]->rx.poll(); e[i]->l.tick(); e[i]->l.n->drain(0); settle(*e[i], "poll"); }
    // each message in progress gets its turn
    for (int i = 0; i < nn; i++) for (int s = 0; s < 256; s++) if (e[i]->mon[s].active)
    {
      Pace &p = e[i]->pace[s];
      if (sim::now - p.t < (unsigned long)e[i]->delay) continue;
      if (++p.polls > 2 * (int)e[i]->nsend + 2) violation("starved", "stream %d: no fragment sent during %d polls although the last was sent %lu ms ago, the delay is %d (%u contexts)", s, p.polls, sim::now - p.t, e[i]->delay, e[i]->nsend);
    }
    for (int i = 0; i < nn; i++)
    {
      std::vector<std::pair<Msg, std::vector<uint8_t>>> out; out.swap(bus[i]);
      for (auto &o : out) for (int j = 0; j < nn; j++) if (j != i)
      {
        const Msg &m = o.first;
        e[j]->rx.frame(m, &o.second);
        e[j]->l.n->can.rx.push_back(Node::frame(m, 0x20 + i)); e[j]->l.n->drain(0);
        settle(*e[j], "fragment received");
      }
      // once no receiver has anything in progress on a stream, another sender may use it
      for (int s = 0; s < 256; s++) if (used[i][s] && !e[i]->mon[s].active && e[i]->mon[s].expect.empty())
      {
        bool busy = !bus[i].empty(); for (int j = 0; j < nn; j++) if (e[j]->rx.active.count(s)) busy = true;
        if (!busy) used[i][s] = 0;
      }
      if (e[i]->l.n->lmsEx->is_sending() || !bus[i].empty()) any = true;
    }
    if (sent >= messages * nn && !any) break;
    if (!any && guard > 3000 && R.chance(5)) break;
  }
  for (int i = 0; i < nn; i++) for (auto &m : e[i]->mon) if (m.active || !m.expect.empty()) violation("not-sent", "an accepted message was not transmitted");
  count("end_to_end_cases");
}

void faulty()
{
  ExNode &r = *makeNode(0, 0x0101, 1);
  // frames come from a real sender
  ExNode &tx = *makeNode(1, 0x0102, 2, true);
  std::vector<Msg> cap;
  tx.l.n->can.onSend = [&](const Frame &f) { if (f.data[0] == OPC_DTXC) cap.push_back(Msg(f)); };
  auto capture = [&](const std::vector<uint8_t> &v, int stream) {
    cap.clear();
    if (!tx.l.n->lmsEx->sendLongMessage(v.empty() ? (const uint8_t *)"" : v.data(), (unsigned)v.size(), (byte)stream)) violation("refused-with-room", "sendLongMessage refused while nothing is in progress");
    unsigned long keep = sim::now;
    for (int i = 0; tx.l.n->lmsEx->is_sending(); i++) { if (i > 20000) violation("never-sent", "message still being sent"); sim::now += 21; tx.l.tick(); tx.l.n->drain(0); }
    tx.l.n->drain(0);
    sim::now = keep;
    return cap;
  };
  // The sender has one clock with the receiver, so messages are captured before the receiver runs.
  struct Job { std::vector<std::pair<Msg, bool>> f; std::vector<uint8_t> orig; size_t at = 0; bool stalled = false; };
  std::vector<std::deque<Job>> queues(256);
  int msgs = R.range(2, 14);
  std::set<int> live;
  for (int k = 0; k < msgs; k++)
  {
    int stream = R.pick(r.l.streams);
    std::vector<uint8_t> v = lmContent(std::min(randomLen(r.rx.bufLen), 900u));
    if (v.empty() && R.chance(80)) v.resize(3, 7);
    Job j; j.orig = v;
    for (auto &m : capture(v, stream)) j.f.push_back({m, false});
    int n = (int)j.f.size();
    int fault = R.chance(45) ? R.range(0, 6) : 99;
    // the sender's own context is free again, its clock does not matter
    if (n > 1) switch (fault)
    {
      case 0: j.f.erase(j.f.begin() + R.range(1, n - 1)); count("fault_lost"); break;
      case 1: j.f.resize(n - R.range(1, n - 1)); count("fault_lost_tail"); break;
      case 2: j.f.erase(j.f.begin()); count("fault_lost_header"); break;
      case 3: { int i = R.range(0, n - 2); std::swap(j.f[i], j.f[i + 1]); count("fault_swapped"); break; }
      case 4: { int i = R.range(0, n - 1); auto c = j.f[i]; j.f.insert(j.f.begin() + R.range(i, n), c); count("fault_duplicated"); break; }
      case 5: // one damaged byte of the contents
      {
        if (v.size() >= 2 && R.chance(6)) // damaged so that the CRC of what arrives is zero
        {
          std::vector<uint8_t> w = v; unsigned at = (unsigned)w.size() - 2;
          bool found = false;
          for (unsigned p = 0; p < 65536 && !found; p++) { w[at] = (uint8_t)(p >> 8); w[at + 1] = (uint8_t)p; found = lmCrc(w) == 0; }
          if (found && w != v) { for (unsigned b = at; b < at + 2; b++) j.f[1 + b / 5].first.d[3 + b % 5] = w[b]; count("fault_damaged_to_crc_0"); break; }
        }
        unsigned b = (unsigned)R.below(v.size());
        auto &x = j.f[1 + b / 5]; x.first.d[3 + b % 5] ^= (uint8_t)R.range(1, 255); x.second = true; count("fault_damaged"); break;
      }
      case 6: j.stalled = true; count("fault_stalled"); break;
      default: count("fault_none");
    }
    queues[stream].push_back(j); live.insert(stream);
  }
  auto advance = [&](unsigned long ms) {
    unsigned long end = sim::now + ms;
    while (sim::now < end) { sim::now += std::min<unsigned long>(end - sim::now, R.range(1, 700)); r.rx.poll(); r.l.tick(); r.l.n->drain(0); settle(r, "poll"); }
  };
  std::vector<int> order(live.begin(), live.end());
  int concurrency = R.range(1, 5);
  while (!order.empty())
  {
    int s = order[R.below(std::min<size_t>(order.size(), concurrency))];
    auto &q = queues[s];
    if (q.empty()) { order.erase(std::find(order.begin(), order.end(), s)); continue; }
    Job &j = q.front();
    if (j.at >= j.f.size()) { q.pop_front(); continue; }
    if (j.stalled && j.at == j.f.size() / 2) { j.stalled = false; advance(r.l.timeout + R.range(0, 500)); }
    auto &x = j.f[j.at++];
    logf("stream %d fragment %s", s, x.first.str().c_str());
    r.rx.frame(x.first, &j.orig);
    if (R.chance(15)) r.l.n->can.rx.push_back(Node::frame(fullMsg(R.pick({0x90, 0x98, 0xB1, 0x0D, 0x00, 0xE8}), {0x77, 0x77}), 0x55));
    r.l.n->can.rx.push_back(Node::frame(x.first, 0x22)); r.l.n->drain(0);
    settle(r, "fragment received"); count("fragments_delivered");
    if (R.chance(20)) advance(R.chance(3) ? r.l.timeout + 1 : R.range(1, 300));
  }
  advance(r.l.timeout + 800);
  if (!r.rx.active.empty()) harnessError("model still active");
  // every context is usable again
  std::vector<std::vector<Msg>> fin; std::vector<std::vector<uint8_t>> finBytes;
  std::vector<uint8_t> ss = r.l.streams; if (ss.size() > r.rx.nctx) ss.resize(r.rx.nctx);
  for (int s : ss) { finBytes.push_back(lmContent(R.range(1, (int)r.rx.bufLen))); fin.push_back(capture(finBytes.back(), s)); }
  for (size_t i = 0;; i++)
  {
    bool more = false;
    for (size_t z = 0; z < fin.size(); z++) if (auto &f = fin[z]; i < f.size()) { more = true; r.rx.frame(f[i], &finBytes[z]); r.l.n->can.rx.push_back(Node::frame(f[i], 0x22)); r.l.n->drain(0); }
    if (!more) break;
  }
  int complete = 0; for (auto &d : r.l.got) if (d.status == LM_COMPLETE) complete++;
  settle(r, "after all faults");
  if (complete != (int)ss.size()) violation("contexts-lost", "after all faults only %d of %zu concurrent messages were delivered", complete, ss.size());
  count("contexts_reclaimed", ss.size());
}

// Sending takes memory; whatever the length of a message, it comes back once the message has gone.
void memoryReturned()
{
  ExNode &e = *makeNode(0, 0x0101, 1, true);
  auto send = [&](unsigned len) {
    std::vector<uint8_t> v = lmContent(len); if (v.empty()) v.push_back(0);
    if (!e.l.n->lmsEx->sendLongMessage(v.data(), len, (byte)R.byte())) violation("refused-with-room", "sendLongMessage refused while nothing is in progress");
    for (int i = 0; e.l.n->lmsEx->is_sending(); i++) { if (i > 20000) violation("never-sent", "message still being sent"); sim::now += 21; e.l.tick(); e.l.n->drain(0); }
    e.l.n->can.tx.clear();
  };
  for (int kinds = R.range(1, 3); kinds-- > 0;)
  {
    unsigned len = R.chance(30) ? R.range(1266, 1300) : R.chance(10) ? R.range(0, 6) : R.range(1, 400);
    send(len);
    long before = allocLive;
    unsigned n = 2 * e.nsend + 2;
    for (unsigned i = 0; i < n; i++) send(len);
    if (allocLive - before > (long)e.nsend) violation("memory", "%ld blocks of memory more in use after %u messages of %u bytes, none in progress, %u contexts", allocLive - before, n, len, e.nsend);
    count("memory_returned"); count(len >= 1276 && len <= 1280 ? "memory_returned_wrapped" : "memory_returned_other");
  }
}
}

CHECK_DEF(C19, 2500, 50000, "A case is either two or three nodes with extended long message services sending concurrent messages to each other until contexts run out, or one receiver fed interleaved messages of a real sender with lost, swapped, duplicated, damaged or stalled fragments. Every status and every byte delivered is compared with a fragment-by-fragment model.")
{
  int k = R.range(0, 99);
  if (k < 47) endToEnd(); else if (k < 94) faulty(); else memoryReturned();
}
