// Basic long message service: what is sent reassembles to the message; what is delivered as complete is the message.
#include "longmsg.h"
using namespace vm;

namespace {
LmNode *makeNode(int i, int nn, int canid)
{
  LmNode *l = new LmNode;
  Geometry g; g.events = 4; g.nvs = 2; g.services = {S_MNS, S_CAN};
  if (R.chance(50)) g.services.push_back(S_CONS);
  g.services.push_back(S_LONG);
  Identity id; id.nn = nn; id.canid = canid;
  l->n = new Node(g); l->n->preset(id); l->n->boot(); l->n->drain();
  l->bufLen = R.chance(20) ? 1 : R.chance(50) ? R.range(2, 40) : R.range(41, 400);
  int k = R.range(1, 5);
  std::set<int> s; while ((int)s.size() < k) s.insert(R.chance(50) ? R.range(0, 12) : R.byte());
  l->streams.assign(s.begin(), s.end());
  if (R.chance(50)) { l->timeout = R.pick({1000, 2500, 5000, 20000}); l->n->lms->setTimeout((unsigned)l->timeout); }
  lmNodes[i] = l;
  lmSubscribe(i);
  return l;
}
Msg noise(LmNode &l, bool receiving)
{
  // traffic that does not belong to the message being received
  for (;;)
  {
    if (R.chance(30)) { Msg m = fullMsg(R.pick({0x90, 0x98, 0xB1, 0x0D, 0x00, 0xE8})); m.d[1] = 0x77; return m; }
    int s = R.byte();
    if (R.chance(40)) s = R.range(0, 12);
    bool sub = std::count(l.streams.begin(), l.streams.end(), s);
    (void)receiving;
    if (sub) continue;
    return Msg({0xE9, s, R.chance(30) ? 0 : R.chance(50) ? R.range(1, 4) : R.byte(), R.chance(50) ? 0 : R.byte(), R.byte(), R.byte(), R.byte(), R.chance(50) ? 0 : R.byte()});
  }
}
bool huge;
unsigned randomLen(bool small)
{
  int k = R.range(0, 99);
  if (k < 30) return R.range(1, 11);
  if (k < 40) return 5 * R.range(1, 20);
  if (k < 90 || small) return R.range(1, 200);
  if (k < 97) return R.range(1200, 1400);
  if (k < 99 || !R.chance(10)) return R.range(200, 4000);
  count("huge_messages"); huge = true;
  return R.chance(25) ? R.range(65500, 65535) : R.range(4000, 40000);
}

// A message broadcast by one node and received by another, over a fault-free bus with other traffic.
void endToEnd()
{
  huge = false;
  LmNode &a = *makeNode(0, 0x0101, 1), &b = *makeNode(1, 0x0102, 2);
  LmNode *ns[2] = {&a, &b};
  StreamMonitor mon[2][256];
  std::vector<Delivery> want[2]; // complete messages each node must deliver, in order
  std::vector<uint8_t> acc[2];
  std::vector<std::vector<uint8_t> *> keep;
  int active[2] = {-1, -1};
  for (int i = 0; i < 2; i++)
  {
    ns[i]->n->can.onSend = [&, i](const Frame &f) {
      Msg m(f);
      if (m.op() == OPC_DTXC) { mon[i][m.d[1]].frame(m); count("fragments_sent"); }
      Frame c = f; ns[1 - i]->n->can.rx.push_back(c);
    };
    ns[i]->onDelivery = [&, i](const Delivery &d) {
      if (d.status != LM_COMPLETE && d.status != LM_INCOMPLETE) violation("error-without-fault", "status %d on a fault-free bus", d.status);
      acc[i].insert(acc[i].end(), d.bytes.begin(), d.bytes.end());
      if (d.status == LM_COMPLETE)
      {
        if (want[i].empty()) violation("unexpected-delivery", "node %d delivered %s of stream %d", i, hex(acc[i].data(), acc[i].size()).c_str(), d.stream);
        Delivery &w = want[i].front();
        if (w.stream != d.stream || w.bytes != acc[i]) violation("delivered-bytes", "node %d delivered stream %d %s instead of stream %d %s", i, d.stream, hex(acc[i].data(), acc[i].size()).c_str(), w.stream, hex(w.bytes.data(), w.bytes.size()).c_str());
        want[i].erase(want[i].begin()); acc[i].clear(); count("complete");
      }
    };
  }
  int messages = R.range(2, 6);
  int sent = 0;
  int maxTick = R.pick({1, 5, 25, 60});
  // the delay between fragments stays below the receive timeout
  if (R.chance(50)) for (int i = 0; i < 2; i++) ns[i]->n->lms->setDelay((byte)(maxTick > 5 ? R.pick({0, 1, 20, 100}) : R.pick({0, 1, 20})));
  for (int guard = 0; ; guard++)
  {
    if (guard > 200000) violation("never-sent", "message still being sent after %d polls", guard);
    for (int i = 0; i < 2; i++)
    {
      LmNode &s = *ns[i], &r = *ns[1 - i];
      bool busy = s.n->lms->is_sending();
      if (!busy && active[i] >= 0 && !s.n->ctl->pendingAction())
      {
        if (mon[i][active[i]].active) violation("is-sending", "is_sending() is false before the whole message is sent");
        active[i] = -1;
      }
      // A node that is still receiving ignores other messages, so start one only when the receiver has finished.
      if (active[i] < 0 && sent < messages && R.chance(20) && r.n->can.rx.empty() && !r.n->ctl->pendingAction())
      {
        auto *v = new std::vector<uint8_t>(lmContent(randomLen(false)));
        int stream = R.chance(70) ? R.pick(r.streams) : R.byte();
        mon[i][stream].expect.push_back(*v);
        if (std::count(r.streams.begin(), r.streams.end(), stream)) { want[1 - i].push_back({0, *v, stream, LM_COMPLETE}); }
        active[i] = stream;
        if (!s.n->lms->sendLongMessage(v->data(), (unsigned)v->size(), (byte)stream)) violation("send-refused", "sendLongMessage refused although nothing is being sent");
        sent++; count("messages");
        state(mix(v->size() % 5, mix(r.bufLen, v->size())));
      }
      else if (busy && R.chance(5))
      {
        static uint8_t other[10];
        if (s.n->lms->sendLongMessage(other, 10, (byte)R.byte())) violation("send-accepted-while-busy", "sendLongMessage accepted while a message is being sent");
        count("refused_while_busy");
      }
    }
    if (sent >= messages && active[0] < 0 && active[1] < 0 && a.n->can.rx.empty() && b.n->can.rx.empty() && !a.n->ctl->pendingAction() && !b.n->ctl->pendingAction()) break;
    sim::now += R.range(0, huge ? 60 : maxTick);
    for (int i = 0; i < 2; i++) if (R.chance(10)) { Msg m = noise(*ns[i], true); ns[i]->n->can.rx.push_back(Node::frame(m, 0x55)); count("interleaved_frames"); }
    for (int i = 0; i < 2; i++)
    {
      ns[i]->tick();
      int k = R.range(2, 5); for (int j = 0; j < k; j++) ns[i]->n->step();
      if (ns[i]->n->can.rx.size() > 2 || guard % 8 == 7) ns[i]->n->drain(0); // the bus is never faster than the module
    }
  }
  for (int i = 0; i < 2; i++)
  {
    if (!want[i].empty()) violation("not-delivered", "node %d did not deliver %zu message(s), first of %zu bytes", i, want[i].size(), want[i].front().bytes.size());
    if (!acc[i].empty()) violation("partial-left", "node %d delivered a part without a final status", i);
  }
}

// Fragments are sent no closer than the delay set, and as soon as it is over.
void pacing()
{
  LmNode &l = *makeNode(0, 0x0101, 1);
  int delay = R.chance(20) ? 20 : R.chance(30) ? R.pick({0, 1, 2, 127, 128, 254, 255}) : R.byte();
  if (delay != 20 || R.chance(50)) l.n->lms->setDelay((byte)delay);
  struct Sent { unsigned long t; unsigned long poll; };
  std::vector<Sent> sent; unsigned long poll = 0;
  StreamMonitor mon;
  l.n->can.onSend = [&](const Frame &f) { Msg m(f); if (m.op() != OPC_DTXC) return; mon.frame(m); sent.push_back({sim::now, poll}); count("fragments_sent"); };
  unsigned long last = 0, header = 0; bool any = false;
  for (int k = R.range(1, 3); k-- > 0;)
  {
    std::vector<uint8_t> v = lmContent(R.range(1, 60));
    mon.expect.push_back(v); sent.clear(); header = sim::now;
    if (!l.n->lms->sendLongMessage(v.data(), (unsigned)v.size(), (byte)R.byte())) violation("send-refused", "sendLongMessage refused although nothing is being sent");
    l.n->drain(0);
    int step = R.pick({1, 3, 19, 20, 60, 255, 256, 300});
    for (int guard = 0; mon.active || !mon.expect.empty(); guard++)
    {
      if (guard > 60000) violation("never-sent", "message still being sent after %d polls", guard);
      sim::now += R.range(0, step); poll++;
      size_t before = sent.size();
      l.tick(); l.n->drain(0);
      size_t now = sent.size() - before;
      if (now > 1) violation("burst", "%zu fragments sent at one poll", now);
      if (now && any && last >= header && sim::now - last < (unsigned long)delay) violation("too-close", "fragment sent %lu ms after the one before, the delay is %d", sim::now - last, delay);
      if (!now && sim::now - std::max(last, header) >= (unsigned long)delay) violation("late", "no fragment sent %lu ms after the one before, the delay is %d", sim::now - std::max(last, header), delay);
      if (now) { last = sim::now; any = true; count("gaps_checked"); state(mix(delay, step)); }
    }
  }
}

// Messages fed to one receiver with faults.
void faulty()
{
  LmNode &l = *makeNode(0, 0x0101, 1);
  std::vector<uint8_t> acc;
  int completes = 0, errors = 0; unsigned long lastStatus = 0;
  std::vector<uint8_t> cur; int curStream = 0; bool mayComplete = false;
  l.onDelivery = [&](const Delivery &d) {
    acc.insert(acc.end(), d.bytes.begin(), d.bytes.end());
    if (d.status == LM_INCOMPLETE) return;
    lastStatus = sim::now;
    if (d.status == LM_COMPLETE)
    {
      if (!mayComplete) violation("complete-despite-loss", "stream %d reported complete although fragments were missing", d.stream);
      if (d.stream != curStream || acc != cur) violation("complete-with-wrong-bytes", "stream %d complete with %s instead of %s", d.stream, hex(acc.data(), acc.size()).c_str(), hex(cur.data(), cur.size()).c_str());
      completes++;
    }
    else { if (d.status != LM_SEQ && d.status != LM_TIMEOUT) violation("status", "undocumented status %d", d.status); errors++; }
    acc.clear();
  };
  auto deliver = [&](const Msg &m) { l.n->can.rx.push_back(Node::frame(m, 0x22)); l.n->drain(1); count("fragments_delivered"); };
  auto pass = [&](unsigned long ms) { // polled time
    unsigned long end = sim::now + ms;
    while (sim::now < end) { sim::now += std::min<unsigned long>(end - sim::now, R.range(1, 400)); l.tick(); l.n->step(); if (R.chance(20)) { l.n->can.rx.push_back(Node::frame(noise(l, true), 0x55)); l.n->drain(1); count("interleaved_frames"); } }
  };
  int msgs = R.range(2, 8);
  bool dirty = false; // a broken message has not been reported yet
  for (int k = 0; k < msgs; k++)
  {
    bool fault = R.chance(55);
    cur = lmContent(R.chance(5) ? R.range(640, 1275) : randomLen(true)); curStream = R.pick(l.streams);
    if (dirty && curStream != l.streams[0]) {} // the basic service ignores other streams until the timeout
    std::vector<Msg> fr = lmFrames(cur, curStream);
    std::vector<Msg> out = fr;
    bool header = true, stall = false; std::string what = "none";
    int stallAt = -1;
    bool dup = false;
    if (fault)
    {
      int f = R.range(0, 6); int n = (int)out.size();
      if (f == 0) { int i = R.range(1, n - 1); out.erase(out.begin() + i); what = "lost fragment"; }
      else if (f == 1) { int c = R.range(1, n - 1); out.resize(n - c); what = "lost tail"; }
      else if (f == 2) { out.erase(out.begin()); header = false; what = "lost header"; }
      else if (f == 3 && n > 2) { int i = R.range(0, n - 2); std::swap(out[i], out[i + 1]); header = i != 0; what = "swapped"; }
      else if (f == 4) { int i = R.range(1, n - 1); out.insert(out.begin() + R.range(i, n), out[i]); what = "duplicated"; dup = true; }
      else if (f == 5) { stall = true; stallAt = R.range(1, n - 1); what = "stalled"; }
      else if (f == 6 && n > 3)
      {
        // a run of fragments; 256 of them could not be told from their numbers
        int most = std::min(n - 2, 255), k = most >= 128 && R.chance(50) ? 128 : R.chance(30) ? most : R.range(2, most);
        int i = R.range(1, n - 1 - k); out.erase(out.begin() + i, out.begin() + i + k); what = "lost run"; if (k >= 128) count("lost_runs_of_128");
      }
      else { fault = false; what = "none"; }
    }
    count(std::string("fault_") + what);
    logf("message %d: %zu bytes stream %d fault %s", k, cur.size(), curStream, what.c_str());
    completes = errors = 0;
    mayComplete = !fault || dup;
    if (dirty) { pass(l.timeout + 1000); errors = 0; dirty = false; }
    for (size_t i = 0; i < out.size(); i++)
    {
      if (stall && (int)i == stallAt)
      {
        unsigned long t0 = sim::now;
        pass(l.timeout + 500);
        if (errors != 1) violation("no-timeout", "no single timeout status after the fragments stopped for %lu ms (timeout %lu): %d", sim::now - t0, l.timeout, errors);
        if (lastStatus - t0 < l.timeout) violation("early-timeout", "timeout status after %lu ms of a timeout of %lu", lastStatus - t0, l.timeout);
        count("timeouts_checked");
      }
      else
      {
        if (R.chance(40)) { unsigned long g = R.below(std::min<unsigned long>(l.timeout - 1, 900)); while (g > 0) { unsigned long s = std::min<unsigned long>(g, R.range(1, 300)); sim::now += s; g -= s; l.tick(); l.n->step(); } }
        if (R.chance(30)) { l.n->can.rx.push_back(Node::frame(noise(l, i > 0), 0x55)); l.n->drain(1); count("interleaved_frames"); }
      }
      deliver(out[i]);
    }
    bool clean = !fault;
    if (clean && (completes != 1 || errors)) violation("not-delivered", "fault-free message of %zu bytes: %d complete and %d error statuses", cur.size(), completes, errors);
    if (fault && header && !dup)
    {
      // a status is due now or at the timeout, or when the next message starts
      if (!errors && R.chance(60))
      {
        pass(l.timeout + 500);
        if (errors != 1) violation("no-error-status", "%s: %d error statuses and no more fragments for the timeout", what.c_str(), errors);
      }
      else if (!errors)
      {
        // the next message on the same stream starts at once
        std::vector<uint8_t> next = lmContent(R.range(1, 30));
        std::vector<Msg> nf = lmFrames(next, curStream);
        cur = next; mayComplete = true;
        for (auto &m : nf) deliver(m);
        if (errors != 1 || completes != 1) violation("next-not-accepted", "%s: a message started right after it: %d error and %d complete statuses", what.c_str(), errors, completes);
        count("next_message_at_once");
      }
      if (errors > 1) violation("several-errors", "%s: %d error statuses", what.c_str(), errors);
    }
    if (dup)
    {
      if (completes > 1) violation("delivered-twice", "message with a duplicated fragment completed %d times", completes);
      if (!completes && !errors) violation("no-status", "message with a duplicated fragment ended without any status");
      acc.clear();
    }
    if (!header && (errors || completes)) { if (what == "lost header") violation("status-without-header", "a status for a message whose header was lost"); }
    if (what == "swapped" && !header) dirty = true; // the late header has started a reception that will time out
    state(mix(hashStr(what), mix(cur.size() % 7, l.bufLen)));
  }
  pass(l.timeout + 1000);
  completes = errors = 0; acc.clear();
  pass(l.timeout + 1000);
  if (errors || completes) violation("stale-status", "a status after everything has ended");
}
}

CHECK_DEF(C18, 8000, 60000, "A case is either two nodes sending long messages to each other over a fault-free bus with interleaved traffic, or one receiver fed messages with lost, duplicated, swapped or stalled fragments, or one sender whose fragments are timed. Monitors reassemble what is sent and compare what is delivered as complete with it.")
{
  int k = R.range(0, 99);
  if (k < 46) endToEnd(); else if (k < 92) faulty(); else pacing();
}
