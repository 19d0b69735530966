// The same commands given one at a time and back to back: answers, calls and stored state must be the same.
#include "model.h"
using namespace vm;

namespace {
const size_t CAPACITY = 30; // of the action queue
struct Module
{
  Node *n;
  size_t tx = 0, ev = 0, rq = 0;
  bool reacts = false;
  void hook()
  {
    n->onEvent = [this](int i, const Msg &m) { if (reacts && n->prod && m.d[4] % 3 == 0) sendEvent(*n, m.op() & 1, i % 5 + 1, {i}); };
    n->onRequest = [this](int i, const Msg &m) { if (reacts && n->prod) sendResponse(*n, m.d[4] & 1, i, m.d[4] & 2 ? std::vector<int>{i, 7} : std::vector<int>{}); };
  }
  // A message sent makes room for the activity it is indicated by.
  size_t actions() { size_t k = n->rec->actions.size(); for (; at < k; at++) if (n->rec->actions[at].actionType == VLCB::ACT_MESSAGE_OUT) outs++; return k - outs; }
  size_t at = 0, outs = 0;
};
struct Result { std::vector<Msg> sent, events, requests; int rtr = 0, empty = 0; };
Result take(Module &m)
{
  Result r; Node &n = *m.n;
  for (; m.tx < n.can.tx.size(); m.tx++) { const Frame &f = n.can.tx[m.tx].f; if (f.rtr) r.rtr++; else if (f.len == 0) r.empty++; else r.sent.push_back(Msg(f)); }
  auto calls = [](std::vector<HandlerCall> &v, size_t &at, std::vector<Msg> &out) { for (; at < v.size(); at++) { Msg x = v[at].m; if (x.len < 8) x.d[x.len++] = (uint8_t)v[at].index; else x.d[0] ^= (uint8_t)v[at].index; out.push_back(x); } };
  calls(n.eventCalls, m.ev, r.events); calls(n.requestCalls, m.rq, r.requests);
  return r;
}
Frame raw(int canid, bool rtr) { Frame f; memset(&f, 0, sizeof f); f.id = 0x580 | canid; f.rtr = rtr; return f; }
}

CHECK_DEF(C32, 6000, 90000, "A case gives two copies of a module in the same random state several batches of random commands, events and requests whose actions fit in the queue together: one gets them one at a time, the other back to back with random polling between them. Every message sent, every handler call and the stored state are compared. Coverage counts (actions in the batch, messages answered) states.")
{
  Geometry g = randomGeometry(false);
  if (R.chance(60)) g.events = R.range(5, 25);
  if (g.nvs == 0) g.nvs = 3;
  if (R.chance(60)) g.nvs = R.range(3, 26);
  if (g.eventsStart) g.eventsStart = g.nvStart + g.nvs;
  if ((long)g.events * (4 + g.evs) + g.nvs > 7500) g.evs = 2;
  g.produced = 0;
  if (R.chance(30)) std::rotate(g.services.begin(), g.services.begin() + R.range(0, (int)g.services.size() - 1), g.services.end());
  g.services.push_back(S_REC);
  Identity id; id.nn = randomOwn(); id.canid = R.range(1, 99); id.flags = R.range(0, 1);
  World w; w.boot(g, id);
  std::vector<int> nns = usualNNs(id.nn), ens = usualENs();
  w.fill(R.range(0, std::min(g.events, 26)), nns, ens, 50);
  if (R.chance(10)) { auto &m = w.n->st->mem; m[0] = (uint8_t)MODE_UNINITIALISED; m[1] = m[2] = m[3] = 0; }
  Module one, all;
  one.n = w.n; one.n->restart();
  all.n = new Node(g); all.n->st->mem = one.n->st->mem; all.n->boot(); all.n->drain();
  one.reacts = all.reacts = R.chance(50);
  one.hook(); all.hook(); take(one); take(all); all.n->eventCalls.clear(); one.n->eventCalls.clear();
  auto press = [&](VLCB::ACTION a) { for (Module *m : {&one, &all}) { Node *p = Node::current; Node::current = m->n; m->n->ctl->putAction(a); m->n->drain(); Node::current = p; } };
  auto both = [&](const Msg &m) { one.n->ask(m); all.n->ask(m); };
  if (one.n->nn() == 0) press(VLCB::ACT_CHANGE_MODE);
  else if (R.chance(10)) press(VLCB::ACT_RENEGOTIATE);
  if (R.chance(50)) both(withNN(OPC_NNLRN, one.n->nn()));
  sim::now += 150; one.n->drain(); all.n->drain();
  take(one); take(all);
  logf("%s nn %04X mode %02X", g.str().c_str(), one.n->nn(), one.n->conf->currentMode);

  auto command = [&]() {
    Node &n = *one.n;
    int own = n.nn(), to = R.chance(85) ? own : R.pick({own ^ 0x100, own ^ 1, 0});
    int nn = R.pick(nns), en = R.pick(ens), slot = (int)R.below(g.events), evs = std::max(1, g.evs);
    std::vector<int> us; for (int i = 0; i < g.events; i++) if (n.conf->getEvTableEntry((byte)i)) us.push_back(i);
    if (!us.empty() && R.chance(70)) { slot = R.pick(us); byte b[4]; n.conf->readEvent((byte)slot, b); nn = b[0] << 8 | b[1]; en = b[2] << 8 | b[3]; }
    if (nn == 0xFFFF && en == 0xFFFF) en = 1;
    switch (R.range(0, 33))
    {
      case 0: return withNN(OPC_SNN, R.pick({0x0100, 0x0200, 0x1234, 1}));
      case 1: return withNN(OPC_RQNN, R.byte());
      case 2: return withNN(OPC_NNLRN, to);
      case 3: return withNN(OPC_NNULN, to);
      case 4: return R.chance(20) ? withNN(OPC_NNCLR, to) : withNN(OPC_NNEVN, to);
      case 5: return withNN(OPC_NNEVN, to);
      case 6: case 7: return withNN(OPC_NERD, to);
      case 8: return withNN(OPC_RQEVN, to);
      case 9: return Msg({OPC_QNN});
      case 10: return Msg({R.pick({(int)OPC_RQNP, (int)OPC_RQMN})});
      case 11: return withNN(OPC_ENUM, to);
      case 12: return withNN(OPC_NVRD, to, {R.pick({0, R.range(1, g.nvs), g.nvs + 1, 255})});
      case 13: return withNN(OPC_NENRD, to, {R.chance(80) ? slot : R.byte()});
      case 14: return withNN(OPC_RQNPN, to, {R.pick({0, R.range(1, 20), 21, 255})});
      case 15: return withNN(OPC_CANID, to, {R.pick({R.range(1, 99), 0, 100})});
      case 16: return withNN(OPC_MODE, to, {R.pick({R.chance(20) ? (int)MODE_UNINITIALISED : 0x55, (int)MODE_SETUP, (int)MODE_NORMAL, (int)MODE_LEARN_ON, (int)MODE_LEARN_OFF, (int)MODE_HEARTBEAT_ON, (int)MODE_HEARTBEAT_OFF})});
      case 17: return withNN(OPC_RQSD, to, {R.pick({0, R.range(1, (int)g.services.size()), 255})});
      case 18: return evMsg(OPC_EVULN, nn, en);
      case 19: return withNN(OPC_NVSET, to, {R.pick({R.range(1, g.nvs), 0, g.nvs + 1}), R.byte()});
      case 20: return withNN(OPC_NVSETRD, to, {R.range(1, g.nvs), R.byte()});
      case 21: return withNN(OPC_REVAL, to, {slot, R.range(0, evs + 1)});
      case 22: return evMsg(OPC_REQEV, nn, en, {R.range(0, evs + 1)});
      case 23: case 24: return evMsg(OPC_EVLRN, nn, en, {R.range(0, evs + 1), R.byte()});
      case 25: return evMsg(OPC_EVLRNI, nn, en, {slot, R.range(1, evs), R.byte()});
      case 26: case 27: return evMsg(R.pick({OPC_AREQ, OPC_ASRQ}), nn, en);
      case 28: return fullMsg(R.byte() | 0x20);
      case 29: { Msg m = withNN(R.pick({(int)OPC_NVSET, (int)OPC_EVLRN, (int)OPC_RQNPN, (int)OPC_NVRD, (int)OPC_REVAL, (int)OPC_CANID}), own); return m; } // cut short
      default: { Msg m = evMsg(R.pick(eventOps()), nn, en); m.len = (uint8_t)opLen(m.op()); return m; }
    }
  };
  auto frameOf = [&]() {
    if (R.chance(5)) return raw(R.range(100, 127), R.chance(50));
    Msg m;
    do m = command(); while (m.op() == OPC_NNRSM || m.op() == OPC_NNRST || m.op() == OPC_RDGN || m.op() == OPC_BOOT);
    return Node::frame(m, 0x7E, R.range(0, 15));
  };
  auto text = [](const std::vector<Frame> &v) { std::string s; for (auto &f : v) s += f.rtr ? "RTR " : Msg(f).str() + " "; return s; };
  auto compare = [&](const Result &a, const Result &b, const std::vector<Frame> &batch, size_t actions) {
    for (auto &m : a.sent) observe(m.h());
    for (auto &m : a.events) observe(m.h());
    std::string t = text(batch);
    if (a.sent != b.sent)
    {
      bool order = sameSet(a.sent, b.sent);
      violation(order ? "answer-order" : b.sent.size() < a.sent.size() ? "answers-lost" : "answers", "%s(%zu actions): back to back answered %s, one at a time %s", t.c_str(), actions, str(b.sent).c_str(), str(a.sent).c_str());
    }
    if (a.events != b.events) violation("events", "%s: back to back the handler was called for %s, one at a time for %s", t.c_str(), str(b.events).c_str(), str(a.events).c_str());
    if (a.requests != b.requests) violation("requests", "%s: back to back the request handler was called for %s, one at a time for %s", t.c_str(), str(b.requests).c_str(), str(a.requests).c_str());
    if (a.rtr != b.rtr || a.empty != b.empty) violation("can-id-frames", "%s: back to back %d requests and %d answers for enumeration, one at a time %d and %d", t.c_str(), b.rtr, b.empty, a.rtr, a.empty);
    if (one.n->st->mem != all.n->st->mem)
    {
      size_t i = 0; while (one.n->st->mem[i] == all.n->st->mem[i]) i++;
      violation("stored-state", "%s: storage differs at %zu: %02X back to back, %02X one at a time", t.c_str(), i, all.n->st->mem[i], one.n->st->mem[i]);
    }
    std::string d = Snapshot::of(*one.n).diff(Snapshot::of(*all.n));
    if (!d.empty()) violation("state", "%s: %s", t.c_str(), d.c_str());
  };
  int rounds = R.range(3, 8);
  for (int r = 0; r < rounds; r++)
  {
    std::vector<Frame> batch;
    size_t used = 0;
    Frame last; bool over = false;
    bool listing = R.chance(30);
    size_t most = R.chance(40) ? R.range(2, 6) : 30;
    Result a;
    while (batch.size() < most)
    {
      Frame f = frameOf();
      // a long answer is still queued when the next commands are acted on
      if (listing && batch.empty()) f = Node::frame(withNN(R.pick({(int)OPC_NVRD, (int)OPC_NERD, (int)OPC_RQNPN}), one.n->nn(), {0}), 0x7E);
      else if (listing && R.chance(70)) f = Node::frame(R.chance(60) ? withNN(R.pick({(int)OPC_NVRD, (int)OPC_NENRD, (int)OPC_RQNPN, (int)OPC_CANID, (int)OPC_RQSD}), one.n->nn(), {255}) : R.chance(50) ? withNN(OPC_NVSET, one.n->nn(), {R.range(0, g.nvs), 1}) : withNN(R.pick({(int)OPC_NVSET, (int)OPC_RQEVN, (int)OPC_NNEVN}), one.n->nn()), 0x7E);
      size_t before = one.actions();
      one.n->can.rx.push_back(f); one.n->drain(0);
      if (used + one.actions() - before > CAPACITY - 1) { last = f; over = true; break; }
      used += one.actions() - before;
      batch.push_back(f);
      Result x = take(one);
      a.sent.insert(a.sent.end(), x.sent.begin(), x.sent.end()); a.events.insert(a.events.end(), x.events.begin(), x.events.end()); a.requests.insert(a.requests.end(), x.requests.begin(), x.requests.end()); a.rtr += x.rtr; a.empty += x.empty;
    }
    Result tail = over ? take(one) : Result();
    auto memAfter = one.n->st->mem; // includes the command that did not fit
    int gap = R.pick({0, 0, 1, 3});
    for (auto &f : batch) { all.n->can.rx.push_back(f); for (int k = gap ? R.range(0, gap) : 0; k > 0; k--) all.n->step(); }
    all.n->drain(0);
    Result b = take(all);
    if (over)
    {
      // catches up alone; a list longer than the queue is cut in the same way for both
      all.n->can.rx.push_back(last); all.n->drain(0);
      Result t2 = take(all);
      for (auto *p : {&a, &b}) { Result &q = p == &a ? tail : t2; p->sent.insert(p->sent.end(), q.sent.begin(), q.sent.end()); p->events.insert(p->events.end(), q.events.begin(), q.events.end()); p->requests.insert(p->requests.end(), q.requests.begin(), q.requests.end()); p->rtr += q.rtr; p->empty += q.empty; }
    }
    logf("batch of %zu: %s", batch.size(), text(batch).c_str());
    compare(a, b, batch, used);
    count("batches"); count("commands", batch.size()); count("answers", a.sent.size()); count("handler_calls", a.events.size() + a.requests.size());
    if (used >= 20) count("batches_near_capacity");
    if (a.rtr) count("enumerations");
    if (listing && batch.size() > 1) { count("batches_after_listing"); if (a.sent.size() > 20) count("batches_with_20_answers"); }
    state(mix(used, a.sent.size()));
    sim::now += R.chance(40) ? R.range(0, 60) : 150;
    one.n->drain(); all.n->drain();
    compare(take(one), take(all), {}, 0);
  }
}
