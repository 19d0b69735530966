// Several modules and a configuration tool on one bus: CAN IDs become and stay distinct, conversations stay separate.
#include "model.h"
using namespace vm;

namespace {
struct BusFrame { unsigned long t; Frame f; int from; };
const int TOOL = -1;
struct Net
{
  std::vector<Node *> nodes;
  std::vector<bool> on;             // powered
  std::vector<int> stall;           // ms during which the node does not poll
  std::deque<BusFrame> wire;        // sent, waiting for the bus
  std::vector<BusFrame> log;        // everything that was on the bus
  int toolId = 127;
  int rate = 2, stepsMin = 2, stepsMax = 4; bool stalls = false;

  void attach(Node *n)
  {
    int i = (int)nodes.size();
    nodes.push_back(n); on.push_back(true); stall.push_back(0);
    n->can.onSend = [this, i](const Frame &f) { wire.push_back({sim::now, f, i}); };
  }
  void put(const Msg &m) { wire.push_back({sim::now, Node::frame(m, toolId), TOOL}); }
  void deliver(const BusFrame &b)
  {
    log.push_back({sim::now, b.f, b.from});
    observe(mix(b.f.id, mix(b.from, b.f.len ? b.f.data[0] : b.f.rtr)));
    for (size_t i = 0; i < nodes.size(); i++) if ((int)i != b.from && on[i]) nodes[i]->can.rx.push_back(b.f);
    if (b.f.rtr && b.from != TOOL) { Frame a; memset(&a, 0, sizeof a); a.id = (0xB << 7) | toolId; wire.push_back({sim::now, a, TOOL}); count("tool_answers"); }
  }
  void run(int ms)
  {
    for (int t = 0; t < ms; t++)
    {
      sim::now++;
      for (int k = R.range(1, rate); k > 0 && !wire.empty(); k--) { BusFrame b = wire.front(); wire.pop_front(); deliver(b); }
      size_t n = nodes.size();
      std::vector<int> order(n);
      for (size_t i = 0; i < n; i++) order[i] = (int)i;
      for (size_t i = n; i > 1; i--) std::swap(order[i - 1], order[R.below(i)]);
      for (int i : order)
      {
        if (!on[i]) continue;
        if (stall[i] > 0) { stall[i]--; continue; }
        if (stalls && R.chance(1)) { stall[i] = R.range(1, 8); continue; }
        for (int k = R.range(stepsMin, stepsMax); k > 0; k--) nodes[i]->step();
      }
    }
  }
  bool idle()
  {
    if (!wire.empty()) return false;
    for (size_t i = 0; i < nodes.size(); i++) if (on[i] && (!nodes[i]->can.rx.empty() || nodes[i]->ctl->pendingAction())) return false;
    return true;
  }
  // Until nothing moves and every enumeration has ended.
  void settle()
  {
    for (int k = 0; k < 200; k++)
    {
      size_t mark = log.size();
      run(125);
      if (idle() && log.size() == mark) return;
    }
    violation("bus-never-quiet", "the bus is still busy 25 s after the last command");
  }
  std::string ids() { std::string s; for (size_t i = 0; i < nodes.size(); i++) { char b[48]; snprintf(b, sizeof b, "%zu:%04X@%d%s ", i, nodes[i]->nn(), nodes[i]->conf->CANID, on[i] ? "" : "(off)"); s += b; } return s; }
};
}

CHECK_DEF(C28, 2000, 14000, "A case puts 2 to 8 real modules and a configuration tool on one simulated bus with random CAN IDs (often equal), polling orders and stalls, lets each transmit in turn, and checks that the identifiers end up distinct, stored and stable; then queries, commands, events, renumbering, conflicting CAN IDs and late power-ups are checked for who answers and whose storage changes. Coverage counts (modules, initial clashes, round) states.")
{
  Net net;
  int count_ = R.range(2, 8);
  net.rate = R.range(1, 3); net.stalls = R.chance(40);
  net.stepsMin = net.rate + 1; net.stepsMax = net.rate + R.range(1, 4);
  net.toolId = R.chance(70) ? 127 : R.range(1, 127);
  sim::now = R.pick({1000ul, 250000ul, 4294960000ul});
  std::set<int> nns; bool zero = false;   // an ID of 0, never set, is kept until it clashes
  int clash = R.range(1, 99), kind = R.range(0, 3);
  std::vector<Node *> keep;
  std::vector<Table> tables(count_);
  for (int i = 0; i < count_; i++)
  {
    Geometry g; g.events = R.range(2, 6); g.evs = R.range(1, 3); g.nvs = R.range(1, 5);
    bool diag = R.chance(50);
    g.services = {diag ? S_MNSD : S_MNS, R.chance(50) ? S_CAN : S_CAND, S_NV, S_TEACH, S_CONS, S_PROD};
    if (R.chance(30)) std::rotate(g.services.begin(), g.services.begin() + R.range(0, 5), g.services.end());
    Identity id; id.flags = 0;
    do id.nn = R.chance(30) && !nns.empty() ? (*nns.begin() ^ (1 << R.range(0, 15))) : randomOwn(); while (id.nn == 0 || nns.count(id.nn));
    nns.insert(id.nn);
    id.canid = kind == 0 ? clash : kind == 1 ? R.range(1, 4) : kind == 2 ? R.chance(10) ? 0 : R.range(1, 99) : R.chance(50) ? clash : R.range(1, 10);
    if (id.canid == 0) { zero = true; count("can_id_zero"); }
    Node *n = new Node(g);
    n->preset(id);
    net.attach(n);
    n->boot();
    tables[i].init(g);
  }
  logf("%d modules, tool %d, initially %s", count_, net.toolId, net.ids().c_str());
  {
    std::map<int, int> c; for (auto *n : net.nodes) c[n->conf->CANID]++;
    int m = 0; for (auto &x : c) m = std::max(m, x.second);
    state(mix(count_, m));
  }
  net.settle();
  auto distinct = [&](const char *when) {
    std::map<int, int> who; who[net.toolId] = TOOL;
    for (int i = 0; i < count_; i++)
    {
      if (!net.on[i]) continue;
      int id = net.nodes[i]->conf->CANID;
      observe(id);
      if (id < (zero ? 0 : 1) || id > 127) violation("can-id-invalid", "%s: module %d has CAN ID %d", when, i, id);
      if (who.count(id)) violation("can-ids-not-distinct", "%s: modules %d and %d share CAN ID %d (%s)", when, who[id], i, id, net.ids().c_str());
      who[id] = i;
      if (net.nodes[i]->st->mem[1] != id) violation("can-id-not-stored", "%s: module %d uses CAN ID %d, storage holds %d", when, i, id, net.nodes[i]->st->mem[1]);
    }
    count("distinct_checks");
  };
  // Ask one module and see who answers.
  auto ask = [&](int target, const Msg &m, bool mayWrite) {
    std::vector<std::vector<uint8_t>> before;
    for (auto *n : net.nodes) before.push_back(n->st->mem);
    size_t mark = net.log.size();
    net.put(m);
    net.settle();
    std::vector<Msg> answers;
    for (size_t k = mark; k < net.log.size(); k++)
    {
      auto &b = net.log[k];
      if (b.from == TOOL || b.f.rtr || b.f.len == 0) continue;
      Msg a(b.f);
      if (b.from != target) violation("answered-by-other", "%s for module %d (%04X) was answered by module %d with %s; %s", m.str().c_str(), target, net.nodes[target]->nn(), b.from, a.str().c_str(), net.ids().c_str());
      if (a.len >= 3 && a.op() != OPC_PARAMS && a.op() != OPC_NAME && a.nn() != net.nodes[target]->nn()) violation("answered-with-other-number", "%s for module %04X was answered %s", m.str().c_str(), net.nodes[target]->nn(), a.str().c_str());
      answers.push_back(a);
    }
    for (int i = 0; i < count_; i++)
    {
      if (i == target && mayWrite) continue;
      before[i][1] = net.nodes[i]->st->mem[1];
      if (before[i] != net.nodes[i]->st->mem) violation("other-module-changed", "%s for module %d changed the storage of module %d", m.str().c_str(), target, i);
    }
    count("commands");
    return answers;
  };
  auto turns = [&](const char *when) {
    std::vector<int> order; for (int i = 0; i < count_; i++) if (net.on[i]) order.push_back(i);
    for (size_t i = order.size(); i > 1; i--) std::swap(order[i - 1], order[R.below(i)]);
    net.put({OPC_ASON, 0, 0, 0, 1}); net.settle(); // the tool does not change its own CAN ID
    for (int i : order)
    {
      size_t mark = net.log.size();
      if (R.chance(50) || net.nodes[i]->conf->currentMode != MODE_NORMAL) { auto a = ask(i, withNN(OPC_RQEVN, net.nodes[i]->nn()), false); if (a.size() != 1) violation("not-answered", "%s: RQEVN for module %d (%s) was answered %s", when, i, net.ids().c_str(), str(a).c_str()); }
      else
      {
        Node *p = Node::current; Node::current = net.nodes[i]; net.nodes[i]->ctl->sendMessageWithNN(OPC_ASON, (byte)0, (byte)R.byte()); Node::current = p;
        net.settle();
      }
      for (size_t k = mark; k < net.log.size(); k++) if (net.log[k].f.rtr) count("enumerations");
    }
    distinct(when);
    // they stay so
    std::vector<int> ids; for (auto *n : net.nodes) ids.push_back(n->conf->CANID);
    size_t mark = net.log.size();
    for (int i : order) { Node *p = Node::current; Node::current = net.nodes[i]; net.nodes[i]->ctl->sendMessageWithNN(OPC_ACON, (byte)9, (byte)R.byte()); Node::current = p; }
    net.put({OPC_QNN}); net.settle();
    std::vector<int> pnn(count_);
    for (size_t k = mark; k < net.log.size(); k++)
    {
      auto &b = net.log[k];
      if (b.f.rtr) violation("enumeration-without-clash", "%s: module %d enumerates again although all CAN IDs are distinct (%s)", when, b.from, net.ids().c_str());
      if (b.from >= 0 && b.f.len && b.f.data[0] == OPC_PNN) { pnn[b.from]++; if (Msg(b.f).nn() != net.nodes[b.from]->nn()) violation("pnn-number", "module %04X answered QNN with %s", net.nodes[b.from]->nn(), Msg(b.f).str().c_str()); }
      if (b.from >= 0 && (int)(b.f.id & 0x7F) != net.nodes[b.from]->conf->CANID) violation("header-id", "module %d with CAN ID %d sent %s", b.from, net.nodes[b.from]->conf->CANID, str(b.f).c_str());
    }
    for (int i : order) if (pnn[i] != 1) violation("qnn-answers", "%s: module %d answered QNN %d times", when, i, pnn[i]);
    for (int i = 0; i < count_; i++) if (net.nodes[i]->conf->CANID != ids[i]) violation("can-id-changed", "%s: CAN ID of module %d changed from %d to %d without a clash", when, i, ids[i], net.nodes[i]->conf->CANID);
    state(mix(count_, mix(hashStr(when), std::min<int>(6, (int)order.size()))));
    count("rounds");
  };
  turns("after start");
  int rounds = R.range(3, 10);
  for (int r = 0; r < rounds; r++)
  {
    int t = (int)R.below(count_);
    Node &n = *net.nodes[t];
    int nn = n.nn();
    switch (R.range(0, 8))
    {
      case 0: // values kept apart
      {
        int i = R.range(1, n.g.nvs), v = R.byte();
        auto a = ask(t, withNN(OPC_NVSET, nn, {i, v}), true);
        if (a.empty() || a[0] != wrack(n)) violation("not-answered", "NVSET was answered %s", str(a).c_str());
        a = ask(t, withNN(OPC_NVRD, nn, {i}), false);
        if (a.size() != 1 || a[0] != withNN(OPC_NVANS, nn, {i, v})) violation("value", "NVRD was answered %s", str(a).c_str());
        count("values"); break;
      }
      case 1: { auto a = ask(t, withNN(R.pick({OPC_RQEVN, OPC_NNEVN}), nn), false); if (a.size() != 1) violation("not-answered", "query was answered %s", str(a).c_str()); break; }
      case 2: { auto a = ask(t, withNN(OPC_RQNPN, nn, {1}), false); if (a.size() != 1 || a[0].op() != OPC_PARAN) violation("not-answered", "RQNPN was answered %s", str(a).c_str()); break; }
      case 3: // teach one module; the event then reaches those and only those that know it
      {
        int enn = R.range(1, 9), en = R.range(1, 3);
        std::vector<int> who; for (int i = 0; i < count_; i++) if (R.chance(50)) who.push_back(i);
        for (int i : who)
        {
          Node &x = *net.nodes[i];
          if (tables[i].find(enn, en) >= 0 || tables[i].used() >= tables[i].size()) continue;
          ask(i, withNN(OPC_NNLRN, x.nn()), false);
          auto a = ask(i, evMsg(OPC_EVLRN, enn, en, {1, 0}), true);
          if (a.empty() || a[0] != wrack(x)) violation("not-answered", "EVLRN was answered %s", str(a).c_str());
          ask(i, withNN(OPC_NNULN, x.nn()), false);
          for (auto &e : tables[i].e) if (!e.used) { e.used = true; e.nn = enn; e.en = en; break; }
        }
        for (auto *x : net.nodes) x->eventCalls.clear();
        bool byTool = R.chance(50);
        if (byTool) net.put(evMsg(OPC_ACON, enn, en));
        else { Node *p = Node::current; Node::current = &n; Msg m = evMsg(OPC_ACON, enn, en); VLCB::VlcbMessage vm_; memset(&vm_, 0, sizeof vm_); vm_.len = 5; memcpy(vm_.data, m.d, 5); n.ctl->sendMessage(&vm_); Node::current = p; }
        net.settle();
        for (int i = 0; i < count_; i++)
        {
          size_t want = net.on[i] && tables[i].find(enn, en) >= 0 && (byTool || i != t) ? 1 : 0;
          observe(want);
          if (net.nodes[i]->eventCalls.size() != want) violation("event-delivery", "event %04X/%04X called the handler of module %d %zu times, expected %zu", enn, en, i, net.nodes[i]->eventCalls.size(), want);
          if (want) count("events_delivered");
        }
        break;
      }
      case 4: // the tool makes two modules clash
      {
        int o = (int)R.below(count_);
        auto a = ask(t, withNN(OPC_CANID, nn, {std::max(1, std::min(99, (int)net.nodes[o]->conf->CANID))}), true);
        if (a.empty() || a[0] != wrack(n)) violation("not-answered", "CANID was answered %s", str(a).c_str());
        count("forced_clashes");
        turns("after forced clash"); break;
      }
      case 5:
      {
        auto a = ask(t, withNN(OPC_ENUM, nn), true);
        if (a.size() != 1 || a[0] != withNN(OPC_NNACK, nn)) violation("not-answered", "ENUM was answered %s", str(a).c_str());
        distinct("after ENUM"); count("enum_commands"); break;
      }
      case 6: // a module is replaced by one with an arbitrary stored CAN ID
      {
        n.st->mem[1] = R.chance(60) ? net.nodes[R.below(count_)]->conf->CANID : (uint8_t)R.range(1, 99);
        net.on[t] = false; n.powerOff(); net.run(R.range(0, 50)); net.on[t] = true;
        n.boot(); net.settle();
        count("late_power_ups");
        turns("after power-up"); break;
      }
      case 7: // renumbering one module leaves the others alone
      {
        int fresh; do fresh = R.range(1, 65534); while (nns.count(fresh));
        size_t mark = net.log.size();
        std::vector<std::vector<uint8_t>> before; for (auto *x : net.nodes) before.push_back(x->st->mem);
        net.put(withNN(OPC_MODE, nn, {MODE_SETUP})); net.settle();
        net.put(withNN(OPC_SNN, fresh)); net.settle();
        int ack = 0;
        for (size_t k = mark; k < net.log.size(); k++)
        {
          auto &b = net.log[k];
          if (b.from == TOOL || b.f.rtr || !b.f.len) continue;
          if (b.from != t) violation("answered-by-other", "renumbering module %d made module %d send %s", t, b.from, Msg(b.f).str().c_str());
          if (b.f.data[0] == OPC_NNACK && Msg(b.f).nn() == fresh) ack++;
        }
        if (ack != 1 || n.nn() != fresh) violation("renumber", "SNN %04X acknowledged %d times, module has %04X", fresh, ack, n.nn());
        for (int i = 0; i < count_; i++) { if (i == t) continue; before[i][1] = net.nodes[i]->st->mem[1]; if (before[i] != net.nodes[i]->st->mem) violation("other-module-changed", "renumbering module %d changed module %d", t, i); }
        nns.erase(nn); nns.insert(fresh); count("renumbered"); break;
      }
      case 8: // learn mode of one module does not make another learn
      {
        int o = (t + 1) % count_;
        ask(t, withNN(OPC_NNLRN, nn), false);
        auto slots = net.nodes[o]->slots();
        Msg m = evMsg(OPC_EVULN, R.range(1, 9), R.range(1, 3));
        ask(t, m, true);
        int f = tables[t].find(m.nn(), m.en()); if (f >= 0) tables[t].e[f].used = false;
        if (slots != net.nodes[o]->slots()) violation("other-module-changed", "unlearning in module %d changed module %d", t, o);
        ask(t, withNN(OPC_NNULN, nn), false);
        count("unlearnt"); break;
      }
    }
  }
  turns("at the end");
}
