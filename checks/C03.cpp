// Learn mode: entered and left only as documented; nothing stored changes outside it; the flag tells the truth.
#include "model.h"
using namespace vm;

CHECK_DEF(C03, 8000, 120000, "A case is a random history of bus messages (teaching, learn-mode, mode, foreign, event and arbitrary opcodes of full length), user actions and restarts; after each step the event storage, the learn flag read over the bus and a read-event-variable probe are compared with a model of the learn state.")
{
  World w;
  Geometry g = randomGeometry(R.chance(30));
  if (R.chance(60)) g.events = R.range(1, 8);
  Identity id; id.nn = randomOwn(); id.canid = R.range(1, 99);
  w.boot(g, id);
  Node &n = *w.n;
  w.fill(R.range(0, g.events < 12 ? g.events : 12), usualNNs(id.nn), usualENs());
  bool learning = false;
  std::vector<uint8_t> before;
  auto events = [&] { return std::vector<uint8_t>(n.st->mem.begin() + g.resolvedEventsStart(), n.st->mem.begin() + g.end()); };
  int steps = R.range(15, 60);
  for (int s = 0; s < steps; s++)
  {
    int own = n.nn();
    int other = R.chance(50) ? (own + 1) & 0xFFFF : R.range(1, 65535);
    if (other == own || other == 0) other = (own ^ 0x0100) | 1;
    if (other == own) other ^= 2;
    int nn = own != 0 && R.chance(55) ? own : R.chance(80) || own == 0 ? other : 0;
    before = events();
    bool was = learning;
    int k = R.range(0, 99);
    Msg m;
    if (k < 3)
    {
      n.restart(); learning = false; count("restarts"); logf("restart");
    }
    else if (k < 6)
    {
      n.ctl->putAction(R.chance(50) ? VLCB::ACT_CHANGE_MODE : VLCB::ACT_RENEGOTIATE); n.drain(); logf("user action"); count("user_actions");
    }
    else
    {
      std::vector<int> us; for (int i = 0; i < w.t.size(); i++) if (w.t.e[i].used) us.push_back(i);
      int enn = R.range(0, 3), een = R.range(0, 3);
      if (!us.empty() && R.chance(60)) { int i = R.pick(us); enn = w.t.e[i].nn; een = w.t.e[i].en; }
      if (k < 20) m = withNN(OPC_NNLRN, nn);
      else if (k < 28) m = withNN(OPC_NNULN, nn);
      else if (k < 40) m = withNN(OPC_MODE, nn, {R.chance(70) ? R.range(8, 9) : R.pick({0xFF, 0, 1, 0x0A, 0x0B, 0x0C, 0x0D, 0x0E, 0x10, 0x88})});
      else if (k < 55) m = evMsg(OPC_EVLRN, enn, een, {R.range(0, g.evs + 1), R.byte()});
      else if (k < 62) m = evMsg(OPC_EVLRNI, enn, een, {R.range(0, g.events), R.range(0, g.evs + 1), R.byte()});
      else if (k < 72) m = evMsg(OPC_EVULN, enn, een);
      else if (k < 80) m = withNN(OPC_NNCLR, nn);
      else if (k < 84) m = withNN(OPC_SNN, own ? own : R.range(1, 65534));
      else if (k < 88) m = evMsg(R.pick(eventOps()), enn, een, {}), m.len = opLen(m.op());
      else
      {
        int op = R.byte();
        if (op == OPC_NNRSM || op == OPC_NNLRN || op == OPC_NNULN || op == OPC_MODE) op = OPC_QNN; // a factory reset does clear events
        m = fullMsg(op, {nn >> 8, nn & 255});
        if (op == OPC_SNN && m.nn() == 0) m.d[2] = 7;
      }
      auto got = n.ask(m);
      logf("%s -> %s", m.str().c_str(), str(got).c_str());
      if (m.op() == OPC_NNLRN) learning = nn == own;
      else if (m.op() == OPC_NNULN && nn == own) learning = false;
      else if (m.op() == OPC_MODE && nn == own && m.d[3] == MODE_LEARN_ON) learning = true;
      else if (m.op() == OPC_MODE && nn == own && m.d[3] == MODE_LEARN_OFF) learning = false;
      count(was ? "messages_in_learn" : "messages_outside_learn");
      if (was != learning) count(learning ? "learn_entered" : "learn_left");
    }
    bool changed = events() != before;
    observe(changed);
    if (changed && !was) violation("event-changed-outside-learn", "step %d changed stored events outside learn mode: %s", s, m.str().c_str());
    if (changed) count("event_changes_in_learn");
    // the learn flag as reported
    own = n.nn();
    auto got = n.ask(withNN(OPC_RQNPN, own, {PAR_FLAGS}));
    if (got.size() != 1 || got[0].op() != OPC_PARAN || got[0].d[3] != PAR_FLAGS) violation("flags-not-readable", "RQNPN 8 answered %s", str(got).c_str());
    bool flag = got[0].d[4] & PF_LRN;
    observe(flag);
    if (flag != learning) violation("learn-flag", "after %s the learn flag is %d, the learn state should be %d", m.str().c_str(), flag, learning);
    // the learn state as it acts: REQEV is answered only in learn mode
    got = n.ask(evMsg(OPC_REQEV, 0x7777, 0x7777, {1}));
    observe(got.size());
    if (got.empty() == learning) violation("learn-state", "after %s REQEV was answered %s although the learn state should be %d", m.str().c_str(), str(got).c_str(), learning);
    // keep a valid view of what is stored, for choosing arguments
    if (changed) for (int i = 0; i < w.t.size(); i++)
    {
      byte b[4]; n.conf->readEvent(i, b);
      w.t.e[i].used = n.conf->getEvTableEntry(i) != 0; w.t.e[i].nn = b[0] << 8 | b[1]; w.t.e[i].en = b[2] << 8 | b[3];
    }
    state(mix(mix(learning, n.conf->currentMode), w.t.h()));
  }
}
