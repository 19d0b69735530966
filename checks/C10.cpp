// Mode and node-number life cycle against a state machine model.
#include "model.h"
using namespace vm;

CHECK_DEF(C10, 8000, 150000, "A case is a random history of button actions, mode, set-number, request-number and other messages for this and other nodes, and restarts; after each step the replies, the mode indicated to the user, the flags, the stored mode and number and the answers to identity queries are compared with a state machine.")
{
  Node::useGlobal = R.chance(15); if (Node::useGlobal) count("global_configuration");
  World w;
  Geometry g = randomGeometry(R.chance(30));
  g.events = R.range(1, 8); g.evs = R.range(1, 4);
  g.services.push_back(S_REC);
  if (R.chance(30)) std::rotate(g.services.begin(), g.services.begin() + R.range(0, (int)g.services.size() - 1), g.services.end());
  Identity id;
  bool virgin = R.chance(15);
  if (R.chance(50)) { id.nn = randomOwn(); id.canid = R.range(1, 99); }
  else { id.mode = MODE_UNINITIALISED; id.nn = 0; id.canid = 0; }
  id.flags = 0;
  w.g = g; w.n = new Node(g); w.t.init(g);
  Node &n = *w.n;
  if (virgin) { id.mode = MODE_UNINITIALISED; id.nn = 0; }
  else n.preset(id);
  n.boot(); n.drain();
  sim::restarts = 0; // the first start on virgin storage restarts the board

  enum { U = MODE_UNINITIALISED, S = MODE_SETUP, N = MODE_NORMAL };
  int inst = id.mode, stored = id.mode, nn = id.nn;
  bool learning = false, canidKnown = false;
  unsigned long enumUntil = 0;
  auto indicated = [&] { int m = -1; for (auto &a : n.rec->actions) if (a.actionType == VLCB::ACT_INDICATE_MODE) m = a.mode; return m; };
  int steps = R.range(10, 60);
  for (int s = 0; s < steps; s++)
  {
    int other = R.range(1, 65535); if (other == nn) other = nn ^ 1; if (other == 0) other = nn == 7 ? 8 : 7;
    int was = inst;
    std::vector<Msg> want;
    std::vector<Msg> got;
    size_t mark = n.can.tx.size();
    n.rec->actions.clear();
    int before = inst;
    std::string what;
    int k = R.range(0, 99);
    auto at = [&](int op, std::initializer_list<int> rest = {}) { return withNN(op, nn, rest); };
    auto grspAt = [&](int code) { return withNN(OPC_GRSP, nn, {OPC_MODE, SERVICE_ID_MNS, code}); };
    Msg m; bool isMsg = true;
    if (k < 14)
    {
      isMsg = false; what = "change-mode action";
      n.ctl->putAction(VLCB::ACT_CHANGE_MODE); n.drain();
      if (inst == U) { inst = S; want = {at(OPC_RQNN)}; enumUntil = sim::now + 100; canidKnown = false; count("setup_from_uninitialised"); }
      else
      {
        if (inst == N && nn) { want = {at(OPC_NNREL)}; count("uninitialised_by_button"); }
        inst = stored = U; nn = 0; canidKnown = enumUntil == 0;
      }
    }
    else if (k < 26)
    {
      isMsg = false; what = "renegotiate action";
      n.ctl->putAction(VLCB::ACT_RENEGOTIATE); n.drain();
      if (inst == S) { inst = stored; if (nn) want = {at(OPC_NNACK)}; count("setup_cancelled"); }
      else if (inst == N) { inst = S; want = {at(OPC_RQNN)}; count("setup_from_normal"); }
    }
    else if (k < 45)
    {
      int nw = R.chance(60) ? randomOwn() : R.chance(50) && nn ? nn : other;
      m = withNN(OPC_SNN, nw); what = "SNN";
      if (inst == S) { inst = stored = N; nn = nw; want = {withNN(OPC_NNACK, nw)}; count("numbers_set"); }
    }
    else if (k < 65)
    {
      static const int modes[] = {MODE_UNINITIALISED, MODE_SETUP, MODE_NORMAL, MODE_HEARTBEAT_ON, MODE_HEARTBEAT_OFF, MODE_EVENT_ACK_ON, MODE_EVENT_ACK_OFF, 0x0E, 2, 0x55, MODE_LEARN_ON, MODE_LEARN_OFF};
      int mode = R.chance(70) ? modes[R.below(5)] : modes[R.below(12)];
      bool own = nn != 0 && R.chance(75);
      m = withNN(OPC_MODE, own ? nn : other, {mode}); what = "MODE";
      if (own)
        switch (mode)
        {
          case MODE_UNINITIALISED:
            if (inst != U) { want.push_back(grspAt(GRSP_OK)); if (inst == N) want.push_back(at(OPC_NNREL)); inst = stored = U; nn = 0; canidKnown = enumUntil == 0; count("uninitialised_by_command"); }
            break;
          case MODE_SETUP:
            if (inst == N) { want = {grspAt(GRSP_OK), at(OPC_RQNN)}; inst = S; count("setup_by_command"); }
            else if (inst == S) want = {grspAt(GRSP_INVALID_MODE)};
            break;
          case MODE_NORMAL:
            if (inst == N) want = {grspAt(GRSP_OK)};
            else if (inst == S) want = {grspAt(GRSP_INVALID_MODE)};
            break;
          case MODE_HEARTBEAT_ON: case MODE_HEARTBEAT_OFF: break;
          default:
            if (inst != N) want = {grspAt(CMDERR_INV_CMD)};
            if (mode == MODE_LEARN_ON) learning = true;
            if (mode == MODE_LEARN_OFF) learning = false;
        }
    }
    else if (k < 71)
    {
      m = withNN(OPC_RQNN, R.chance(70) ? other : R.chance(50) ? 0 : nn); what = "RQNN";
      if (inst == S) { inst = stored; count("setup_aborted_by_other"); }
    }
    else if (k < 74 && nn)
    {
      m = withNN(R.chance(60) ? OPC_NNLRN : OPC_NNULN, nn); what = "learn"; learning = m.op() == OPC_NNLRN;
    }
    else if (k < 78)
    {
      isMsg = false; what = "restart";
      n.powerOff(); n.boot(); n.drain();
      inst = stored; learning = false; enumUntil = 0; canidKnown = false; before = -1;
      count("restarts");
    }
    else if (k < 84)
    {
      isMsg = false; what = "time passes";
      for (int i = 0, t = R.range(1, 25); i < t; i++) { sim::now += R.range(1, 20); n.step(); }
      n.drain();
    }
    else if (k < 92)
    {
      // acknowledgements and announcements of others, events, other nodes' commands
      int o = R.pick({OPC_NNACK, OPC_NNREL, OPC_PNN, OPC_WRACK, OPC_ACON, OPC_ASON, OPC_NVRD, OPC_HEARTB, OPC_NAME, OPC_PARAMS, OPC_NNRST, OPC_GRSP, OPC_RTON, OPC_STAT});
      m = fullMsg(o, {other >> 8, other & 255}); what = "foreign message";
    }
    else if (k < 96 && inst == S)
    {
      m = Msg({OPC_SNN, R.byte()}); m.len = (uint8_t)R.range(1, 2); what = "truncated SNN"; // never accepted
      got = n.ask(m); isMsg = false;
      for (auto &x : got) if (!isError(x)) violation("truncated-snn", "truncated SNN answered %s", str(got).c_str());
      got.clear(); mark = n.can.tx.size();
      count("truncated_snn");
    }
    else { m = Msg({OPC_QNN}); what = "QNN"; isMsg = false; }
    if (isMsg) { got = n.ask(m); what += " " + m.str(); } else got = n.sentSince(mark);
    if (enumUntil && sim::now >= enumUntil) { for (int i = 0; i < 3; i++) n.step(); n.drain(); enumUntil = 0; canidKnown = false; }
    logf("%s in mode %02X -> %s, mode %02X nn %04X", what.c_str(), was, str(got).c_str(), inst, nn);
    for (auto &x : got) observe(x.h());
    if (sim::restarts) violation("restarted", "%s in mode %02X restarted the module", what.c_str(), was);
    observe(mix(was, inst));
    if (!sameSet(got, want)) violation("replies", "%s in mode %02X: expected %s got %s", what.c_str(), was, str(want).c_str(), str(got).c_str());
    // orders that matter: a number is released before anything else is said under the new state
    if (want.size() == 2 && got != want) violation("reply-order", "%s in mode %02X: expected %s got %s", what.c_str(), was, str(want).c_str(), str(got).c_str());
    // indication to the user
    int ind = indicated();
    if (before != -1 && inst != before && ind != inst) violation("indication", "%s: mode changed from %02X to %02X but the user interface was shown %02X", what.c_str(), before, inst, ind);
    if (before != -1 && inst == before && ind != -1 && ind != inst) violation("indication", "%s: mode stays %02X but the user interface was shown %02X", what.c_str(), inst, ind);
    if (before == -1 && ind != -1 && ind != inst) violation("indication", "after a restart in mode %02X the user interface was shown %02X", inst, ind);
    // persisted state
    if (n.st->mem[0] != stored || ((n.st->mem[2] << 8) | n.st->mem[3]) != nn) violation("stored", "%s: stored mode %02X number %02X%02X, expected %02X %04X", what.c_str(), n.st->mem[0], n.st->mem[2], n.st->mem[3], stored, nn);
    if (n.nn() != nn || n.conf->currentMode != stored) violation("configuration", "%s: configuration has mode %02X number %04X, expected %02X %04X", what.c_str(), n.conf->currentMode, n.nn(), stored, nn);
    if (inst == U && canidKnown && (n.conf->CANID != 0 || n.st->mem[1] != 0)) violation("canid-not-cleared", "%s: Uninitialised with CAN ID %d", what.c_str(), n.conf->CANID);
    // identity queries
    got = n.ask({OPC_QNN});
    if (nn == 0) { if (!got.empty()) violation("qnn", "module without a number answered QNN with %s", str(got).c_str()); }
    else
    {
      if (got.size() != 1 || got[0].op() != OPC_PNN || got[0].len != 6 || got[0].nn() != nn) violation("qnn", "%s: QNN answered %s, number is %04X", what.c_str(), str(got).c_str(), nn);
      if (!!(got[0].d[5] & PF_NORMAL) != (inst == N)) violation("normal-flag", "%s: PNN flags %02X in mode %02X", what.c_str(), got[0].d[5], inst);
      observe(got[0].h());
      got = n.ask(withNN(OPC_RQNPN, nn, {PAR_FLAGS}));
      if (got.size() != 1 || got[0].op() != OPC_PARAN || !!(got[0].d[4] & PF_NORMAL) != (inst == N)) violation("normal-flag", "%s: RQNPN 8 answered %s in mode %02X", what.c_str(), str(got).c_str(), inst);
    }
    if (R.chance(30))
    {
      got = n.ask({OPC_RQMN});
      bool should = inst == S || learning;
      observe(got.size());
      if (got.size() != (should ? 1u : 0u) || (should && (got[0].op() != OPC_NAME || got[0].len != 8 || memcmp(got[0].d + 1, n.name, 7)))) violation("rqmn", "%s: RQMN in mode %02X learn %d answered %s", what.c_str(), inst, learning, str(got).c_str());
      got = n.ask({OPC_RQNP});
      should = inst == S;
      observe(got.size());
      if (got.size() != (should ? 1u : 0u) || (should && (got[0].op() != OPC_PARAMS || got[0].len != 8))) violation("rqnp", "%s: RQNP in mode %02X answered %s", what.c_str(), inst, str(got).c_str());
      count("setup_queries");
    }
    count(inst == U ? "in_uninitialised" : inst == S ? "in_setup" : "in_normal");
    if (before != -1 && before != inst) { char b[40]; snprintf(b, sizeof b, "edge_%02X_%02X", before & 0xFF, inst); count(b); }
    state(mix(mix(inst, stored), mix(nn != 0, mix(learning, before))));
  }
}
