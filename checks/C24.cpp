// Frame classification: random mixtures of data, empty, remote-request and extended frames with arbitrary identifiers.
#include "model.h"
using namespace vm;

CHECK_DEF(C24, 8000, 120000, "A case feeds a module a random sequence of CAN frames (data 0-8 bytes with garbage behind the end, length codes 9-15, empty, remote requests of any length, extended, extended remote; any 11-bit identifier, own CAN ID included) in bursts and singly with arbitrary time between, in and out of enumerations, and compares after every processing step the answers sent, and at rest the messages handed to the services. Coverage counts (frame kind, length, own CAN ID, enumerating, burst position) states.")
{
  Geometry g = randomGeometry(R.chance(30)); g.events = std::min(g.events, 20);
  if (R.chance(50)) g.services.insert(g.services.begin(), S_REC); else g.services.push_back(S_REC);
  Identity id; id.nn = R.range(0x2000, 0x2100); id.canid = R.chance(60) ? R.range(1, 99) : R.range(1, 12); id.flags = 0;
  if (R.chance(20)) { id.mode = MODE_UNINITIALISED; id.nn = 0; id.canid = R.chance(50) ? 0 : R.range(1, 20); }
  Node n(g); n.preset(id); n.boot(); n.drain();
  logf("geometry %s mode %02X CAN ID %d", g.str().c_str(), id.mode, id.canid);
  std::vector<Msg> want; size_t actMark = n.rec->actions.size(), txMark = n.can.tx.size();
  std::deque<Frame> pending; // as put on the bus and not yet read by the module
  bool enumerating = false; unsigned long enumAt = 0; std::set<int> heard, data;
  long owed = 0;
  bool unspecifiedEmpty = false;
  auto step = [&] {
    size_t before = n.can.rx.size(); int canidBefore = n.conf->CANID; size_t log = n.st->log.size();
    bool wasEnum = enumerating;
    n.step();
    size_t read = before - n.can.rx.size();
    bool conflict = false;
    for (size_t i = 0; i < read; i++)
    {
      Frame f = pending.front(); pending.pop_front();
      if (f.ext) { count("extended"); continue; }
      if (f.rtr) { owed++; count(wasEnum ? "remote_while_enumerating" : "remote"); continue; }
      if (f.len == 0) { if (enumerating) { if (f.id & 0x7F) heard.insert(f.id & 0x7F); count("empty_while_enumerating"); } else { unspecifiedEmpty = true; count("empty"); } continue; }
      if ((int)(f.id & 0x7F) == canidBefore) conflict = true;
      if (enumerating) data.insert(f.id & 0x7F);
      { Frame w = f; if (w.len > 8) { w.len = 8; count("long_dlc"); } want.push_back(Msg(w)); } count(wasEnum ? "data_while_enumerating" : "data");
    }
    // what went out
    int rtrs = 0;
    for (; txMark < n.can.tx.size(); txMark++)
    {
      const Frame &f = n.can.tx[txMark].f;
      if (f.rtr) { rtrs++; continue; }
      if (f.len) continue;
      if (f.ext || ((int)(f.id & 0x7F) != canidBefore && (int)(f.id & 0x7F) != (int)n.conf->CANID)) violation("answer-id", "empty frame with identifier %03lX ext %d, CAN ID %d", (unsigned long)f.id, f.ext, n.conf->CANID);
      if (owed == 0) violation("unasked-empty-frame", "an empty frame was sent without a remote request");
      owed--; count("answers");
    }
    observe(mix(read, mix(rtrs, owed)));
    if (owed) violation("remote-request-unanswered", "%ld remote requests were read and not answered", owed);
    if (rtrs && (!conflict || wasEnum || rtrs > 1)) violation("enumeration-started", "%d remote frames sent although no frame with data had CAN ID %d", rtrs, canidBefore);
    if (!rtrs && conflict && !wasEnum) violation("conflict-ignored", "a data frame with the module's own CAN ID %d did not start an enumeration", canidBefore);
    if (rtrs) { enumerating = true; enumAt = sim::now; heard.clear(); data.clear(); count("enumerations"); }
    if (enumerating && sim::now - enumAt >= 100)
    {
      enumerating = false;
      int lo = 1; while (heard.count(lo)) lo++;
      int hi = 1; while (heard.count(hi) || data.count(hi)) hi++;
      if (lo > 127) lo = hi = 1;
      int now = n.conf->CANID;
      if (now != lo && now != hi) violation("learnt-id", "enumeration chose CAN ID %d; empty frames left %d the lowest free", now, lo);
      count("enumerations_completed");
    }
    else if ((int)n.conf->CANID != canidBefore) violation("can-id-changed", "CAN ID changed from %d to %d", canidBefore, n.conf->CANID);
    else if (read && n.st->log.size() != log) count("storage_written");
  };
  auto settle = [&] {
    for (int i = 0; n.can.available() || n.ctl->pendingAction(); i++) { if (i > 5000) violation("livelock", "no rest"); step(); }
    step(); step();
    std::vector<Msg> got; std::vector<const VLCB::Action *> acts;
    for (size_t i = actMark; i < n.rec->actions.size(); i++)
      if (n.rec->actions[i].actionType == VLCB::ACT_MESSAGE_IN && n.rec->actions[i].vlcbMessage.len > 0) { got.push_back(Msg(n.rec->actions[i].vlcbMessage)); acts.push_back(&n.rec->actions[i]); }
    observe(got.size());
    for (size_t i = 0; i < std::max(got.size(), want.size()); i++)
    {
      if (i >= got.size()) violation("frame-lost", "message %s was not handed to the services (%zu of %zu)", want[i].str().c_str(), got.size(), want.size());
      if (i >= want.size()) violation("frame-invented", "message %s was handed to the services", got[i].str().c_str());
      bool same = got[i].len == want[i].len && !memcmp(got[i].d, want[i].d, got[i].len);
      if (!same) violation("frame-changed", "message %s reached the services as %s", want[i].str().c_str(), got[i].str().c_str());
      for (int k = got[i].len; k < 8; k++) if (acts[i]->vlcbMessage.data[k] != 0) violation("absent-bytes", "message %s reads %02X behind its end", got[i].str().c_str(), acts[i]->vlcbMessage.data[k]);
    }
    actMark = n.rec->actions.size(); want.clear();
  };
  auto randomFrame = [&] {
    Frame f; memset(&f, 0, sizeof f);
    int own = n.conf->CANID;
    int cid = R.chance(10) ? own : R.chance(60) ? R.range(0, 15) : R.range(0, 127);
    f.id = R.chance(70) ? (0xB << 7) | cid : (R.range(0, 15) << 7) | cid;
    for (auto &b : f.data) b = R.byte();
    int k = R.range(0, 9);
    if (k < 5) { f.len = (uint8_t)(R.chance(4) ? R.range(9, 15) : R.range(1, 8)); if (cid == own && R.chance(60)) f.id ^= 1; }
    else if (k == 5) f.len = 0;
    else if (k < 8) { f.rtr = true; f.len = R.chance(70) ? 0 : (uint8_t)R.range(1, 8); }
    else { f.ext = true; f.rtr = k == 9 && R.chance(50); f.len = (uint8_t)R.range(0, 8); if (R.chance(50)) f.id = (uint32_t)R.next() & 0x1FFFFFFF; if (R.chance(40)) f.id = (f.id & ~0x7Fu) | (unsigned)own; }
    // arbitrary messages, but none that is addressed to this module or changes its state
    if (!f.rtr && !f.ext && f.len)
    {
      if (R.chance(60)) f.data[0] = (uint8_t)R.pick({OPC_ACON, OPC_ASOF1, OPC_QNN, OPC_RQEVN, OPC_NNACK, OPC_HEARTB, OPC_EVLRN, OPC_NVRD, OPC_DTXC});
      if (f.len < 3 || ((f.data[1] << 8 | f.data[2]) == n.nn())) { if (f.data[0] == OPC_ENUM || f.data[0] == OPC_CANID || f.data[0] == OPC_NNRSM || f.data[0] == OPC_MODE || f.data[0] == OPC_NNRST) f.data[0] = OPC_ACON; }
      if (f.data[0] == OPC_SNN || f.data[0] == OPC_RQNN) f.data[0] = OPC_ACOF;
    }
    return f;
  };
  auto put = [&](const Frame &f, int pos) {
    n.can.rx.push_back(f); pending.push_back(f);
    logf("%lu %s%s id %03lX %s", sim::now, f.ext ? "ext " : "", f.rtr ? "rtr " : "", (unsigned long)f.id, hex(f.data, f.len > 8 ? 8 : f.len).c_str());
    state(mix(f.ext * 4 + f.rtr * 2 + ((int)(f.id & 0x7F) == (int)n.conf->CANID), mix(f.len * 2 + enumerating, std::min(pos, 6))));
  };
  int rounds = R.range(15, 40);
  for (int r = 0; r < rounds; r++)
  {
    int k = R.range(0, 9);
    if (k < 5) { int b = R.range(1, 10); for (int i = 0; i < b; i++) put(randomFrame(), i); settle(); }
    else if (k < 8) { put(randomFrame(), 0); step(); }
    else if (k == 8 && !enumerating && !n.ctl->pendingAction() && !n.can.available()) // hostile enumeration: force one, then answer it with every kind of frame
    {
      Frame f = Node::frame(evMsg(OPC_ACON, 9, 9), n.conf->CANID); put(f, 0); settle();
      int lo = R.range(1, 6);
      for (int c = 1; c <= lo; c++) { Frame e = Node::frame(Msg(), c, R.range(0, 15)); e.len = 0; if (R.chance(50)) e.id &= 0x7FF; put(e, c); if (R.chance(30)) settle(); }
      for (int i = 0; i < 4; i++) { Frame x = Node::frame(Msg(), lo + 1 + i); x.len = (uint8_t)R.range(0, 8); if (R.chance(50)) x.ext = true; else x.rtr = true; put(x, i); }
      settle(); count("hostile_enumerations");
    }
    else { if (R.chance(50)) settle(); sim::now += R.pick({1, 10, 50, 99, 100, 101, 300}); step(); }
  }
  settle();
}
