// Hostile traffic against every geometry and service combination. The oracles are the sanitizers (and memcheck on the
// same cases without them), the storage bounds monitor, the action queue and the watchdog; what goes onto the bus and
// into the storage has to be made of defined bytes.
#include "longmsg.h"
#include "SerialUserInterface.h"
#include "LEDUserInterface.h"
#include "SerialGC.h"
using namespace vm;


namespace {
int edge(int lo, int hi)
{
  if (R.chance(35)) return std::min(hi, std::max(lo, R.pick({0, 1, 2, 127, 128, 254, 255})));
  return R.chance(60) ? R.range(lo, std::min(hi, 25)) : R.range(lo, hi);
}
Geometry anyGeometry()
{
  Geometry g;
  g.nvs = edge(0, 255); g.events = edge(0, 255); g.evs = edge(0, 255); g.produced = edge(0, 255);
  if (R.chance(60)) { g.evs = R.range(0, 6); }
  g.nvStart = 10 + (R.chance(20) ? R.range(0, 300) : 0);
  if (R.chance(30)) g.eventsStart = g.nvStart + g.nvs + R.range(0, 300);
  bool diag = R.chance(60);
  auto maybe = [&](Svc s, int pct) { if (R.chance(pct)) g.services.push_back(s); };
  maybe(diag ? S_MNSD : S_MNS, 95);
  g.services.push_back(diag ? S_CAND : S_CAN);
  maybe(S_NV, 80);
  maybe(diag ? S_TEACHD : S_TEACH, 90);
  maybe(diag ? S_CONSD : S_CONS, 85);
  maybe(diag ? S_PRODD : S_PROD, 85);
  maybe(S_COE, 40);
  if (R.chance(60)) g.services.push_back(R.chance(50) ? S_LONGEX : S_LONG);
  maybe(S_REC, 20);
  if (R.chance(40)) for (size_t i = g.services.size(); i > 1; i--) std::swap(g.services[i - 1], g.services[R.below(i)]);
  return g;
}
// Messages from every opcode group the module answers to, the rest of the opcodes, and nonsense.
Msg anyMessage(Node &n, const std::vector<uint8_t> &streams)
{
  static const std::vector<int> ours = {OPC_QNN, OPC_RQNP, OPC_RQNN, OPC_RQMN, OPC_RQNPN, OPC_SNN, OPC_ENUM, OPC_CANID, OPC_NNRSM, OPC_NNRST, OPC_MODE,
    OPC_RQSD, OPC_RDGN, OPC_NNLRN, OPC_NNULN, OPC_EVLRN, OPC_EVLRNI, OPC_EVULN, OPC_NNCLR, OPC_NERD, OPC_NENRD, OPC_REVAL, OPC_REQEV, OPC_NNEVN, OPC_RQEVN,
    OPC_NVRD, OPC_NVSET, OPC_NVSETRD, OPC_DTXC, OPC_AREQ, OPC_ASRQ, OPC_ACON, OPC_ACOF, OPC_ASON, OPC_ASOF, OPC_ACON3, OPC_ASOF3, OPC_ARON, OPC_AROF,
    OPC_BOOT, OPC_NNREL, OPC_NNACK};
  Msg m;
  int own = n.nn();
  int k = R.range(0, 99);
  if (k < 60) m.d[0] = (uint8_t)R.pick(ours); else m.d[0] = R.byte();
  if (m.d[0] == OPC_NNRSM && R.chance(70)) m.d[0] = OPC_EVLRNI;
  if (m.d[0] == OPC_NNCLR && R.chance(60)) m.d[0] = OPC_EVLRN;
  for (int i = 1; i < 8; i++) m.d[i] = R.chance(30) ? R.pick({0, 1, 2, 127, 128, 254, 255}) : R.byte();
  if (R.chance(75)) { m.d[1] = own >> 8; m.d[2] = (uint8_t)own; }
  m.len = (uint8_t)opLen(m.d[0]);
  switch (m.d[0])
  {
    case OPC_EVLRN: case OPC_EVULN: case OPC_REQEV: case OPC_AREQ: case OPC_ASRQ: case OPC_ACON: case OPC_ACOF: case OPC_ACON3:
      if (R.chance(60)) { m.d[1] = R.chance(50) ? 0 : R.range(0, 3); m.d[2] = (uint8_t)R.range(0, 3); m.d[3] = 0; m.d[4] = (uint8_t)R.range(0, 6); }
      break;
    case OPC_EVLRNI: if (R.chance(60)) { m.d[1] = 0; m.d[2] = (uint8_t)R.range(0, 3); m.d[3] = 0; m.d[4] = (uint8_t)R.range(0, 6); m.d[5] = (uint8_t)R.below(n.g.events + 2); m.d[6] = (uint8_t)R.below(n.g.evs + 2); } break;
    case OPC_NENRD: case OPC_REVAL: case OPC_NVRD: case OPC_NVSET: case OPC_NVSETRD:
      if (R.chance(60)) m.d[3] = (uint8_t)(R.pick({n.g.events, n.g.nvs, n.g.evs, 0}) + R.range(-1, 1));
      if (R.chance(50)) m.d[4] = (uint8_t)(n.g.evs + R.range(-1, 1));
      break;
    case OPC_RQNPN: if (R.chance(70)) m.d[3] = (uint8_t)R.range(0, 40); break;
    case OPC_RQSD: if (R.chance(70)) m.d[3] = (uint8_t)R.range(0, 25); break;
    case OPC_RDGN: if (R.chance(70)) { m.d[3] = (uint8_t)R.range(0, 20); m.d[4] = (uint8_t)R.range(0, 20); } break;
    case OPC_MODE: if (R.chance(80)) m.d[3] = (uint8_t)R.pick({0, 1, 3, 8, 9, 0xA, 0xB, 0xC, 0xD, 0xE, 0xF, 0xFF}); break;
    case OPC_CANID: if (R.chance(80)) m.d[3] = (uint8_t)R.range(0, 130); break;
    case OPC_DTXC:
      m.d[1] = streams.empty() || R.chance(10) ? R.byte() : R.pick(streams);
      m.d[2] = (uint8_t)(R.chance(40) ? 0 : R.chance(70) ? R.range(1, 6) : R.byte());
      if (m.d[2] == 0 && R.chance(70)) { m.d[3] = 0; m.d[4] = (uint8_t)R.range(0, 40); if (R.chance(50)) m.d[5] = m.d[6] = 0; }
      break;
    default: break;
  }
  if (R.chance(12)) m.len = (uint8_t)R.range(0, 8);
  return m;
}
}

CHECK_DEF(C01, 30000, 400000, "A case boots a module with a random geometry (0..255 for every table), any combination and order of services and blank, erased, valid or arbitrary storage, and feeds it frames of any opcode, length, flags, identifier and timing, full and queue-overflowing bursts, long messages, console characters, button presses, application calls and restarts. Coverage counts (opcode, length, mode, learn state) and (geometry) states.")
{
  for (auto &p : lmNodes) p = nullptr;
  Geometry g = anyGeometry();
  MonStorage st(std::max(1024u, g.end()) + 16, R.pick({0xFF, 0xFF, 0x00}));
  st.limit = g.end();
  Node n(g, &st);
  n.handlers = R.chance(85); // both handlers are optional
  Identity id; id.nn = randomOwn(); id.canid = R.range(1, 99); id.flags = R.range(0, 3);
  int start = R.range(0, 9);
  if (start < 7) { if (start == 0) { id.mode = MODE_UNINITIALISED; id.nn = 0; } if (start == 1) id.mode = MODE_SETUP; n.preset(id); count("start_configured"); }
  else if (start == 7) { for (auto &b : st.mem) b = R.byte(); st.mem[5] = (uint8_t)R.pick({0, 0xFF, 99, 1}); count("start_arbitrary"); }
  else count("start_virgin");
  // stored events, some of them garbage
  if (start < 7 && g.events && R.chance(60))
  {
    int used = R.pick({1, g.events / 2, g.events, R.range(0, g.events)});
    for (int i = 0; i < used; i++) { unsigned a = g.slotAddr(i); st.mem[a] = 0; st.mem[a + 1] = (uint8_t)R.range(0, 3); st.mem[a + 2] = 0; st.mem[a + 3] = (uint8_t)R.range(0, 6); for (int k = 0; k < g.evs; k++) st.mem[a + 4 + k] = (uint8_t)(R.chance(50) ? R.range(0, 8) : R.byte()); }
  }
  sim::now = R.pick({0ul, 1000ul, 4294967000ul, 77777ul});
  sim::pinIn[5] = 1;
  // user interfaces and a second transport
  std::unique_ptr<VLCB::SerialUserInterface> con; std::unique_ptr<VLCB::LEDUserInterface> led; std::unique_ptr<VLCB::SerialGC> gc; std::unique_ptr<VLCB::CanService> gcSvc;
  bool console = R.chance(35), leds = R.chance(25), overSerial = !console && R.chance(20) && g.services.size() < 11;
  if (console && g.services.size() < 12) { con.reset(new VLCB::SerialUserInterface(&n.can)); n.extra.push_back(con.get()); }
  if (leds && g.services.size() + n.extra.size() < 12) { led.reset(new VLCB::LEDUserInterface(3, 4, 5)); n.extra.push_back(led.get()); }
  else leds = false;
  if (overSerial) { gc.reset(new VLCB::SerialGC); gc->begin(); gcSvc.reset(R.chance(50) ? new VLCB::CanService(gc.get()) : new VLCB::CanServiceWithDiagnostics(gc.get())); n.extra.push_back(gcSvc.get()); }
  n.can.onSend = [&](const Frame &f) {
    observe(mix(f.id, f.len ? f.data[0] : f.rtr));
    mustBeDefined(&f.id, sizeof f.id); mustBeDefined(&f.len, 1); mustBeDefined(f.data, f.len);
    if (f.len > 8) violation("frame-length", "frame of %d bytes sent", f.len);
    n.can.sendResult = !R.chance(2);
    count("sent");
  };
  // long messages: the receive buffer is exactly as large as announced
  LmNode lm; std::vector<uint8_t> streams; unsigned lmLen = 0;
  auto setupLm = [&]() {
    if (!n.lms) return;
    lm = LmNode(); lm.n = &n; lm.ex = n.lmsEx != nullptr; lmNodes[0] = &lm;
    for (int k = R.range(1, 4); k > 0; k--) streams.push_back((uint8_t)(R.chance(50) ? R.range(0, 8) : R.byte()));
    lm.streams = streams;
    lmLen = lm.bufLen = (unsigned)R.pick({1, 2, 4, 5, 6, R.range(1, 40), R.range(1, 300)});
    if (lm.ex)
    {
      // Contexts may be missing: none wanted in one direction, none allocated yet, or no memory for them.
      int k = R.range(0, 99);
      if (k < 5) count("contexts_not_allocated");
      else
      {
        bool fail = k < 10; unsigned nr = (unsigned)(R.chance(8) ? 0 : R.range(1, 5)), ns = (unsigned)(R.chance(8) ? 0 : R.range(1, 5));
        long at = fail ? R.range(0, (int)(1 + 2 * nr + ns)) : -1;
        allocFail = at;
        bool ok = n.lmsEx->allocateContexts((byte)nr, lmLen, (byte)ns);
        if (allocFail != -1) fail = false; // fewer allocations than that
        allocFail = -1;
        if (fail) count("contexts_allocation_failed");
        if (ok == fail) violation("contexts-result", "allocateContexts(%u, %u, %u) returned %d when memory is %s", nr, lmLen, ns, ok, fail ? "short" : "available");
      }
      n.lmsEx->use_crc(R.chance(50));
    }
    else n.lms->setTimeout(R.pick({100u, 1000u, 5000u}));
    n.lms->setDelay((byte)R.pick({0, 1, 20}));
    lmSubscribe(0);
  };
  bool begun = !R.chance(10);
  logf("geometry %s start %d console %d leds %d serial %d", g.str().c_str(), start, console, leds, overSerial);
  n.onEvent = [&](int idx, const Msg &) {
    if (idx >= g.events) violation("handler-index", "event handler called with index %d of a table of %d", idx, g.events);
    if (g.evs) observe(n.conf->getEventEVval((byte)idx, 1));
    count("events_handled");
    if (n.prod && n.can.tx.size() < 100000 && R.chance(15)) sendEvent(n, R.chance(50), R.range(1, 12), randomData());
  };
  n.onRequest = [&](int idx, const Msg &) {
    if (idx >= g.events) violation("handler-index", "request handler called with index %d of a table of %d", idx, g.events);
    count("requests_handled");
    if (R.chance(80)) sendResponse(n, R.chance(50), idx, randomData());
  };
  n.boot(begun);
  setupLm();
  if (!begun) { if (R.chance(50)) n.conf->resetModule(); Node *p = Node::current; Node::current = &n; n.ctl->begin(); Node::current = p; }
  state(mix(mix(g.nvs, g.events), mix(g.evs, g.services.size())));
  observe(g.events);

  // The tail of a frame beyond its length is whatever the driver left there.
  auto put = [&](Frame f, size_t len) {
    if (R.chance(1)) { f.len = (uint8_t)R.range(9, 15); len = 8; count("long_dlc"); } // length codes above 8 mean 8 bytes of data
    n.can.rx.push_back(f);
    Frame &q = n.can.rx.back();
    if (len < 8) { for (size_t i = len; i < 8; i++) q.data[i] = R.byte(); makeUndefined(q.data + len, 8 - len); }
  };
  int ops = R.pick({15, 40, 120});
  for (int i = 0; i < ops; i++)
  {
    int k = R.range(0, 99);
    if (k < 62)
    {
      int burst = R.chance(85) ? 1 : R.chance(70) ? R.range(2, 12) : R.range(20, 90);
      if (burst > 15) count("overflowing_bursts");
      for (int b = 0; b < burst; b++)
      {
        Msg m = anyMessage(n, streams);
        Frame f = Node::frame(m, R.chance(93) ? ((n.conf->CANID & 0x7F) == 0x55 ? 0x56 : 0x55) : R.range(0, 127), R.range(0, 15));
        if (R.chance(3)) { f.rtr = true; if (R.chance(70)) { f.len = 0; m.len = 0; } count("rtr_frames"); }
        if (R.chance(3)) { f.ext = true; f.id = (uint32_t)R.below(1u << 29); count("extended_frames"); }
        if (m.len == 0) count("empty_frames");
        else if (m.len < opLen(m.d[0])) count("short_frames");
        state(mix(mix(m.op(), m.len), mix(n.conf->currentMode, n.params->getParams()[8] & 0x20)));
        count("frames");
        put(f, m.len);
      }
    }
    else if (k < 66) { int nm = R.range(0, 3) ; learn(n, nm != 0); count("learn_switches"); }
    else if (k < 70) { sim::now += R.pick({1u, 10u, 99u, 100u, 1000u, 5000u, 60000u}); }
    else if (k < 74 && n.prod) { sendEvent(n, R.chance(50), R.chance(80) ? R.range(1, 12) : R.byte(), randomData()); count("produced"); }
    else if (k < 76 && n.prod && g.events) { sendResponse(n, R.chance(50), (int)R.below(g.events), randomData()); count("responses"); }
    else if (k < 80 && n.lms)
    {
      unsigned len = (unsigned)R.pick({1, 4, 5, 6, R.range(1, 60), R.range(1, 400)});
      std::vector<uint8_t> v = lmContent(len);
      uint8_t *exact = (uint8_t *)malloc(len); memcpy(exact, v.data(), len);
      bool ok = lm.ex ? n.lmsEx->sendLongMessage(exact, len, R.byte()) : n.lms->sendLongMessage(exact, len, R.byte());
      observe(ok); count("long_sent");
      // the plain service keeps a pointer to the caller's buffer
      if (lm.ex) free(exact);
    }
    else if (k < 84 && n.lms && !streams.empty())
    {
      // a received message, whole or damaged, larger or smaller than the buffer
      auto fr = lmFrames(lmContent((unsigned)R.range(1, (int)std::min(2 * lmLen + 10, 400u))), R.pick(streams), R.chance(70) ? 0 : R.range(0, 65535));
      for (auto &m : fr)
      {
        if (R.chance(4)) continue;
        for (int rep = R.chance(4) ? 2 : 1; rep > 0; rep--) { Frame f = Node::frame(m, 0x51); if (R.chance(5)) f.len = (uint8_t)R.range(1, 7); put(f, f.len); }
        n.step(); lm.tick();
      }
      count("long_received");
    }
    else if (k < 88 && console) { for (int c = R.range(1, 4); c > 0; c--) sim::serialIn.push_back(R.chance(75) ? (uint8_t)R.pick({'n', 'e', 'v', 'c', 'h', 'y', '*', 'r', 'z', 'm'}) : R.byte()); count("console"); }
    else if (k < 90 && leds) { sim::pinIn[5] = 0; n.step(); sim::now += R.pick({10u, 499u, 1500u, 3000u, 5000u}); n.step(); sim::pinIn[5] = 1; n.step(); count("presses"); }
    else if (k < 93 && overSerial)
    {
      std::string s;
      if (R.chance(60)) { Msg m = anyMessage(n, streams); char b[8]; s = R.chance(80) ? ":SAAA0N" : ":X12345678R"; for (int j = 0; j < m.len; j++) { snprintf(b, sizeof b, "%02X", m.d[j]); s += b; } s += ';'; if (R.chance(20)) s[R.below(s.size())] = (char)R.byte(); }
      else for (int j = R.range(1, 60); j > 0; j--) s += R.chance(50) ? R.pick({':', ';', 'S', 'X', 'N', 'R', '0', 'F'}) : (char)R.byte();
      for (char c : s) sim::serialIn.push_back((uint8_t)c);
      count("serial_lines");
    }
    else if (k < 95 && g.nvs) { int v = R.range(1, g.nvs); n.conf->writeNV((byte)v, R.byte()); observe(n.conf->readNV((byte)v)); count("sketch_nvs"); }
    else if (k < 96)
    {
      streams.clear(); n.powerOff();
      if (R.chance(20)) st.mem[5] = R.byte();
      n.boot(); setupLm(); count("restarts");
    }
    else if (k < 97 && R.chance(20)) { n.conf->resetModule(); count("resets"); }
    else if (g.events) { int e = (int)R.below(g.events); byte b[4]; n.conf->readEvent((byte)e, b); observe(mix(b[0], n.conf->getEvTableEntry((byte)e))); observe(n.conf->numEvents()); if (R.chance(30)) n.conf->printEvHashTable(R.chance(50)); }
    // process at random: not at all, a few steps, or until quiet
    int p = R.range(0, 9);
    if (p == 0) continue;
    if (p < 4) for (int s = R.range(1, 6); s > 0; s--) { n.step(); if (n.lms) lm.tick(); sim::now += R.below(3); }
    else n.drain(R.range(0, 3));
    if (n.lms) for (int s = R.range(0, 8); s > 0; s--) { sim::now += R.below(30); lm.tick(); }
    if (sim::serialOut.size() > 100000) sim::serialOut.clear();
    mustBeDefined(st.mem.data(), st.mem.size());
  }
  n.drain();
  observe(n.can.tx.size());
}
