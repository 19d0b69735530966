// The MCP2515 transport over a model of the ACAN2515 driver and chip.
#include "model.h"
#include "CAN2515.h"
using namespace vm;

namespace {
std::string str(const CANMessage &m)
{
  char b[64]; snprintf(b, sizeof b, "id=%X%s%s len=%u ", m.id, m.ext ? " ext" : "", m.rtr ? " rtr" : "", m.len);
  return b + hex(m.data, m.len > 8 ? 8 : m.len);
}
CANMessage randomChipFrame()
{
  CANMessage m; memset(&m, 0, sizeof m);
  m.ext = R.chance(20); m.rtr = R.chance(15); m.len = (uint8_t)R.range(0, 8);
  m.id = m.ext ? (uint32_t)R.below(1u << 29) : (uint32_t)R.below(1u << 11);
  for (int i = 0; i < m.len; i++) m.data[i] = R.chance(20) ? R.pick({0x00, 0xFF, 0x0D, 0x3A}) : R.byte();
  return m;
}
template <class A, class B> bool same(const A &a, const B &b) { return a.id == b.id && a.ext == b.ext && a.rtr == b.rtr && a.len == b.len && !memcmp(a.data, b.data, a.len); }
// heap memory with old contents, as on a device
template <class T> T *dirty() { void *p = malloc(sizeof(T)); memset(p, R.chance(50) ? 0xA5 : R.byte(), sizeof(T)); return new (p) T; }
}

CHECK_DEF(C29, 12000, 160000, "A case configures the transport (pins, oscillator, buffers, polled or interrupt driven) in random order, then sends and receives random frames of every kind with send failures, bursts and resets over a model of the driver; every frame, counter and setting is compared. Other cases run a module over it. Coverage counts (mode, settings, operation) states.")
{
  auto &chip = sim::chip;
  chip = sim::CanChip();
  VLCB::CAN2515 *t = dirty<VLCB::CAN2515>();
  static SPIClass otherSpi;
  bool poll = R.chance(50); SPIClass *spi = R.chance(30) ? &otherSpi : &SPI;
  int cs = 10, in = 2, rxb = 4, txb = 2; unsigned long osc = 16000000;
  auto configure = [&] {
    for (int i = R.range(0, 4); i > 0; i--)
    {
      switch (R.range(0, 2))
      {
        case 0: cs = R.byte(); in = R.byte(); t->setPins((byte)cs, (byte)in); break;
        case 1: rxb = R.range(1, 255); if (R.chance(30)) { t->setNumBuffers((byte)rxb); txb = 0; } else { txb = R.byte(); t->setNumBuffers((byte)rxb, (byte)txb); } break;
        default: osc = R.pick({8000000ul, 16000000ul, 20000000ul, 10000000ul}); t->setOscFreq(osc); break;
      }
      count("settings");
    }
  };
  auto verify = [&](const char *when) {
    observe(mix(chip.csPin, mix(chip.intPin, chip.oscFreq)));
    if (chip.csPin != (uint8_t)cs) violation("cs-pin", "%s: chip select pin %d, configured %d", when, chip.csPin, cs);
    if (chip.intPin != (poll ? 255 : (uint8_t)in)) violation("int-pin", "%s: interrupt pin %d, configured %d%s", when, chip.intPin, in, poll ? " (polled)" : "");
    if (chip.hadIsr == poll) violation("isr", "%s: %s an interrupt routine in %s mode", when, chip.hadIsr ? "has" : "lacks", poll ? "polled" : "interrupt");
    if (chip.oscFreq != osc) violation("oscillator", "%s: oscillator %lu, configured %lu", when, (unsigned long)chip.oscFreq, (unsigned long)osc);
    if (chip.bitRate != 125000) violation("bit-rate", "%s: bit rate %u", when, chip.bitRate);
    if (chip.rxBuf != rxb || chip.tx0 != txb || chip.tx1 != 0 || chip.tx2 != 0) violation("buffers", "%s: buffers rx %d tx %d %d %d, configured rx %d tx %d", when, chip.rxBuf, chip.tx0, chip.tx1, chip.tx2, rxb, txb);
    if (chip.mode != ACAN2515Settings::NormalMode) violation("chip-mode", "%s: mode %d", when, chip.mode);
    if (chip.spi != spi) violation("spi", "%s: another SPI bus is used", when);
  };
  configure();
  chip.failBegin = R.chance(5);
  if (t->begin(poll, *spi) == chip.failBegin) violation("begin-result", "begin() returned %d although the chip %s", chip.failBegin, chip.failBegin ? "failed" : "started");
  verify("begin");
  logf("poll %d cs %d int %d rx %d tx %d osc %lu", poll, cs, in, rxb, txb, (unsigned long)osc);
  unsigned sentOk = 0, received = 0;
  std::deque<CANMessage> due; // received by the chip, not yet taken
  auto incoming = [&](const CANMessage &m) {
    chip.hw.push_back(m);
    due.push_back(m);
    if (!poll) { if (!chip.isrFn) violation("isr", "no interrupt routine"); chip.isrFn(); }
  };

  if (R.chance(25))
  {
    // a whole module over this transport
    MonStorage st(8192); Identity id; id.nn = randomOwn(); id.canid = R.range(1, 99);
    st.mem[0] = MODE_NORMAL; st.mem[1] = (uint8_t)id.canid; st.mem[2] = (uint8_t)(id.nn >> 8); st.mem[3] = (uint8_t)id.nn; st.mem[4] = 0; st.mem[5] = 0;
    auto *conf = new (calloc(1, sizeof(VLCB::Configuration))) VLCB::Configuration(&st);
    conf->EE_NVS_START = 10; conf->EE_NUM_NVS = 2; conf->EE_EVENTS_START = 20; conf->EE_MAX_EVENTS = 3; conf->EE_NUM_EVS = 2; conf->EE_PRODUCED_EVENTS = 0;
    VLCB::MinimumNodeService mns; VLCB::CanServiceWithDiagnostics can(t); Recorder rec;
    VLCB::Controller ctl(conf, {&mns, &can, &rec});
    VLCB::Parameters params(*conf); ctl.setParams(params.getParams()); unsigned char name[8] = "CHIPNOD"; ctl.setName(name);
    ctl.begin();
    auto run = [&](int n) { for (int i = 0; i < n; i++) ctl.process(); };
    run(200); chip.sent.clear();
    for (int k = R.range(3, 20); k > 0; k--)
    {
      if (R.chance(15)) { t->reset(); verify("reset"); }
      int own = id.nn;
      Msg m = R.pick({Msg({OPC_QNN}), withNN(OPC_RQNPN, own, {R.range(0, 20)}), withNN(OPC_RQNPN, own ^ 3, {1}), withNN(OPC_RDGN, own, {2, R.range(1, 2)})});
      CANMessage c; memset(&c, 0, sizeof c); c.id = 0x580 | (uint32_t)((id.canid + 1) & 0x7F); c.len = m.len; memcpy(c.data, m.d, m.len);
      bool plain = true;
      if (R.chance(20)) { c.ext = true; plain = false; }
      else if (R.chance(20)) { c.rtr = true; c.len = 0; plain = false; }
      size_t before = chip.sent.size(), seen = rec.actions.size();
      incoming(c); due.clear();
      run(200);
      std::vector<Msg> in2; for (; seen < rec.actions.size(); seen++) if (rec.actions[seen].actionType == VLCB::ACT_MESSAGE_IN) in2.push_back(Msg(rec.actions[seen].vlcbMessage));
      if (plain ? in2.size() != 1 || in2[0] != m : !in2.empty()) violation("module-input", "frame %s reached the services as %s", str(c).c_str(), vm::str(in2).c_str());
      if (c.rtr && !c.ext && chip.sent.size() != before + 1) violation("module-output", "remote frame answered with %zu frames", chip.sent.size() - before);
      if (m.op() == OPC_QNN && plain && chip.sent.size() != before + 1) violation("module-output", "QNN answered with %zu frames", chip.sent.size() - before);
      for (size_t i = before; i < chip.sent.size(); i++)
      {
        auto &s = chip.sent[i]; observe(mix(s.id, s.len));
        if (s.ext || s.rtr || s.id != (uint32_t)(0x580 | id.canid) || (s.len && s.data[0] == OPC_PNN && ((s.data[1] << 8 | s.data[2]) != own))) violation("module-output", "module sent %s", str(s).c_str());
      }
      count("module_messages");
    }
    state(mix(99, poll));
    return;
  }

  int ops = R.range(10, 120);
  bool many = R.chance(5);
  for (int o = 0; o < ops; o++)
  {
    int k = R.range(0, 99);
    if (k < 35)
    {
      CANMessage c = randomChipFrame();
      VLCB::CANFrame f; memset(&f, R.byte(), sizeof f);
      f.id = c.id; f.ext = c.ext; f.rtr = c.rtr; f.len = c.len; memcpy(f.data, c.data, 8);
      VLCB::CANFrame copy = f;
      if (many && R.chance(10))
      {
        // enough frames for the counters to pass 256 and more
        for (int i = R.range(50, 400); i > 0; i--) { t->sendCanFrame(&f); sentOk++; }
        if (chip.sent.size() > 3000) chip.sent.clear();
        while (t->available()) { t->getNextCanFrame(); received++; due.pop_front(); }
        for (int i = R.range(50, 400); i > 0; i--) { incoming(c); if (!t->available()) violation("available", "a received frame is not available"); t->getNextCanFrame(); received++; due.pop_front(); }
        count("long_runs");
      }
      bool fail = R.chance(20);
      chip.failSend = fail;
      size_t before = chip.sent.size();
      bool r = t->sendCanFrame(&f);
      chip.failSend = false;
      observe(mix(r, f.id));
      if (r == fail) violation("send-result", "sendCanFrame returned %d, the chip %s the frame", r, fail ? "refused" : "accepted");
      if (chip.sent.size() != before + !fail) violation("sent-count", "one frame was handed to the chip %zu times", chip.sent.size() - before);
      if (!fail) { sentOk++; if (!same(chip.sent.back(), copy)) violation("sent-frame", "frame %s reached the chip as %s", vm::str(copy).c_str(), str(chip.sent.back()).c_str()); }
      if (memcmp(&f, &copy, sizeof f)) violation("sent-argument", "sendCanFrame changed its argument");
      count(fail ? "send_failures" : "frames_sent");
      state(mix(c.ext * 2 + c.rtr, mix(c.len, fail)));
    }
    else if (k < 60)
    {
      for (int i = R.range(1, 4); i > 0 && (int)due.size() < rxb; i--) { CANMessage c = randomChipFrame(); if (R.chance(4)) { c.len = (uint8_t)R.range(9, 15); for (auto &b : c.data) b = R.byte(); count("long_dlc"); } incoming(c); count("frames_in"); }
    }
    else if (k < 90)
    {
      for (int i = R.range(1, 5); i > 0; i--)
      {
        uint64_t polls = chip.polls;
        bool a = t->available();
        observe(a);
        if (a != !due.empty()) violation("available", "available() is %d with %zu frames received", a, due.size());
        if (poll != (chip.polls > polls)) violation("polling", "available() polled the chip %d times in %s mode", (int)(chip.polls - polls), poll ? "polled" : "interrupt");
        if (!a) break;
        VLCB::CANFrame f = t->getNextCanFrame();
        CANMessage w = due.front(); due.pop_front(); received++;
        observe(mix(f.id, f.len));
        if (w.len > 8) w.len = 8; // length codes above 8 mean 8 bytes of data
        if (!same(f, w)) violation("received-frame", "frame %s was delivered as %s", str(w).c_str(), vm::str(f).c_str());
        count("frames_received");
      }
    }
    else if (k < 95)
    {
      // frames inside the chip or the driver do not survive a reset, so empty them first
      while (t->available()) { t->getNextCanFrame(); received++; due.pop_front(); }
      bool idle = R.chance(50);
      if (!idle) configure();
      uint64_t begins = chip.begins, ends = chip.ends;
      t->reset();
      if (chip.begins != begins + 1 || chip.ends != ends + 1) violation("reset", "reset() closed the chip %d times and opened it %d times", (int)(chip.ends - ends), (int)(chip.begins - begins));
      verify("reset");
      // a reset either keeps the counts or starts them again
      if (t->transmitCounter() != sentOk) { if (t->transmitCounter() != 0) violation("transmit-counter", "transmit counter %u after reset, %u before", t->transmitCounter(), sentOk); sentOk = 0; }
      if (t->receiveCounter() != received) { if (t->receiveCounter() != 0) violation("receive-counter", "receive counter %u after reset, %u before", t->receiveCounter(), received); received = 0; }
      count("resets");
    }
    else { chip.rec = R.byte(); chip.tec = R.byte(); chip.eflg = R.byte(); }
    observe(mix(t->transmitCounter(), t->receiveCounter()));
    if (t->transmitCounter() != sentOk) violation("transmit-counter", "transmit counter %u after %u accepted frames", t->transmitCounter(), sentOk);
    if (t->receiveCounter() != received) violation("receive-counter", "receive counter %u after %u delivered frames", t->receiveCounter(), received);
    if (t->receiveErrorCounter() != chip.rec || t->transmitErrorCounter() != chip.tec || t->errorStatus() != chip.eflg) violation("error-counters", "error counters %u %u %u, chip has %u %u %u", t->receiveErrorCounter(), t->transmitErrorCounter(), t->errorStatus(), chip.rec, chip.tec, chip.eflg);
  }
  state(mix(poll, mix(rxb > 100, txb)));
}
