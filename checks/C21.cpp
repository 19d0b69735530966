// Push button gestures and LED indications against a timeline model, at arbitrary polling intervals.
#include "model.h"
#include "LEDUserInterface.h"
using namespace vm;

namespace {
const int GREEN = 3, YELLOW = 4, BUTTON = 5;
bool sentOp(const std::vector<Msg> &out, int op) { for (const Msg &m : out) if (m.op() == op) return true; return false; }
}

CHECK_DEF(C21, 4000, 60000, "A case runs a module with the LED user interface over random button presses (durations around every limit), polling intervals, bus traffic and mode commands; a monitor classifies each sampled press and follows both LED pins. Coverage counts (press class, mode) and (displayed mode, poll interval) states.")
{
  Geometry g = randomGeometry(false); g.events = R.range(1, 6); g.nvs = 2;
  g.services.push_back(S_REC);
  Identity id; id.nn = randomOwn(); id.canid = R.range(1, 99); id.flags = 0;
  if (R.chance(40)) { id.mode = MODE_UNINITIALISED; id.nn = 0; id.canid = 0; }
  sim::now = R.pick({0ul, 1000ul, 77777ul, 4294900000ul});
  sim::pinIn[BUTTON] = 1; // released, pulled up
  Node n(g);
  n.preset(id);
  VLCB::LEDUserInterface ui(GREEN, YELLOW, BUTTON);
  n.extra.push_back(&ui);
  n.boot();
  if (!sim::pinModes.count(GREEN) || !sim::pinModes.count(YELLOW) || !sim::pinModes.count(BUTTON) || sim::pinModes[BUTTON] != INPUT_PULLUP || sim::pinModes[GREEN] != OUTPUT || sim::pinModes[YELLOW] != OUTPUT) violation("pin-modes", "pins not configured: button %d green %d yellow %d", sim::pinModes[BUTTON], sim::pinModes[GREEN], sim::pinModes[YELLOW]);
  n.drain(3);
  logf("services %s mode %02X", g.str().c_str(), id.mode);
  // model
  int mode = id.mode, stored = id.mode; // instant and stored mode
  bool down = false; unsigned long downAt = 0; bool enumerating = false; unsigned long enumAt = 0;
  int shown = mode; unsigned long shownAt = sim::now;
  bool haveToggle = false; unsigned long lastToggle = 0; int yellow = sim::pinOut[YELLOW];
  unsigned long definite = 0, possible = 0; bool haveDef = false, havePos = true; possible = sim::now;
  size_t pinMark = sim::pinWrites.size(), actMark = n.rec->actions.size(), txMark = n.can.tx.size();
  auto actionName = [](int a) { return a == VLCB::ACT_CHANGE_MODE ? "change-mode" : a == VLCB::ACT_RENEGOTIATE ? "renegotiate" : a == VLCB::ACT_START_CAN_ENUMERATION ? "enumerate" : "none"; };
  auto poll = [&](bool received) {
    unsigned long now = sim::now;
    if (enumerating && now - enumAt >= 100) enumerating = false;
    // sample the button
    bool press = sim::pinIn[BUTTON] == 0;
    int want = -1; unsigned long dur = 0;
    if (press && !down) { down = true; downAt = now; }
    else if (!press && down)
    {
      down = false; dur = now - downAt;
      want = dur > 4000 ? VLCB::ACT_CHANGE_MODE : dur >= 1000 && dur < 2000 ? VLCB::ACT_RENEGOTIATE : dur < 500 ? VLCB::ACT_START_CAN_ENUMERATION : -1;
      count(want < 0 ? "press_nothing" : std::string("press_") + actionName(want));
      state(mix(want + 2, mode));
    }
    n.drain(3); n.step(); n.step(); // LED pins are written by the step after the one that changes the indication
    std::vector<int> got;
    for (; actMark < n.rec->actions.size(); actMark++) { int a = n.rec->actions[actMark].actionType; if (a == VLCB::ACT_CHANGE_MODE || a == VLCB::ACT_RENEGOTIATE || a == VLCB::ACT_START_CAN_ENUMERATION) got.push_back(a); }
    // the mode change from Uninitialised starts an enumeration of its own
    int expectedEnum = want == VLCB::ACT_CHANGE_MODE && mode == MODE_UNINITIALISED ? 1 : 0;
    observe(mix(got.size(), dur));
    std::vector<int> exp; if (want >= 0) exp.push_back(want); if (expectedEnum) exp.push_back(VLCB::ACT_START_CAN_ENUMERATION);
    if (got != exp) violation(want >= 0 ? "press-misclassified" : "action-without-press", "a press of %lu ms gave %zu actions (first %s), expected %s", dur, got.size(), got.empty() ? "none" : actionName(got[0]), actionName(want));
    int rtrs = 0; bool sent = false; std::vector<Msg> out;
    for (; txMark < n.can.tx.size(); txMark++) { const Frame &f = n.can.tx[txMark].f; if (f.rtr) rtrs++; else if (f.len) { sent = true; out.push_back(Msg(f)); } }
    int wasMode = mode;
    if (want == VLCB::ACT_CHANGE_MODE)
    {
      if (mode == MODE_UNINITIALISED) { mode = MODE_SETUP; if (!sentOp(out, OPC_RQNN)) violation("change-mode-effect", "long press in Uninitialised sent %s", str(out).c_str()); }
      else { if ((mode == MODE_NORMAL) != sentOp(out, OPC_NNREL)) violation("change-mode-effect", "long press in mode %02X sent %s", mode, str(out).c_str()); mode = stored = MODE_UNINITIALISED; }
    }
    else if (want == VLCB::ACT_RENEGOTIATE)
    {
      if (mode == MODE_NORMAL) { mode = MODE_SETUP; if (!sentOp(out, OPC_RQNN)) violation("renegotiate-effect", "medium press in Normal sent %s", str(out).c_str()); }
      else if (mode == MODE_SETUP) mode = stored;
    }
    if (exp.size() && exp.back() == VLCB::ACT_START_CAN_ENUMERATION && !enumerating)
    {
      if (rtrs != 1) violation("enumerate-effect", "an enumeration was requested and %d remote frames were sent", rtrs);
      enumerating = true; enumAt = now;
    }
    else if (rtrs) violation("enumerate-effect", "%d remote frames sent, none expected (press %lu ms, mode %02X)", rtrs, dur, wasMode);
    if ((int)n.conf->currentMode != stored) violation("mode", "stored mode %02X expected %02X", n.conf->currentMode, stored);
    // activity
    if (received || sent) { definite = possible = now; haveDef = true; }
    if (rtrs) possible = now;
    // what the LEDs must show: the mode, or Setup while the button has been held over 4 s
    int show = down && now - downAt > 4000 ? MODE_SETUP : mode;
    int y = sim::pinOut[YELLOW], gr = sim::pinOut[GREEN];
    if (show != shown)
    {
      shown = show; shownAt = now; haveToggle = false;
      state(mix(show, mode)); count("indication_changes");
    }
    else if (show == MODE_SETUP && y != yellow)
    {
      if (haveToggle && now - lastToggle < 500) violation("blink-too-fast", "yellow LED toggled after %lu ms", now - lastToggle);
      haveToggle = true; lastToggle = now; count("blinks");
    }
    observe(mix(y, gr));
    if (show == MODE_SETUP)
    {
      unsigned long since = haveToggle ? now - lastToggle : now - shownAt;
      if (since >= 500 && !(haveToggle && lastToggle == now)) violation("blink-missing", "yellow LED has not toggled for %lu ms in Setup", since);
    }
    else if (y != (show == MODE_NORMAL)) violation("yellow-led", "yellow LED %d in mode %02X", y, show);
    int base = show == MODE_UNINITIALISED;
    if (haveDef && now - definite < 5) { if (gr != 1) violation("activity-pulse", "green LED %d %lu ms after activity", gr, now - definite); count("pulses"); }
    else if (!havePos || now - possible >= 5) { if (gr != base) violation("green-led", "green LED %d in mode %02X %lu ms after the last activity", gr, show, now - possible); }
    else if (gr != base && gr != 1) violation("green-led", "green LED %d", gr);
    yellow = y;
    for (; pinMark < sim::pinWrites.size(); pinMark++) if (sim::pinWrites[pinMark].pin != GREEN && sim::pinWrites[pinMark].pin != YELLOW) violation("other-pin", "pin %d written", sim::pinWrites[pinMark].pin);
  };
  poll(false);
  int interval = R.pick({1, 3, 10, 97, 400});
  auto run = [&](long ms) {
    long polls = 0;
    for (long e = 0; e < ms;)
    {
      int d = R.chance(20) ? R.range(1, interval) : interval;
      if (polls > 1500) d = std::max(d, 97);
      e += d; sim::now += d; polls++;
      bool rx = false;
      if (R.chance(3)) { n.put(R.pick({evMsg(OPC_ACON, 9, 9), Msg({OPC_QLOC, 1}), withNN(OPC_RQEVN, n.nn()), withNN(OPC_RQEVN, n.nn() ^ 5)})); rx = true; }
      poll(rx);
    }
  };
  int steps = R.range(6, 16);
  for (int s = 0; s < steps; s++)
  {
    if (R.chance(40)) interval = R.pick({1, 2, 5, 20, 97, 250, 499, 700});
    int k = R.range(0, 9);
    if (k < 7)
    {
      long want = R.pick({R.range(1, 30), R.range(480, 520), R.range(100, 499), R.range(980, 1020), R.range(1000, 1999), R.range(1980, 2020), R.range(2000, 3999), R.range(3980, 4020), R.range(4001, 9000)});
      if (R.chance(40))
      {
        // exact: sampled at the press and at the release
        sim::now += R.range(1, 300); sim::pinIn[BUTTON] = 0; poll(false);
        long exact = R.pick({499, 500, 501, 999, 1000, 1001, 1999, 2000, 2001, 3999, 4000, 4001, 1, 5000});
        if (R.chance(60)) { long part = R.range(0, (int)exact - 1); sim::now += part; if (part) poll(false); sim::now += exact - part; } else sim::now += exact;
        sim::pinIn[BUTTON] = 1; poll(false);
      }
      else { sim::pinIn[BUTTON] = 0; run(want); sim::pinIn[BUTTON] = 1; }
      count("presses");
    }
    else if (k == 9 && mode != MODE_UNINITIALISED && R.chance(60))
    {
      // a mode message that is being handled in the very poll that sees the button move
      bool release = R.chance(50); long held = R.pick({R.range(1, 499), R.range(500, 999), R.range(1000, 1999)});
      if (release) { sim::now += R.range(1, 50); sim::pinIn[BUTTON] = 0; poll(false); sim::now += held; }
      if (mode == MODE_NORMAL) { n.put(withNN(OPC_MODE, n.nn(), {MODE_SETUP})); mode = MODE_SETUP; }
      else { n.put({OPC_RQNN, 0, 7}); mode = stored; }
      for (int i = R.range(1, 5); i > 0; i--) n.step();
      shown = -1; // the indication may have gone away and come back since the last poll
      sim::pinIn[BUTTON] = release; poll(true);
      if (!release) { sim::now += held; sim::pinIn[BUTTON] = 1; poll(false); }
      count("coinciding");
    }
    else if (k == 7 && mode == MODE_NORMAL) { n.put(withNN(OPC_MODE, n.nn(), {MODE_SETUP})); mode = MODE_SETUP; poll(true); }
    else if (k <= 8 && mode == MODE_SETUP) { if (R.chance(60)) { n.put(withNN(OPC_SNN, randomOwn())); mode = stored = MODE_NORMAL; } else { n.put({OPC_RQNN, 0, 7}); mode = stored; } poll(true); }
    else if (R.chance(30) && !down) { n.put(withNN(OPC_MODE, n.nn(), {MODE_UNINITIALISED})); if (mode != MODE_UNINITIALISED) mode = stored = MODE_UNINITIALISED; poll(true); }
    if (R.chance(80)) run(R.pick({R.range(1, 20), R.range(100, 2000), R.range(1000, 6000)})); else { sim::now += R.range(1, 50); poll(false); }
  }
}
