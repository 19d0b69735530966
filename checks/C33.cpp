// The LED and Switch classes that sketches use: every pin and every answer against a timeline model.
#include "model.h"
#include "LED.h"
#include "Switch.h"
using namespace vm;

namespace {
const unsigned long BLINK = 500, PULSE = 5;
std::map<int, int> expander; // outputs of LEDs that are driven in another way than by a pin of the processor
class RemoteLed : public VLCB::LED
{
public:
  explicit RemoteLed(byte pin) : LED(pin) {}
protected:
  void _write(byte pin, bool state) override { expander[pin] = state; }
};

struct LedModel
{
  std::shared_ptr<VLCB::LED> owner; VLCB::LED *led; int pin; bool remote;
  bool on = false, blinking = false, pulsing = false, pulsed = false, written = false;
  unsigned long pulseAt = 0, since = 0;  // since: the last toggle, or when blinking started
  bool toggledOnce = false, everToggled = false;
  int level() { return remote ? (expander.count(pin) ? expander[pin] : -1) : (sim::pinOut.count(pin) ? sim::pinOut[pin] : -1); }
  // The LED has been run at the current time.
  void ran()
  {
    unsigned long now = sim::now;
    bool got = led->getState();
    if (blinking)
    {
      unsigned long d = now - since;
      if (got != on)
      {
        if (toggledOnce && d < BLINK) violation("blink-too-fast", "LED on pin %d toggled after %lu ms", pin, d);
        on = got; since = now; toggledOnce = true; everToggled = true; count("blinks");
      }
      // the first blink ever is timed from zero, which may lie just ahead of the clock
      else if (d >= BLINK && (everToggled || now >= BLINK) && !(toggledOnce && d == 0)) violation("blink-missing", "LED on pin %d has not toggled for %lu ms", pin, d);
    }
    else if (got != on) violation("led-state", "LED on pin %d says %d, was told %d", pin, got, on);
    if (pulsing && now - pulseAt >= PULSE) { pulsing = false; count("pulses_ended"); }
    int want = pulsing || on;
    written = true;
    if (level() != want) violation(pulsing ? "pulse" : "led-level", "LED on pin %d is %d, expected %d (on %d, blinking %d, pulse %d)", pin, level(), want, on, blinking, pulsing);
    state(mix(on + 2 * blinking + 4 * pulsing + 8 * remote, std::min((int)(now - since), 600) / 50));
    observe(mix(level(), got));
  }
};

struct SwitchModel
{
  std::shared_ptr<VLCB::Switch> sw; int pin; int pressed;
  int last;                              // level at the last run, as known since start or reset
  int sampled;
  bool changed = false, anyChange = false, zeroed = false, counted = false;
  unsigned long changeAt = 0, zeroAt = 0, lastDuration = 0, lastDuration2 = 0; bool haveDuration = false;
  void check(const char *when)
  {
    unsigned long now = sim::now;
    if (sw->stateChanged() != changed) violation("switch-change", "switch on pin %d %s: stateChanged %d, expected %d", pin, when, sw->stateChanged(), changed);
    if (sw->isPressed() != (sampled == pressed)) violation("switch-pressed", "switch on pin %d %s: isPressed %d with level %d (pressed is %d)", pin, when, sw->isPressed(), sampled, pressed);
    if (sw->getState() != (sampled != 0)) violation("switch-state", "switch on pin %d %s: getState %d with level %d", pin, when, sw->getState(), sampled);
    if (counted || anyChange)
    {
      unsigned long from = counted ? zeroAt : changeAt;
      if (sw->getCurrentStateDuration() != now - from) violation("switch-duration", "switch on pin %d %s: in this state for %lu ms, expected %lu", pin, when, (unsigned long)sw->getCurrentStateDuration(), now - from);
    }
    if (anyChange && !counted && sw->getLastStateChangeTime() != changeAt) violation("switch-change-time", "switch on pin %d %s: last change at %lu, expected %lu", pin, when, (unsigned long)sw->getLastStateChangeTime(), changeAt);
    if (haveDuration)
    {
      unsigned long d = sw->getLastStateDuration();
      if (d != lastDuration && d != lastDuration2) violation("switch-last-duration", "switch on pin %d %s: last state lasted %lu ms, expected %lu", pin, when, d, lastDuration);
    }
  }
  void run()
  {
    sw->run();
    unsigned long now = sim::now;
    sampled = sim::pinIn[pin];
    changed = sampled != last;
    if (changed)
    {
      haveDuration = anyChange || counted;
      lastDuration = now - (anyChange ? changeAt : zeroAt);
      lastDuration2 = counted ? now - zeroAt : lastDuration; // the counter may have been started again in between
      changeAt = now; anyChange = true; counted = false; last = sampled;
      count(sampled == pressed ? "presses" : "releases");
      state(mix(900 + (sampled == pressed), std::min((int)lastDuration, 3000) / 100));
    }
    observe(mix(changed, sampled));
    check("after run");
  }
};
}

CHECK_DEF(C33, 6000, 100000, "A case drives several LEDs (some with an output of their own) and switches of both polarities through random commands, pin changes, resets and polling intervals, across counter wrap. Every pin level and every answer of the objects is compared with a timeline model. Coverage counts LED (command state, time since toggle) and switch (direction, duration) states.")
{
  expander.clear();
  sim::now = R.pick({0ul, 1ul, 12345ul, 4294966000ul, 4294967290ul});
  std::vector<LedModel> leds; std::vector<SwitchModel> sws;
  int nl = R.range(1, 4), ns = R.range(1, 4), pin = R.range(2, 5);
  std::set<int> ledPins;
  for (int i = 0; i < nl; i++)
  {
    LedModel m; m.pin = pin++; m.remote = R.chance(25);
    m.owner = m.remote ? std::shared_ptr<VLCB::LED>(new RemoteLed(m.pin)) : std::make_shared<VLCB::LED>(m.pin);
    m.led = m.owner.get();
    if (!sim::pinModes.count(m.pin) || sim::pinModes[m.pin] != OUTPUT) violation("pin-mode", "LED pin %d has mode %d", m.pin, sim::pinModes[m.pin]);
    if (m.led->getState()) violation("led-state", "a new LED is on");
    if (!m.remote) ledPins.insert(m.pin);
    leds.push_back(m);
  }
  for (int i = 0; i < ns; i++)
  {
    SwitchModel m; m.pin = pin++; m.pressed = R.chance(40); // active high: 1
    sim::pinIn[m.pin] = R.chance(75) ? !m.pressed : m.pressed;
    if (m.pressed == 0 && R.chance(50)) m.sw = std::make_shared<VLCB::Switch>(m.pin); else m.sw = std::make_shared<VLCB::Switch>(m.pin, m.pressed);
    bool pullup = sim::pinModes.count(m.pin) && sim::pinModes[m.pin] == INPUT_PULLUP;
    if (pullup != (m.pressed == 0)) violation("pin-mode", "pin %d of a switch that is pressed at level %d: pull-up %d", m.pin, m.pressed, pullup);
    if (sim::pinModes.count(m.pin) && sim::pinModes[m.pin] == OUTPUT) violation("pin-mode", "pin %d of a switch is an output", m.pin);
    m.last = !m.pressed; m.sampled = sim::pinIn[m.pin];
    m.check("at start");
    sws.push_back(m);
  }
  int interval = R.pick({1, 2, 7, 40, 200, 600});
  size_t mark = sim::pinWrites.size();
  int steps = R.range(40, 160);
  for (int s = 0; s < steps; s++)
  {
    if (R.chance(5)) interval = R.pick({1, 2, 4, 5, 7, 40, 200, 499, 500, 501, 600, 2500});
    sim::now += R.chance(15) ? 0 : R.chance(20) ? R.range(1, interval) : interval;
    LedModel &l = leds[R.below(leds.size())];
    switch (R.range(0, 11))
    {
      case 0: l.led->on(); l.on = true; l.blinking = false; count("on"); break;
      case 1: l.led->off(); l.on = false; l.blinking = false; count("off"); break;
      case 2: l.led->toggle(); l.on = !l.on; count("toggle"); if (l.led->getState() != l.on) violation("led-state", "toggled LED says %d", l.led->getState()); break;
      case 3: case 4: l.led->blink(); if (!l.blinking) { l.blinking = true; l.toggledOnce = false; l.since = sim::now; } count("blink"); break;
      case 5: case 6: l.pulsing = true; l.pulseAt = sim::now; l.led->pulse(); l.ran(); count("pulse"); break;
      default: break;
    }
    SwitchModel &w = sws[R.below(sws.size())];
    switch (R.range(0, 15))
    {
      case 0: case 1: case 2: case 3: sim::pinIn[w.pin] ^= 1; w.check("after a change of the pin"); break;
      case 4: if (R.chance(30)) { w.sw->reset(); w.last = !w.pressed; w.changed = false; w.anyChange = w.haveDuration = w.counted = false; count("reset"); w.check("after reset"); } break;
      case 5: if (R.chance(40)) { w.sw->resetCurrentDuration(); w.counted = true; w.zeroAt = sim::now; count("duration_reset"); w.check("after duration reset"); } break;
      default: break;
    }
    if (R.chance(85)) for (LedModel &x : leds) { x.led->run(); x.ran(); }
    if (R.chance(85)) for (SwitchModel &x : sws) x.run();
    for (; mark < sim::pinWrites.size(); mark++) if (!ledPins.count(sim::pinWrites[mark].pin)) violation("other-pin", "pin %d written", sim::pinWrites[mark].pin);
  }
}
