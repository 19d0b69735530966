// The example sketches end to end: a module as a user builds it, watched at its connectors.
#include "model.h"
#include "C31.h"
using namespace vm;

namespace {
const int GREEN = 4, YELLOW = 7, BUTTON = 8;
enum LedState { OFF, ON, BLINK500, BLINK250 };
const char *ledName[] = {"off", "on", "blinking at 500 ms", "blinking at 250 ms"};
typedef std::pair<int, int> Key;

struct Mod
{
  SketchKind kind;
  int inst = -1;
  int used = 0;
  unsigned long tick = 1;
  // model
  bool normal = false;
  bool known = false;   // may give the sketch what it is known to mishandle (known_findings.jsonl), which ends the case
  int nn = 0;
  int evs = 0, produced = 0, nvCount = 0;
  std::map<Key, std::vector<int>> ev;
  std::vector<int> nv;
  std::vector<int> ledPins, switchPins;
  std::vector<LedState> led;
  std::vector<int> offLevel;
  std::vector<bool> sw, toggled;
  uint64_t handlerPrints = 0;
  std::string serial;   // all console output so far
  size_t serialMark = 0, sentMark = 0, gcMark = 0;

  Sketch &sk() { return sketches[kind][inst]; }
  bool console() const { return kind == SK_1IN1OUT || kind == SK_4IN4OUT || kind == SK_EMPTY; }
  bool hasEvents() const { return kind != SK_EMPTY; }
};
Mod *M;

void loopOnce(unsigned long dt = 1)
{
  sim::now += dt;
  M->sk().loop();
  if (sim::pinWrites.size() > 10000) sim::pinWrites.clear();
}
void deliver(const Frame &f)
{
  if (M->kind == SK_SERIALGC)
  {
    char b[64]; int n = snprintf(b, sizeof b, ":S%04X%c", (unsigned)(f.id << 5), f.rtr ? 'R' : 'N');
    for (int i = 0; i < f.len && !f.rtr; i++) n += snprintf(b + n, sizeof b - n, "%02X", f.data[i]);
    n += snprintf(b + n, sizeof b - n, ";");
    for (int i = 0; i < n; i++) sim::serialIn.push_back((uint8_t)b[i]);
    return;
  }
  CANMessage m; memset((void *)&m, 0, sizeof m);
  m.id = f.id; m.ext = f.ext; m.rtr = f.rtr; m.len = f.len; memcpy(m.data, f.data, 8);
  sim::chip.hw.push_back(m);
  if (sim::chip.isrFn) sim::chip.isrFn();
}
bool inputPending() { return M->kind == SK_SERIALGC ? !sim::serialIn.empty() : !sim::chip.hw.empty() || !sim::chip.rx.empty(); }

// Frames put on the bus since the last call.
std::vector<Frame> framesOut()
{
  std::vector<Frame> v;
  if (M->kind != SK_SERIALGC)
  {
    for (; M->sentMark < sim::chip.sent.size(); M->sentMark++)
    {
      const CANMessage &m = sim::chip.sent[M->sentMark];
      Frame f; memset((void *)&f, 0, sizeof f);
      f.id = m.id; f.ext = m.ext; f.rtr = m.rtr; f.len = m.len; memcpy(f.data, m.data, 8);
      v.push_back(f);
    }
    return v;
  }
  // GridConnect frames in between the text of the sketch
  const std::string &s = sim::serialOut;
  for (;;)
  {
    size_t p = s.find(":S", M->gcMark);
    if (p == std::string::npos) break;
    unsigned id; char k; int used = 0;
    if (sscanf(s.c_str() + p, ":S%4X%c%n", &id, &k, &used) != 2 || (k != 'N' && k != 'R')) { M->gcMark = p + 2; continue; }
    size_t e = s.find(';', p);
    if (e == std::string::npos) break;
    Frame f; memset((void *)&f, 0, sizeof f);
    f.id = id >> 5; f.rtr = k == 'R';
    std::string h = s.substr(p + used, e - p - used);
    if (h.size() % 2 || h.size() > 16 || h.find_first_not_of("0123456789ABCDEF") != std::string::npos) violation("bad-gridconnect", "frame %s", s.substr(p, e - p + 1).c_str());
    f.len = (uint8_t)(h.size() / 2);
    for (int i = 0; i < f.len; i++) f.data[i] = (uint8_t)strtol(h.substr(2 * i, 2).c_str(), nullptr, 16);
    v.push_back(f);
    M->gcMark = e + 1;
  }
  return v;
}
std::vector<Msg> dataOut()
{
  std::vector<Msg> v;
  for (auto &f : framesOut())
  {
    if (f.rtr) { count("rtr_out"); continue; }
    if (!f.len) continue;
    if (f.data[0] == OPC_HEARTB) { count("heartbeats"); continue; }
    v.push_back(Msg(f));
  }
  return v;
}
std::string consoleOut()
{
  std::string s = sim::serialOut.substr(M->serialMark);
  M->serialMark = sim::serialOut.size();
  return s;
}
// Run until the input is consumed and the module has been silent for a while.
std::vector<Msg> settle(int quiet = 30)
{
  std::vector<Msg> all;
  int silent = 0;
  for (int i = 0; silent < quiet; i++)
  {
    if (i > 6000) violation("not-quiet", "the module does not settle");
    loopOnce();
    auto v = dataOut();
    if (inputPending() || !v.empty()) silent = 0; else silent++;
    all.insert(all.end(), v.begin(), v.end());
  }
  return all;
}
std::vector<Msg> ask(const Msg &m)
{
  deliver(Node::frame(m, 0x7E));
  auto v = settle();
  logf("%s -> %s", m.str().c_str(), str(v).c_str());
  return v;
}
void idle(unsigned long ms)
{
  for (unsigned long t0 = sim::now; sim::now - t0 < ms;) loopOnce(M->tick);
}

// Watch the pins for a while and compare with what each is to show.
// `inverted`: what output 1 shows if a response was taken for its opposite.
void checkLeds(const char *when, int inverted = -1)
{
  std::vector<int> pins = M->ledPins; pins.push_back(YELLOW);
  std::vector<LedState> want = M->led; want.push_back(M->normal ? ON : OFF);
  std::vector<int> off = M->offLevel; off.push_back(0);
  size_t n = pins.size();
  std::vector<std::vector<unsigned long>> changes(n);
  std::vector<int> level(n);
  for (int i = 0; i < 3; i++) loopOnce();
  for (size_t i = 0; i < n; i++) level[i] = sim::pinOut[pins[i]];
  std::vector<int> first = level;
  unsigned long t0 = sim::now, step = R.pick({1, 3, 7, 10});
  while (sim::now - t0 < 1150)
  {
    loopOnce(step);
    for (size_t i = 0; i < n; i++) if (sim::pinOut[pins[i]] != level[i]) { level[i] = sim::pinOut[pins[i]]; changes[i].push_back(sim::now); }
  }
  for (size_t i = 0; i < n; i++)
  {
    observe(mix(want[i] * 16 + changes[i].size(), pins[i]));
    auto shows = [&](int w) {
      bool ok;
      if (w == OFF || w == ON) ok = changes[i].empty() && (first[i] != off[i]) == (w == ON);
    else
    {
      unsigned long period = w == BLINK500 ? 500 : 250;
      ok = changes[i].size() >= 1150 / (period + step) - 1 && changes[i].size() <= 1150 / period + 1 && !changes[i].empty();
      for (size_t k = 1; k < changes[i].size(); k++) { unsigned long d = changes[i][k] - changes[i][k - 1]; if (d < period || d > period + step + 2) ok = false; }
    }
      return ok;
    };
    if (!shows(want[i]))
    {
      std::string c; for (auto t : changes[i]) c += std::to_string(t - t0) + " ";
      bool opposite = inverted >= 0 && pins[i] != YELLOW && shows(inverted);
      violation(pins[i] == YELLOW ? "mode-led" : opposite ? "response-taken-for-its-opposite" : "output-led", "%s: the LED on pin %d is to be %s; level %d at first, changes at %s", when, pins[i], ledName[want[i]], first[i], c.c_str());
    }
    count(std::string("led_") + (pins[i] == YELLOW ? "mode" : want[i] == OFF ? "off" : want[i] == ON ? "on" : "blinking"));
  }
  if (M->kind == SK_SERIALGC && sim::serialOut.size() > 100000) harnessError("console output too long");
}

// What the sketch does with an event that is in its table.
void consume(int op, Key k)
{
  auto e = M->ev.find(k);
  if (e == M->ev.end()) return;
  const std::vector<int> &v = e->second;
  bool on = op == OPC_ACON || op == OPC_ASON || op == OPC_ACON1 || op == OPC_ASON1 || op == OPC_ACON2 || op == OPC_ASON2 || op == OPC_ACON3 || op == OPC_ASON3 || op == OPC_ARON;
  if (M->kind == SK_1IN1OUT || M->kind == SK_SERIALGC)
  {
    M->handlerPrints++;
    if (on) { if (v[1] == 1) M->led[0] = ON; else if (v[1] == 2) M->led[0] = BLINK500; }
    else if (v[1] > 0) M->led[0] = OFF;
  }
  else if (M->kind == SK_4IN4OUT)
  {
    if (op != OPC_ACON && op != OPC_ASON && op != OPC_ACOF && op != OPC_ASOF) return;
    for (int i = 0; i < 4; i++)
    {
      int x = v[i + 1];
      if (on) { if (x >= 1 && x <= 3) M->led[i] = x == 1 ? ON : x == 2 ? BLINK500 : BLINK250; }
      else if (x > 0) M->led[i] = OFF;
    }
  }
  else M->handlerPrints++;
}
uint64_t occurrences(const std::string &s, const char *what) { uint64_t n = 0; for (size_t p = 0; (p = s.find(what, p)) != std::string::npos; p++) n++; return n; }

// Something was produced by input `ch`: which event goes out, creating a default event if there is none.
Key producedEvent(int ch)
{
  for (auto &e : M->ev) if (e.second[0] == ch) return e.first;
  Key k(M->nn, 1);
  while (M->ev.count(k)) k.second++;
  M->ev[k].assign(M->evs, 0);
  M->ev[k][0] = ch;
  count("default_events_recreated");
  return k;
}
void moveSwitch(int i)
{
  M->sw[i] = !M->sw[i];
  bool pressed = M->sw[i];
  sim::pinIn[M->switchPins[i]] = pressed ? 0 : 1;
  auto got = settle(40);
  std::vector<Msg> want;
  bool send = false, on = false;
  if (M->kind == SK_4IN4OUT)
  {
    switch (M->nv[i])
    {
      case 1: send = true; M->toggled[i] = pressed; break;
      case 2: if (pressed) { send = true; M->toggled[i] = true; } break;
      case 3: if (pressed) { send = true; M->toggled[i] = false; } break;
      case 4: if (pressed) { send = true; M->toggled[i] = !M->toggled[i]; } break;
    }
    on = M->toggled[i];
  }
  else if (M->kind == SK_1IN1OUT || M->kind == SK_SERIALGC) { send = true; on = pressed; }
  if (send)
  {
    Key k = producedEvent(i + 1);
    int op = k.first ? (on ? OPC_ACON : OPC_ACOF) : (on ? OPC_ASON : OPC_ASOF);
    want.push_back(evMsg(op, k.first ? k.first : M->nn, k.second));
    consume(op, k);
    count("produced");
    state(mix(M->kind * 8 + i, mix(M->nv.empty() ? 0 : M->nv[i % M->nv.size()], on)));
  }
  logf("switch %d %s -> %s", i + 1, pressed ? "pressed" : "released", str(got).c_str());
  observe(mix(got.size(), want.size()));
  if (got != want) violation("switch-event", "switch %d %s: sent %s, expected %s", i + 1, pressed ? "pressed" : "released", str(got).c_str(), str(want).c_str());
}
bool positive(const std::vector<Msg> &v) { bool p = false; for (auto &m : v) { if (isError(m)) return false; p |= isPositive(m); } return p; }
void learnMode(bool on) { ask(withNN(on ? OPC_NNLRN : OPC_NNULN, M->nn)); }

void powerUp(bool held)
{
  if (held) { if (sketches[M->kind][0].conf == nullptr) harnessError("no sketch"); M->inst = 0; }
  else M->inst = ++M->used;
  sim::chip = sim::CanChip(); M->sentMark = 0;
  sim::serialIn.clear();
  sim::pinOut.clear(); sim::pinWrites.clear();
  sim::pinIn[BUTTON] = held ? 0 : 1;
  if (held) for (size_t i = 0; i < M->switchPins.size(); i++) { M->sw[i] = false; sim::pinIn[M->switchPins[i]] = 1; }
  consoleOut();
  M->sk().setup();
  dataOut();
  std::string text = consoleOut();
  observe(hashStr(text.substr(0, 40)));
  if (text.find("ready") == std::string::npos) violation("setup-incomplete", "setup printed %s", text.c_str());
  if (held)
  {
    idle(3000);
    sim::pinIn[BUTTON] = 1;
    idle(100);
    // released after 2 to 4 seconds: no gesture
    dataOut(); consoleOut();
  }
  std::vector<Msg> got;
  if (!held) got = settle();
  M->led.assign(M->ledPins.size(), OFF);
  M->toggled.assign(M->switchPins.size(), false);
  for (size_t i = 0; i < M->ledPins.size(); i++) { if (M->offLevel.size() <= i) M->offLevel.push_back(sim::pinOut[M->ledPins[i]]); }
  M->handlerPrints = 0;
  sim::serialOut.clear(); M->serialMark = 0; M->gcMark = 0;
  std::vector<Msg> want;
  if ((M->kind == SK_1IN1OUT || M->kind == SK_SERIALGC) && M->sw[0])
  {
    // the switch is found pressed
    Key k = producedEvent(1);
    int op = k.first ? OPC_ACON : OPC_ASON;
    want.push_back(evMsg(op, k.first ? k.first : M->nn, k.second));
    consume(op, k);
    M->handlerPrints = 0;
    count("pressed_at_power_up");
  }
  observe(want.size());
  if (got != want) violation("power-up-frames", "powering up sent %s, expected %s", str(got).c_str(), str(want).c_str());
  logf("power up%s: mode %02X nn %04X", held ? " with the button held" : "", M->sk().conf->currentMode, M->sk().conf->nodeNum);
}
void defaults()
{
  M->normal = false; M->nn = 0; M->ev.clear(); M->nv.assign(M->nvCount, 0);
}
void commission()
{
  // press the button for more than four seconds
  sim::pinIn[BUTTON] = 0; idle(R.range(4100, 7000));
  dataOut();
  sim::pinIn[BUTTON] = 1;
  auto got = settle(120);
  if (got.size() != 1 || got[0].op() != OPC_RQNN || got[0].len != 3) violation("no-request-for-number", "after the long press the module sent %s", str(got).c_str());
  // the yellow LED blinks meanwhile
  int a = sim::pinOut[YELLOW]; bool moved = false;
  for (int i = 0; i < 70; i++) { loopOnce(10); moved |= sim::pinOut[YELLOW] != a; }
  observe(moved);
  if (!moved) violation("setup-led", "the yellow LED does not blink during setup");
  auto name = ask(Msg({OPC_RQMN}));
  const char *names[] = {"1IN1OUT", "4IN4OUT", "1IN1OUT", "LMSGEX ", "EMPTY  "};
  if (name.size() != 1 || name[0].op() != OPC_NAME || name[0].len != 8 || memcmp(name[0].d + 1, names[M->kind], 7)) violation("module-name", "RQMN answered %s", str(name).c_str());
  M->nn = R.range(0x0100, 0xFEFE);
  deliver(Node::frame(withNN(OPC_SNN, M->nn), 0x7E));
  got = settle(150);
  bool ack = false; for (auto &m : got) ack |= m == withNN(OPC_NNACK, M->nn);
  observe(ack);
  if (!ack) violation("number-not-acknowledged", "SNN %04X answered %s", M->nn, str(got).c_str());
  M->normal = true;
  for (int i = 1; i <= M->produced; i++) { auto &v = M->ev[Key(M->nn, i)]; v.assign(M->evs, 0); v[0] = i; }
  count("commissioned");
}
Key randomKey(bool known)
{
  if (known && !M->ev.empty()) { auto i = M->ev.begin(); std::advance(i, R.below(M->ev.size())); return i->first; }
  int nn = R.chance(30) ? 0 : R.chance(20) ? M->nn : R.pick({0x0201, 0x0102, 0x0301, 0x7777});
  return Key(nn, R.chance(70) ? R.range(1, 12) : (int)(1 + R.below(65534)));
}
int randomEv(int i)
{
  (void)i;
  return M->kind == SK_4IN4OUT ? R.pick({0, 1, 2, 3, 1, 2, 3, 4, 255}) : R.pick({0, 1, 2, 1, 2, 7, 255});
}
void teach()
{
  learnMode(true);
  int n = R.range(1, 3);
  while (n--)
  {
    Key k = randomKey(R.chance(40));
    bool known = M->ev.count(k);
    if (!known && M->ev.size() >= 24) continue;
    int from = 1;
    if (!known)
    {
      // spoof events for an input that has lost its event, or for an input the module does not have
      int ev1 = 0;
      if (R.chance(40))
      {
        ev1 = R.chance(50) ? R.range(1, (int)M->switchPins.size() + 1) : R.pick({5, 100, 255});
        for (auto &e : M->ev) if (e.second[0] == ev1) ev1 = 0;
      }
      auto got = ask(evMsg(OPC_EVLRN, k.first, k.second, {1, ev1}));
      if (!positive(got)) violation("teaching-refused", "EVLRN of %04X/%04X answered %s", k.first, k.second, str(got).c_str());
      M->ev[k].assign(M->evs, -1);
      M->ev[k][0] = ev1;
      count(ev1 ? "taught_produced" : "taught_consumed");
    }
    from = 2;
    for (int i = from; i <= M->evs; i++)
    {
      if (known && R.chance(40)) continue;
      int v = randomEv(i);
      auto got = ask(evMsg(OPC_EVLRN, k.first, k.second, {i, v}));
      observe(got.size());
      if (!positive(got)) violation("teaching-refused", "EVLRN of %04X/%04X answered %s", k.first, k.second, str(got).c_str());
      M->ev[k][i - 1] = v;
    }
  }
  learnMode(false);
}
void unteach()
{
  if (M->ev.empty()) return;
  Key k = randomKey(true);
  learnMode(true);
  auto got = ask(evMsg(OPC_EVULN, k.first, k.second));
  if (!positive(got)) violation("unlearning-refused", "EVULN of %04X/%04X answered %s", k.first, k.second, str(got).c_str());
  M->ev.erase(k);
  learnMode(false);
  count("unlearned");
}
void audit()
{
  auto got = ask(withNN(OPC_RQEVN, M->nn));
  observe(got.size());
  if (got != std::vector<Msg>{withNN(OPC_NUMEV, M->nn, {(int)M->ev.size()})}) violation("event-count", "RQEVN answered %s with %zu events", str(got).c_str(), M->ev.size());
  if (M->ev.empty()) return;
  learnMode(true);
  for (int n = 0; n < 3; n++)
  {
    Key k = randomKey(true);
    for (int i = 1; i <= M->evs; i++)
    {
      auto a = ask(evMsg(OPC_REQEV, k.first, k.second, {i}));
      observe(a.size());
      if (a != std::vector<Msg>{evMsg(OPC_EVANS, k.first, k.second, {i, M->ev[k][i - 1]})}) violation("event-variable", "REQEV of %04X/%04X EV%d answered %s, expected %d", k.first, k.second, i, str(a).c_str(), M->ev[k][i - 1]);
    }
  }
  learnMode(false);
  count("audits");
}
void event()
{
  Key k = randomKey(R.chance(80));
  bool on = R.chance(55);
  int extra = R.chance(70) ? 0 : R.range(1, 3);
  int op; int nn = k.first;
  if (k.first == 0) { op = on ? OPC_ASON : OPC_ASOF; nn = R.pick({0, 0x0999, M->nn ? M->nn : 1}); }
  else op = on ? OPC_ACON : OPC_ACOF;
  if (extra) op += extra * 0x20; // the forms with one to three data bytes
  if (!extra && k.first && M->kind != SK_4IN4OUT && R.chance(15)) op = on ? OPC_ARON : OPC_AROF;
  bool response = op == OPC_ARON || op == OPC_AROF;
  auto e = M->ev.find(k);
  if (response && M->kind != SK_LONG && !M->known && e != M->ev.end() && e->second[1] > 0) { op = on ? OPC_ACON : OPC_ACOF; response = false; }
  Msg m = evMsg(op, nn, k.second);
  for (int i = 0; i < extra; i++) m.d[m.len++] = R.byte();
  int inverted = -1;
  if (response && !M->led.empty()) { auto was = M->led; consume(op == OPC_ARON ? OPC_AROF : OPC_ARON, k); if (e != M->ev.end()) M->handlerPrints--; inverted = M->led[0]; M->led = was; }
  consume(op, k);
  auto got = ask(m);
  if (inverted >= 0) { checkLeds("after a response", inverted); count("responses_shown"); }
  observe(mix(got.size(), op));
  if (!got.empty()) violation("answer-to-event", "the event %s was answered %s", m.str().c_str(), str(got).c_str());
  count(M->ev.count(k) ? "events_known" : "events_unknown");
  state(mix(M->kind, mix(op, M->ev.count(k))));
}
void request()
{
  Key k = randomKey(R.chance(85));
  auto known = M->ev.find(k);
  if (M->kind == SK_4IN4OUT && !M->known && known != M->ev.end() && (known->second[0] < 1 || known->second[0] > 4)) return;
  Msg m = k.first ? evMsg(OPC_AREQ, k.first, k.second) : evMsg(OPC_ASRQ, R.chance(50) ? 0 : M->nn, k.second);
  bool bad = M->kind == SK_4IN4OUT && known != M->ev.end() && (known->second[0] < 1 || known->second[0] > 4);
  if (bad) logf("provoking: request-for-missing-switch");
  auto got = ask(m);
  if (bad) logf("provoked");
  std::vector<Msg> want;
  auto e = M->ev.find(k);
  if (M->kind == SK_4IN4OUT && e != M->ev.end() && e->second[0] >= 1 && e->second[0] <= 4)
  {
    bool s = M->toggled[e->second[0] - 1];
    want.push_back(k.first ? evMsg(s ? OPC_ARON : OPC_AROF, k.first, k.second) : evMsg(s ? OPC_ARSON : OPC_ARSOF, M->nn, k.second));
    count("requests_answered");
  }
  observe(mix(got.size(), want.size()));
  if (got != want) violation("event-request", "%s (EV1 %d) answered %s, expected %s", m.str().c_str(), e == M->ev.end() ? -1 : e->second[0], str(got).c_str(), str(want).c_str());
}
void variables()
{
  if (!M->nvCount) return;
  int i = R.range(1, M->nvCount);
  if (R.chance(60))
  {
    int v = M->kind == SK_4IN4OUT ? R.pick({0, 1, 1, 2, 3, 4, 4, 9}) : R.byte();
    auto got = ask(withNN(OPC_NVSET, M->nn, {i, v}));
    if (!positive(got)) violation("nv-refused", "NVSET answered %s", str(got).c_str());
    M->nv[i - 1] = v;
  }
  auto got = ask(withNN(OPC_NVRD, M->nn, {i}));
  observe(got.size());
  if (got != std::vector<Msg>{withNN(OPC_NVANS, M->nn, {i, M->nv[i - 1]})}) violation("node-variable", "NVRD %d answered %s, expected %d", i, str(got).c_str(), M->nv[i - 1]);
  count("variables");
}
void typed()
{
  if (!M->console() && M->kind != SK_LONG) return;
  char c = (char)R.pick({'n', 'e', 'v', 'c', 'h', 'm', 'y', '*', '\r', '\n'});
  consoleOut();
  sim::serialIn.push_back((uint8_t)c);
  auto got = settle();
  std::string text = consoleOut();
  logf("typed %02X", c);
  observe(text.size());
  if (!got.empty()) violation("console-frames", "typing %c put %s on the bus", c, str(got).c_str());
  if (c == 'n' && text.find("node number = " + std::to_string(M->nn)) == std::string::npos) violation("console-number", "typing n printed %s", text.c_str());
  if (c == 'e' && text.find("stored events = " + std::to_string(M->ev.size())) == std::string::npos) violation("console-events", "%zu events are stored; typing e printed %s", M->ev.size(), text.c_str());
  count("typed");
  if (c == 'y') { M->sentMark = sim::chip.sent.size(); }
}
// Long message sketch
std::string randomText(int n) { std::string s; for (int i = 0; i < n; i++) s += (char)R.range('A', 'z'); return s; }
void longReceive()
{
  int n = R.chance(30) ? R.range(30, 34) : R.chance(30) ? R.range(60, 70) : R.range(1, 60);
  if (!M->known && n > 31) n = R.chance(50) ? 31 : R.range(1, 31);
  int stream = R.range(1, 4); // 4 is not subscribed to
  std::string text = randomText(n);
  consoleOut();
  if (n > 31) logf("provoking: text-fills-buffer");
  deliver(Node::frame(Msg({OPC_DTXC, stream, 0, n >> 8, n & 255, 0, 0, 0}), 0x7E));
  settle(3);
  int seq = 1;
  for (int at = 0; at < n; at += 5, seq++)
  {
    Msg m({OPC_DTXC, stream, seq & 255, 0, 0, 0, 0, 0});
    for (int k = 0; k < 5 && at + k < n; k++) m.d[3 + k] = (uint8_t)text[at + k];
    deliver(Node::frame(m, 0x7E));
    idle(R.range(1, 20));
  }
  settle();
  if (n > 31) logf("provoked");
  std::string out = consoleOut();
  logf("long message of %d bytes on stream %d: %s", n, stream, out.c_str());
  size_t p = out.find("> received long message, stream = ");
  observe(mix(n, p != std::string::npos));
  if (stream == 4) { if (p != std::string::npos) violation("long-message-not-subscribed", "printed %s", out.c_str()); return; }
  int gotStream = -1, gotLen = -1, used = 0;
  if (p == std::string::npos || sscanf(out.c_str() + p, "> received long message, stream = %d, len = %d, msg = |%n", &gotStream, &gotLen, &used) != 2 || !used)
    violation("long-message-lost", "a message of %d bytes on stream %d printed %s", n, stream, out.c_str());
  size_t e = out.find("|\n", p + used);
  std::string shown = e == std::string::npos ? "(unterminated)" : out.substr(p + used, e - p - used);
  // complete if it fits the buffer, else its last part
  bool ok = gotStream == stream && gotLen == (int)shown.size() && gotLen >= 1 && gotLen <= n && text.substr(n - gotLen) == shown && (n > 31 || gotLen == n) && occurrences(out, "received long message") == 1;
  if (!ok) violation("long-message-text", "|%s| of %d bytes on stream %d was shown as %s", text.c_str(), n, stream, out.c_str());
  count("long_received"); if (n >= 31) count("long_received_longest");
}
void longSend()
{
  int n = R.range(1, 32);
  std::string text = randomText(n);
  dataOut();
  sim::serialIn.push_back('l'); for (char c : text) sim::serialIn.push_back((uint8_t)c); sim::serialIn.push_back('\n');
  auto got = settle(60);
  std::string seen; int want = -1, seq = 0;
  for (auto &m : got)
  {
    if (m.op() != OPC_DTXC || m.d[1] != 2 || m.d[2] != seq) violation("long-message-sent", "sent %s", str(got).c_str());
    if (!seq) want = m.d[3] * 256 + m.d[4];
    else for (int i = 3; i < 8 && (int)seen.size() < want; i++) seen += (char)m.d[i];
    seq++;
  }
  observe(mix(n, got.size()));
  if (want != n || seen != text || seq != 1 + (n + 4) / 5) violation("long-message-sent", "typed %s, sent %s", text.c_str(), str(got).c_str());
  count("long_sent");
}
void powerCycle()
{
  if (M->used + 1 >= SKETCH_INSTANCES) return;
  if (R.chance(50)) idle(R.range(1, 900));
  powerUp(false);
  count("power_cycles");
  auto got = ask(Msg({OPC_QNN}));
  observe(got.size());
  bool there = false; for (auto &m : got) there |= m.op() == OPC_PNN && m.nn() == M->nn;
  if (M->normal && !there) violation("number-lost", "QNN after a power cycle answered %s", str(got).c_str());
  checkLeds("after a power cycle");
  if (M->normal && M->hasEvents()) audit();
}
}

CHECK_DEF(C31, 2400, 30000, "A case takes one example sketch as it is (setup() and loop() compiled unchanged), powers it up on virgin or configured storage, commissions it with the button, and drives random teaching, node variables, events, event requests, switch changes, console input, long messages and power cycles over its CAN chip or serial port; a small model of the sketch predicts every frame, the console lines and the waveform of every LED. Coverage counts (sketch, event kind, known) and (sketch, input, function) states.")
{
  Mod mod; M = &mod;
  mod.kind = (SketchKind)(C->index % SK_KINDS);
  switch (mod.kind)
  {
    case SK_1IN1OUT: case SK_SERIALGC: mod.evs = 2; mod.produced = 1; mod.nvCount = 10; mod.ledPins = {6}; mod.switchPins = {5}; break;
    case SK_4IN4OUT: mod.evs = 5; mod.produced = 4; mod.nvCount = 4; mod.ledPins = {3, 5, 6, 9}; mod.switchPins = {14, 15, 16, 17}; break;
    case SK_LONG: mod.evs = 1; mod.produced = 1; mod.nvCount = 10; break;
    default: break;
  }
  mod.tick = R.pick({1, 2, 5});
  mod.known = R.chance(5);
  sim::pinDefault = 1;
  sim::now = R.pick({0ul, 5ul, 100000ul, 4294950000ul});
  for (int p : mod.switchPins) sim::pinIn[p] = 1;
  mod.sw.assign(mod.switchPins.size(), false);
  defaults();
  bool heldFirst = R.chance(20);
  if (heldFirst && R.chance(50)) for (auto &b : sim::eeprom) b = R.byte();
  powerUp(heldFirst);
  if (heldFirst) count("held_at_first_power_up");
  if (mod.sk().conf->currentMode != MODE_UNINITIALISED || mod.sk().conf->nodeNum != 0) violation("not-uninitialised", "a new module starts in mode %02X with number %04X", mod.sk().conf->currentMode, mod.sk().conf->nodeNum);
  checkLeds("new module");
  commission();
  settle();
  checkLeds("commissioned");
  if (mod.hasEvents()) audit();
  int ops = C->thorough ? R.range(20, 60) : R.range(12, 30);
  for (int n = 0; n < ops; n++)
  {
    bool led = false;
    if (mod.kind == SK_EMPTY)
    {
      switch (R.below(4))
      {
        case 0: typed(); break;
        case 1: powerCycle(); break;
        case 2: { auto got = ask(withNN(OPC_RQNPN, mod.nn, {R.pick({4, 5, 6})})); observe(got.size()); if (got.size() != 1 || got[0].op() != OPC_PARAN || got[0].d[4] != 0) violation("empty-parameters", "RQNPN answered %s", str(got).c_str()); break; }
        case 3: led = true; ask(evMsg(R.pick({OPC_ACON, OPC_EVLRN, OPC_EVULN, OPC_AREQ}), mod.nn, 1, {1, 1})); break;
      }
    }
    else switch (R.below(16))
    {
      case 0: case 1: teach(); break;
      case 2: unteach(); break;
      case 3: case 4: case 5: case 6: event(); led = R.chance(50); break;
      case 7: case 8: case 9: if (!mod.switchPins.empty()) { moveSwitch((int)R.below(mod.switchPins.size())); led = R.chance(30); } else longReceive(); break;
      case 10: variables(); break;
      case 11: typed(); break;
      case 12: if (mod.kind != SK_LONG) request(); else longSend(); break;
      case 13: audit(); break;
      case 14: if (R.chance(40)) powerCycle(); break;
      case 15:
        if (mod.kind == SK_LONG) longSend();
        else { // short press: the module enumerates and carries on
          sim::pinIn[BUTTON] = 0; idle(R.range(60, 300)); sim::pinIn[BUTTON] = 1;
          auto got = settle(150);
          observe(got.size());
          for (auto &m : got) if (m.op() != OPC_NNACK) violation("short-press", "a short press sent %s", str(got).c_str());
          count("short_presses"); }
        break;
    }
    if (led) checkLeds("in operation");
  }
  checkLeds("at the end");
  if (mod.kind == SK_1IN1OUT || mod.kind == SK_SERIALGC || mod.kind == SK_LONG)
  {
    uint64_t n = occurrences(sim::serialOut, "> event handler:");
    observe(n);
    if (n != mod.handlerPrints) violation("handler-calls", "the event handler ran %d times, expected %d", (int)n, (int)mod.handlerPrints);
  }
  // factory reset: power up with the button held
  if (!heldFirst && R.chance(30))
  {
    defaults();
    powerUp(true);
    observe(mod.sk().conf->currentMode);
    if (mod.sk().conf->currentMode != MODE_UNINITIALISED || mod.sk().conf->nodeNum != 0 || mod.sk().conf->numEvents() != 0) violation("not-reset", "powered up with the button held, mode %02X number %04X", mod.sk().conf->currentMode, mod.sk().conf->nodeNum);
    checkLeds("after a reset with the button");
    commission();
    if (mod.hasEvents()) audit();
    count("resets_by_button");
  }
  (void)GREEN;
}
