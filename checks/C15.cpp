// Heartbeats every 5 seconds exactly while enabled in Normal mode.
#include "model.h"
using namespace vm;

CHECK_DEF(C15, 6000, 40000, "A case runs the module over minutes of simulated time with random polling intervals, bus traffic, mode changes, enable/disable commands and restarts; a monitor checks the time, sequence number and content of every heartbeat and that none is missing. Coverage counts heartbeats and the (mode, enabled) states in which time passed.")
{
  Geometry g = randomGeometry(R.chance(20));
  g.events = R.range(1, 12); g.nvs = R.range(0, 5);
  Identity id; id.nn = randomOwn(); id.canid = R.range(1, 99); id.flags = R.range(0, 1);
  bool fresh = R.chance(15);
  if (fresh) { id.mode = MODE_UNINITIALISED; id.nn = 0; id.canid = 0; id.flags = 0; }
  sim::now = R.chance(50) ? 0 : R.pick({1000ul, 4999ul, 5001ul, 123456789ul, 4294967295ul - 60000, 4294960000ul});
  Node n(g);
  n.preset(id);
  n.boot();
  int mode = id.mode, stored = id.mode, nn = id.nn; bool on = id.flags & 1;
  unsigned long last = 0, since = sim::now; bool hadLast = false; // last heartbeat; since when heartbeats are due
  int seq = -1; size_t mark = 0; uint64_t beats = 0;
  auto check = [&](const char *when) {
    n.drain();
    int here = 0;
    for (; mark < n.can.tx.size(); mark++)
    {
      const Frame &f = n.can.tx[mark].f;
      if (f.rtr || f.len == 0 || f.data[0] != OPC_HEARTB) continue;
      observe(mix(Msg(f).h(), sim::now));
      here++; beats++;
      if (!(mode == MODE_NORMAL && on)) violation("unwanted", "heartbeat %s in mode %02X with heartbeat %s (%s, t=%lu)", str(f).c_str(), mode, on ? "on" : "off", when, sim::now);
      if (f.len != 6 || Msg(f).nn() != nn) violation("content", "heartbeat %s for node %04X", str(f).c_str(), nn);
      if (seq >= 0 && f.data[3] != ((seq + 1) & 255)) violation("sequence", "heartbeat sequence %d after %d", f.data[3], seq);
      seq = f.data[3];
      if (hadLast && sim::now - last < 5000) violation("too-early", "heartbeat %lu ms after the previous one", sim::now - last);
      last = sim::now; hadLast = true; since = sim::now;
    }
    if (here > 1) violation("burst", "%d heartbeats at once (%s)", here, when);
    if (mode == MODE_NORMAL && on && sim::now - since > 5000) violation("missing", "no heartbeat for %lu ms (%s, t=%lu)", sim::now - since, when, sim::now);
    if (!(mode == MODE_NORMAL && on)) since = sim::now;
    if (hadLast && sim::now - last > 5000) { /* due at once when next allowed */ }
  };
  check("boot");
  int steps = R.range(20, 60);
  for (int s = 0; s < steps; s++)
  {
    // let time pass, polled
    long span = R.pick({R.range(1, 200), R.range(1000, 12000), R.range(4900, 5100), R.range(5000, 40000)});
    if (s == 0 && R.chance(5)) span = 300 * 5000; // sequence numbers wrap
    int poll = R.pick({1, 7, 50, 333, 1000, 2500, 4999, 7000});
    if (span / poll > 4000) poll = 333;
    state(mix(mix(mode, on), poll));
    count("polled_ms", span);
    for (long e = 0; e < span;) { int d = poll > 50 && R.chance(30) ? R.range(1, poll) : poll; e += d; sim::now += d; check("polling"); if (R.chance(2)) { n.put(R.pick({Msg({OPC_QNN}), withNN(OPC_RQEVN, nn), evMsg(OPC_ACON, 1, 2)})); check("traffic"); } }
    // then do something
    switch (R.range(0, 9))
    {
      case 0: case 1: case 2: { if (mode == MODE_UNINITIALISED) break; bool v = R.chance(60); n.put(withNN(OPC_MODE, nn, {v ? MODE_HEARTBEAT_ON : MODE_HEARTBEAT_OFF})); on = v; check("heartbeat command"); count(v ? "enabled" : "disabled");
        if (n.conf->heartbeat != v) violation("setting", "heartbeat setting %d after the command to set it to %d", n.conf->heartbeat, v); break; }
      case 3: case 4: if (mode == MODE_NORMAL) { n.put(withNN(OPC_MODE, nn, {MODE_SETUP})); mode = MODE_SETUP; check("setup"); count("setups"); }
        else if (mode == MODE_UNINITIALISED) { n.ctl->putAction(VLCB::ACT_CHANGE_MODE); mode = MODE_SETUP; check("button"); }
        else { if (R.chance(50)) { n.put({OPC_RQNN, 0, 1}); mode = stored; } else { n.drain(); nn = randomOwn(); n.put(withNN(OPC_SNN, nn)); mode = stored = MODE_NORMAL; } check("leave setup"); }
        break;
      case 5: if (mode == MODE_SETUP) { n.ctl->putAction(VLCB::ACT_RENEGOTIATE); mode = stored; check("cancel"); } break;
      case 6: if (mode == MODE_NORMAL && R.chance(25)) { n.drain(); n.ctl->putAction(VLCB::ACT_CHANGE_MODE); mode = stored = MODE_UNINITIALISED; nn = 0; check("uninitialise"); on = n.conf->heartbeat; count("uninitialised"); } break;
      case 7: if (R.chance(40)) { n.powerOff(); sim::now = R.chance(70) ? R.range(0, 100) : sim::now + 10; mode = stored; n.boot(); hadLast = false; since = sim::now; seq = -1; mark = n.can.tx.size(); check("restart"); count("restarts");
        if (n.conf->heartbeat != on) violation("setting-lost", "heartbeat setting %d after a restart, was %d", n.conf->heartbeat, on); } break;
      case 8: { // other nodes' commands change nothing
        if (R.chance(40)) // nor do commands about something else
        {
          n.put(withNN(OPC_MODE, nn, {R.pick({(int)MODE_NORMAL, (int)MODE_NORMAL, (int)MODE_EVENT_ACK_ON, (int)MODE_EVENT_ACK_OFF, (int)MODE_LEARN_ON, (int)MODE_LEARN_OFF, 0x0B, 0x55, 2})})); check("other mode command"); count("other_mode_commands");
          if (n.conf->heartbeat != on) violation("setting", "heartbeat setting %d after a MODE command about something else, was %d", n.conf->heartbeat, on);
          break;
        }
        int o = (nn + R.range(1, 300)) & 0xFFFF; n.put(withNN(OPC_MODE, o, {R.pick({(int)MODE_HEARTBEAT_ON, (int)MODE_HEARTBEAT_OFF})})); check("other node's command"); break; }
      default: break;
    }
  }
  count("heartbeats", beats);
}
