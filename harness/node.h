// A module under test: the real Controller, Configuration and services over a monitored storage and a recorded CAN bus.
#pragma once
#include "sim.h"
#include "Controller.h"
#include "Configuration.h"
#include "CanTransport.h"
#include "CanService.h"
#include "CanServiceWithDiagnostics.h"
#include "MinimumNodeService.h"
#include "MinimumNodeServiceWithDiagnostics.h"
#include "NodeVariableService.h"
#include "EventTeachingService.h"
#include "EventTeachingServiceWithDiagnostics.h"
#include "EventConsumerService.h"
#include "EventConsumerServiceWithDiagnostics.h"
#include "EventProducerService.h"
#include "EventProducerServiceWithDiagnostics.h"
#include "ConsumeOwnEventsService.h"
#include "LongMessageService.h"
#include "Parameters.h"
#include "vlcbdefs.hpp"

namespace VLCB { extern Configuration config; }
namespace vm {

typedef VLCB::CANFrame Frame;

struct Msg
{
  uint8_t len = 0;
  uint8_t d[8] = {0};
  Msg() {}
  Msg(std::initializer_list<int> l) { for (int v : l) { if (len < 8) d[len++] = (uint8_t)v; } }
  Msg(const VLCB::VlcbMessage &m) : len(m.len) { memcpy(d, m.data, len > 8 ? 8 : len); }
  Msg(const Frame &f) : len(f.len) { memcpy(d, f.data, len > 8 ? 8 : len); }
  bool operator==(const Msg &o) const { return len == o.len && !memcmp(d, o.d, len > 8 ? 8 : len); }
  bool operator!=(const Msg &o) const { return !(*this == o); }
  bool operator<(const Msg &o) const { if (len != o.len) return len < o.len; return memcmp(d, o.d, len > 8 ? 8 : len) < 0; }
  std::string str() const { return "[" + hex(d, len > 8 ? 8 : len) + "]"; }
  uint64_t h() const { uint64_t x = len; for (int i = 0; i < len && i < 8; i++) x = mix(x, d[i]); return x; }
  int op() const { return len ? d[0] : -1; }
  int nn() const { return (d[1] << 8) | d[2]; }
  int en() const { return (d[3] << 8) | d[4]; }
};

inline std::string str(const std::vector<Msg> &v) { std::string s; for (auto &m : v) s += m.str() + " "; return s.empty() ? "(none)" : s; }
inline std::string str(const Frame &f)
{
  char b[64]; snprintf(b, sizeof b, "id=%03X%s%s len=%u ", f.id, f.ext ? " ext" : "", f.rtr ? " rtr" : "", f.len);
  return b + hex(f.data, f.len > 8 ? 8 : f.len);
}

// Storage with bounds monitoring and a write log.
struct Write { unsigned addr; uint8_t oldv, newv; };
class MonStorage : public VLCB::Storage
{
public:
  explicit MonStorage(size_t size = 8192, uint8_t fill = 0xFF) : mem(size, fill) {}
  std::vector<uint8_t> mem;
  std::vector<Write> log;      // every byte written since clearLog
  uint64_t reads = 0, writes = 0, resets = 0;
  unsigned limit = 0;          // first address not owned by the module (0 = whole memory)
  bool strictReads = false;
  void clearLog() { log.clear(); }

  void begin() override {}
  byte read(unsigned int a) override
  {
    reads++;
    if (a >= mem.size()) violation("storage-read-out-of-range", "read of storage address %u (size %zu)", a, mem.size());
    if (strictReads && limit && a >= limit) violation("storage-read-beyond-layout", "read of storage address %u, layout ends at %u", a, limit);
    return mem[a];
  }
  void write(unsigned int a, byte v) override
  {
    writes++;
    if (a >= mem.size()) violation("storage-write-out-of-range", "write to storage address %u (size %zu)", a, mem.size());
    log.push_back({a, mem[a], v});
    if (log.size() > 5000000) harnessError("storage log too long");
    mem[a] = v;
  }
  byte readBytes(unsigned int a, byte n, byte dest[]) override { for (int i = 0; i < n; i++) dest[i] = read(a + i); return n; }
  void writeBytes(unsigned int a, const byte src[], byte n) override { for (int i = 0; i < n; i++) write(a + i, src[i]); }
  void reset() override { resets++; for (unsigned i = 0; i < mem.size(); i++) if (mem[i] != 0xFF) write(i, 0xFF); }
};

// CAN bus attachment that records everything the module sends.
struct Sent { unsigned long t; Frame f; };
class SimCan : public VLCB::CanTransport
{
public:
  std::deque<Frame> rx;
  std::vector<Sent> tx;
  std::function<void(const Frame &)> onSend;
  bool sendResult = true;
  unsigned rxc = 0, txc = 0, rec = 0, tec = 0, es = 0;
  bool available() override { return !rx.empty(); }
  Frame getNextCanFrame() override
  {
    if (rx.empty()) violation("read-without-available", "getNextCanFrame called with no frame available");
    Frame f = rx.front(); rx.pop_front(); rxc++; return f;
  }
  bool sendCanFrame(Frame *f) override
  {
    tx.push_back({sim::now, *f});
    if (tx.size() > 1000000) harnessError("too many frames sent");
    txc++;
    if (onSend) onSend(*f);
    return sendResult;
  }
  uint64_t resets = 0;
  void reset() override { resets++; }
  unsigned int receiveCounter() override { return rxc; }
  unsigned int transmitCounter() override { return txc; }
  unsigned int receiveErrorCounter() override { return rec; }
  unsigned int transmitErrorCounter() override { return tec; }
  unsigned int errorStatus() override { return es; }
};

// A service that records the actions every service is shown.
class Recorder : public VLCB::Service
{
public:
  struct Rec { unsigned long t; bool null; VLCB::Action a; };
  std::vector<VLCB::Action> actions;
  uint64_t polls = 0;
  VlcbServiceTypes getServiceID() const override { return SERVICE_ID_HIDDEN; }
  byte getServiceVersionID() const override { return 1; }
  void process(const VLCB::Action *a) override { polls++; if (a) { actions.push_back(*a); if (actions.size() > 1000000) harnessError("too many actions"); } }
  std::vector<Msg> in() const { std::vector<Msg> v; for (auto &a : actions) if (a.actionType == VLCB::ACT_MESSAGE_IN) v.push_back(Msg(a.vlcbMessage)); return v; }
};

enum Svc { S_MNS, S_MNSD, S_CAN, S_CAND, S_NV, S_TEACH, S_TEACHD, S_CONS, S_CONSD, S_PROD, S_PRODD, S_COE, S_LONG, S_LONGEX, S_REC, S_HIDDEN };

struct Geometry
{
  int nvs = 4, events = 20, evs = 2, produced = 1;
  unsigned nvStart = 10, eventsStart = 0; // 0 = follows the NVs
  std::vector<Svc> services;
  unsigned resolvedEventsStart() const { return eventsStart ? eventsStart : nvStart + nvs; }
  unsigned end() const { return resolvedEventsStart() + (unsigned)events * (4 + evs); }
  unsigned slotAddr(int i) const { return resolvedEventsStart() + i * (4 + evs); }
  std::string str() const
  {
    std::string s; char b[128];
    snprintf(b, sizeof b, "nvs=%d@%u events=%d evs=%d@%u produced=%d services=", nvs, nvStart, events, evs, resolvedEventsStart(), produced);
    s = b;
    for (auto v : services) { snprintf(b, sizeof b, "%d,", v); s += b; }
    return s;
  }
};

struct Identity { int mode = MODE_NORMAL, canid = 1, nn = 0x0104, flags = 0; };

struct HandlerCall { unsigned long t; int index; Msg m; };

class Node
{
public:
  Geometry g;
  MonStorage *st;
  bool ownStorage;
  SimCan can;
  VLCB::Configuration *conf = nullptr;
  VLCB::Parameters *params = nullptr;
  VLCB::Controller *ctl = nullptr;
  VLCB::MinimumNodeService *mns = nullptr;
  VLCB::CanService *canSvc = nullptr;
  VLCB::NodeVariableService *nvs = nullptr;
  VLCB::EventTeachingService *teach = nullptr;
  VLCB::EventConsumerService *cons = nullptr;
  VLCB::EventProducerService *prod = nullptr;
  VLCB::ConsumeOwnEventsService *coe = nullptr;
  VLCB::LongMessageService *lms = nullptr;
  VLCB::LongMessageServiceEx *lmsEx = nullptr;
  Recorder *rec = nullptr;
  std::vector<VLCB::Service *> list;  // in registration order
  std::vector<VLCB::Service *> extra; // appended to the list (user interface services)
  unsigned char name[8] = "VMONITR";
  std::vector<HandlerCall> eventCalls, requestCalls;
  std::function<void(int, const Msg &)> onEvent, onRequest;
  static bool useGlobal; // the program's one module, built the short way over the global VLCB::config
  static Node *current; // node being processed (application callbacks have no context argument)
  uint64_t steps = 0;
  bool ownParams = true, handlers = true;
  int verMaj = 2, verMin = 'c', verBeta = 5, modId = 82, manu = -1;

  explicit Node(const Geometry &geo, MonStorage *s = nullptr) : g(geo), st(s ? s : new MonStorage), ownStorage(!s) {}

  // Pre-set stored identity (an already configured module).
  void preset(const Identity &id)
  {
    st->mem[0] = (uint8_t)id.mode; st->mem[1] = (uint8_t)id.canid; st->mem[2] = id.nn >> 8; st->mem[3] = id.nn & 0xFF;
    st->mem[4] = (uint8_t)id.flags; st->mem[5] = 0;
    for (int i = 0; i < g.nvs; i++) st->mem[g.nvStart + i] = 0;
  }

  static void evtHandler(byte index, const VLCB::VlcbMessage *m)
  {
    Node *n = current;
    n->eventCalls.push_back({sim::now, index, Msg(*m)});
    if (n->onEvent) n->onEvent(index, Msg(*m));
  }
  static void reqHandler(byte index, const VLCB::VlcbMessage *m)
  {
    Node *n = current;
    n->requestCalls.push_back({sim::now, index, Msg(*m)});
    if (n->onRequest) n->onRequest(index, Msg(*m));
  }

  // Power on: build all objects over the present storage, as a sketch's setup() does.
  void boot(bool begin = true)
  {
    Node *prev = current; current = this;
    // Sketches define these as globals, so their memory starts zeroed.
    void *where = useGlobal ? (void *)&VLCB::config : calloc(1, sizeof(VLCB::Configuration));
    memset(where, 0, sizeof(VLCB::Configuration));
    conf = new (where) VLCB::Configuration(st);
    conf->EE_NVS_START = g.nvStart;
    conf->EE_NUM_NVS = (byte)g.nvs;
    conf->EE_EVENTS_START = g.eventsStart;
    conf->EE_MAX_EVENTS = (byte)g.events;
    conf->EE_PRODUCED_EVENTS = (byte)g.produced;
    conf->EE_NUM_EVS = (byte)g.evs;
    list.clear(); mns = nullptr; canSvc = nullptr; nvs = nullptr; teach = nullptr; cons = nullptr; prod = nullptr; coe = nullptr; lms = nullptr; lmsEx = nullptr; rec = nullptr;
    for (Svc s : g.services)
    {
      VLCB::Service *p = nullptr;
      switch (s)
      {
        case S_MNS: p = mns = new VLCB::MinimumNodeService; break;
        case S_MNSD: p = mns = new VLCB::MinimumNodeServiceWithDiagnostics; break;
        case S_CAN: p = canSvc = new VLCB::CanService(&can); break;
        case S_CAND: p = canSvc = new VLCB::CanServiceWithDiagnostics(&can); break;
        case S_NV: p = nvs = new VLCB::NodeVariableService; break;
        case S_TEACH: p = teach = new VLCB::EventTeachingService; break;
        case S_TEACHD: p = teach = new VLCB::EventTeachingServiceWithDiagnostics; break;
        case S_CONS: p = cons = new VLCB::EventConsumerService; break;
        case S_CONSD: p = cons = new VLCB::EventConsumerServiceWithDiagnostics; break;
        case S_PROD: p = prod = new VLCB::EventProducerService; break;
        case S_PRODD: p = prod = new VLCB::EventProducerServiceWithDiagnostics; break;
        case S_COE: p = coe = new VLCB::ConsumeOwnEventsService; break;
        case S_LONG: p = lms = new VLCB::LongMessageService; break;
        case S_LONGEX: p = lmsEx = new VLCB::LongMessageServiceEx; lms = lmsEx; break;
        case S_REC: p = rec = new Recorder; break;
        case S_HIDDEN: p = new Recorder; break;
      }
      list.push_back(p);
    }
    for (auto *e : extra) list.push_back(e);
    if (cons && handlers) cons->setEventHandler(evtHandler);
    if (prod && handlers) prod->setRequestEventHandler(reqHandler);
    auto &a = list;
    switch (a.size())
    {
#define VM_CTL(k, ...) case k: ctl = useGlobal ? new VLCB::Controller({__VA_ARGS__}) : new VLCB::Controller(conf, {__VA_ARGS__}); break;
      VM_CTL(1, a[0])
      VM_CTL(2, a[0], a[1])
      VM_CTL(3, a[0], a[1], a[2])
      VM_CTL(4, a[0], a[1], a[2], a[3])
      VM_CTL(5, a[0], a[1], a[2], a[3], a[4])
      VM_CTL(6, a[0], a[1], a[2], a[3], a[4], a[5])
      VM_CTL(7, a[0], a[1], a[2], a[3], a[4], a[5], a[6])
      VM_CTL(8, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7])
      VM_CTL(9, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8])
      VM_CTL(10, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9])
      VM_CTL(11, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10])
      VM_CTL(12, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11])
#undef VM_CTL
      default: harnessError("service count %zu", a.size());
    }
    params = new VLCB::Parameters(*conf);
    params->setVersion((char)verMaj, (char)verMin, (char)verBeta);
    params->setModuleId((byte)modId);
    if (manu >= 0) params->setManufacturer((byte)manu);
    if (ownParams)
    {
      // The library keeps one parameter block per program; several modules in one program need one each.
      unsigned char *src = params->getParams();
      int len = src[0] + 1;
      unsigned char *copy = (unsigned char *)malloc(len);
      memcpy(copy, src, len);
      ctl->setParams(copy);
    }
    else ctl->setParams(params->getParams());
    ctl->setName(name);
    if (begin) ctl->begin();
    current = prev;
  }

  // Power off; storage stays.
  void powerOff() { can.rx.clear(); eventCalls.clear(); requestCalls.clear(); }
  void restart() { powerOff(); boot(); drain(); }

  void step() { Node *prev = current; current = this; steps++; ctl->process(); current = prev; }
  // Run until nothing is queued and nothing is waiting on the bus.
  void drain(int extraSteps = 2)
  {
    for (int i = 0; can.available() || ctl->pendingAction(); i++)
    {
      if (i > 20000) violation("livelock", "module still has work queued after %d processing steps without new input", i);
      step();
    }
    for (int i = 0; i < extraSteps; i++) step();
    for (int i = 0; can.available() || ctl->pendingAction(); i++)
    {
      if (i > 20000) violation("livelock", "module still has work queued after %d processing steps without new input", i);
      step();
    }
  }

  static Frame frame(const Msg &m, int canid = 0x55, int pri = 0xB)
  {
    Frame f; memset(&f, 0, sizeof f);
    f.id = (pri << 7) | (canid & 0x7F); f.ext = false; f.rtr = false; f.len = m.len; memcpy(f.data, m.d, 8);
    return f;
  }
  void put(const Msg &m, int canid = -1)
  {
    if (canid < 0) { canid = 0x55; if ((conf->CANID & 0x7F) == canid) canid = 0x56; } // never a conflict by accident
    can.rx.push_back(frame(m, canid));
  }
  // Deliver one message, run to quiescence and return the data messages sent meanwhile.
  std::vector<Msg> ask(const Msg &m, int canid = -1)
  {
    size_t mark = can.tx.size();
    put(m, canid);
    drain();
    return sentSince(mark);
  }
  std::vector<Msg> sentSince(size_t mark, bool heartbeats = false) const
  {
    std::vector<Msg> v;
    for (size_t i = mark; i < can.tx.size(); i++)
    {
      const Frame &f = can.tx[i].f;
      if (f.rtr || f.ext || f.len == 0) continue;
      if (!heartbeats && f.data[0] == OPC_HEARTB) continue;
      v.push_back(Msg(f));
    }
    return v;
  }
  int nn() const { return (int)conf->nodeNum; }
  std::string slots() const
  {
    std::string s;
    for (int i = 0; i < g.events; i++) { s += hex(&st->mem[g.slotAddr(i)], 4 + g.evs); s += "|"; }
    return s;
  }
};

inline Msg withNN(int op, int nn, std::initializer_list<int> rest = {})
{
  Msg m; m.d[0] = (uint8_t)op; m.d[1] = (uint8_t)(nn >> 8); m.d[2] = (uint8_t)nn; m.len = 3;
  for (int v : rest) m.d[m.len++] = (uint8_t)v;
  return m;
}
inline Msg evMsg(int op, int nn, int en, std::initializer_list<int> rest = {})
{
  Msg m = withNN(op, nn, {en >> 8, en & 0xFF});
  for (int v : rest) m.d[m.len++] = (uint8_t)v;
  return m;
}
// Compare two lists of messages as multisets.
inline bool sameSet(std::vector<Msg> a, std::vector<Msg> b)
{
  std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
  return a == b;
}
inline std::vector<Msg> only(const std::vector<Msg> &v, std::function<bool(const Msg &)> p) { std::vector<Msg> r; for (auto &m : v) if (p(m)) r.push_back(m); return r; }
inline int opLen(int op) { return (op >> 5) + 1; }
inline bool isPositive(const Msg &m) { return m.op() == OPC_WRACK || (m.op() == OPC_GRSP && m.len == 6 && m.d[5] == GRSP_OK); }
inline bool isError(const Msg &m) { return m.op() == OPC_CMDERR || (m.op() == OPC_GRSP && m.len == 6 && m.d[5] != GRSP_OK); }

std::vector<Svc> fullServices(bool diag = true, bool coe = false);
}
