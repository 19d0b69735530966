#include "sim.h"
#include <Streaming.h>
#include "platform/esp32.h"

// Same declaration as Arduino/EEPROM.h, which cannot be included here as it defines the global object.
struct EEPROM_T
{
  byte read(unsigned int eeaddress);
  void write(unsigned int eeaddress, byte value);
};

namespace sim {
unsigned long now = 0;
std::vector<PinWrite> pinWrites;
std::map<int, int> pinOut, pinIn, pinModes;
int pinDefault = 0;
std::deque<uint8_t> serialIn;
std::string serialOut;
int printConfigCalls = 0;
std::vector<uint8_t> eeprom(4096, 0xFF);
uint64_t eepromWrites = 0;
std::function<void(unsigned, uint8_t)> onEepromWrite;
I2cEeprom i2c;
CanChip chip;
std::map<const void *, Port> otherPorts;
bool restartsSeen = !getenv("VM_NO_RESTARTS");
uint64_t restarts = 0;
std::function<void()> onRestart;
unsigned freeHeap = 0;

void reset()
{
  restarts = 0; onRestart = nullptr; freeHeap = 123457;
  now = 0; pinWrites.clear(); pinOut.clear(); pinIn.clear(); pinModes.clear();
  serialIn.clear(); serialOut.clear(); printConfigCalls = 0;
  eeprom.assign(4096, 0xFF); eepromWrites = 0; onEepromWrite = nullptr;
  i2c = I2cEeprom(); chip = CanChip(); otherPorts.clear();
}
}

void FakeEsp::restart()
{
  sim::restarts++;
  if (sim::restarts > 1000000) vm::harnessError("too many restarts");
  if (sim::onRestart) sim::onRestart();
}
uint32_t FakeEsp::getFreeHeap() { return sim::freeHeap; }
FakeEsp ESP;

Serial_T Serial;
ENDL_T endl;
SPIClass SPI;
TwoWire Wire;

void printConfig() { sim::printConfigCalls++; }

unsigned long millis() { return sim::now; }
void delay(unsigned int ms) { sim::now += ms; }
byte highByte(unsigned int v) { return (byte)(v >> 8); }
byte lowByte(unsigned int v) { return (byte)(v & 0xFF); }
void pinMode(int pin, PinMode m) { sim::pinModes[pin] = m; }
void digitalWrite(int pin, int v) { sim::pinOut[pin] = v; sim::pinWrites.push_back({sim::now, pin, v}); if (sim::pinWrites.size() > 2000000) vm::harnessError("too many pin writes"); }
byte digitalRead(int pin) { auto i = sim::pinIn.find(pin); return i == sim::pinIn.end() ? (byte)sim::pinDefault : (byte)i->second; }

static void out(const std::string &s, const Serial_T *p = &Serial) { std::string &o = p == &Serial ? sim::serialOut : sim::otherPorts[p].out; o += s; if (o.size() > (1u << 24)) o.clear(); }
static std::deque<uint8_t> &in(const Serial_T *p) { return p == &Serial ? sim::serialIn : sim::otherPorts[p].in; }
void Serial_T::begin(int) {}
bool Serial_T::available() { return !in(this).empty(); }
char Serial_T::read() { auto &q = in(this); if (q.empty()) return (char)-1; char c = (char)q.front(); q.pop_front(); return c; }
void Serial_T::flush() {}
unsigned char Serial_T::readBytesUntil(int term, char *s, int length)
{
  int n = 0;
  auto &q = in(this);
  while (n < length && !q.empty())
  {
    int c = q.front(); q.pop_front();
    if (c == term) break;
    s[n++] = (char)c;
  }
  return (unsigned char)n;
}
void Serial_T::print(const char *s) { out(s, this); }
void Serial_T::println(const char *s) { out(s, this); out("\r\n", this); }
Serial_T &operator<<(Serial_T &s, int i) { out(std::to_string(i), &s); return s; }
Serial_T &operator<<(Serial_T &s, unsigned int i) { out(std::to_string(i), &s); return s; }
#ifndef VM_LONG32
Serial_T &operator<<(Serial_T &s, long i) { out(std::to_string(i), &s); return s; }
Serial_T &operator<<(Serial_T &s, unsigned long i) { out(std::to_string(i), &s); return s; }
#endif
Serial_T &operator<<(Serial_T &s, const char *i) { out(i, &s); return s; }
Serial_T &operator<<(Serial_T &s, const ENDL_T &) { out("\n", &s); return s; }

void SPIClass::begin() {}

// ---- on-chip EEPROM
byte EEPROM_T::read(unsigned int a)
{
  if (a >= sim::eeprom.size()) vm::violation("eeprom-read-out-of-range", "EEPROM.read(%u)", a);
  return sim::eeprom[a];
}
void EEPROM_T::write(unsigned int a, byte v)
{
  if (a >= sim::eeprom.size()) vm::violation("eeprom-write-out-of-range", "EEPROM.write(%u)", a);
  sim::eepromWrites++;
  if (sim::onEepromWrite) sim::onEepromWrite(a, v);
  sim::eeprom[a] = v;
}

// ---- I2C EEPROM
namespace {
struct { bool open = false; int addr = 0; std::vector<uint8_t> tx; std::deque<uint8_t> rx; unsigned ptr = 0; } w;
}
void TwoWire::begin() {}
void TwoWire::beginTransmission(byte a) { w.open = true; w.addr = a; w.tx.clear(); }
void TwoWire::write(int i)
{
  if (w.tx.size() >= sim::i2c.maxPerTransfer) { sim::i2c.lost++; return; } // Wire buffer full: the byte is dropped
  w.tx.push_back((uint8_t)i);
}
static bool i2cBusy()
{
  if (sim::i2c.busy && sim::now - sim::i2c.busyFrom >= sim::i2c.writeCycle) sim::i2c.busy = false;
  return sim::i2c.busy;
}
byte TwoWire::endTransmission()
{
  w.open = false;
  if (w.addr != sim::i2c.busAddress || (sim::i2c.bus && sim::i2c.bus != this)) { sim::i2c.wrongAddress++; return 2; } // NACK
  if (i2cBusy()) { sim::i2c.refused++; return 2; }
  if (w.tx.size() >= 2)
  {
    if (w.tx.size() > 2) { sim::i2c.busy = sim::i2c.writeCycle > 0; sim::i2c.busyFrom = sim::now; }
    unsigned a = (w.tx[0] << 8) | w.tx[1];
    unsigned size = (unsigned)sim::i2c.mem.size();
    if (size) a %= size;
    unsigned page = a - a % sim::i2c.pageSize;
    for (size_t i = 2; i < w.tx.size(); i++)
    {
      if (sim::i2c.onWrite) sim::i2c.onWrite();
      if (size) sim::i2c.mem[a] = w.tx[i];
      sim::i2c.writes++;
      unsigned nxt = page + (a - page + 1) % sim::i2c.pageSize;
      if (nxt < a && i + 1 < w.tx.size()) sim::i2c.wraps++;
      a = nxt;
    }
    w.ptr = (w.tx[0] << 8) | w.tx[1];
  }
  return 0;
}
void TwoWire::requestFrom(int addr, int n)
{
  w.rx.clear();
  if (addr != sim::i2c.busAddress || (sim::i2c.bus && sim::i2c.bus != this)) { sim::i2c.wrongAddress++; return; }
  if (i2cBusy()) { sim::i2c.refused++; return; }
  if (n > (int)sim::i2c.maxPerTransfer) n = (int)sim::i2c.maxPerTransfer;
  unsigned size = (unsigned)sim::i2c.mem.size();
  for (int i = 0; i < n && size; i++) { w.rx.push_back(sim::i2c.mem[w.ptr % size]); w.ptr++; sim::i2c.reads++; }
}
bool TwoWire::available() { return !w.rx.empty(); }
byte TwoWire::read() { if (w.rx.empty()) return 0xFF; byte b = w.rx.front(); w.rx.pop_front(); return b; }

// ---- ACAN2515
ACAN2515Settings::ACAN2515Settings(unsigned long osc, unsigned int rate)
  : mRequestedMode(NormalMode), mReceiveBufferSize(-1), mTransmitBuffer0Size(-1), mTransmitBuffer1Size(-1), mTransmitBuffer2Size(-1)
{
  sim::chip.oscFreq = osc; sim::chip.bitRate = rate;
}
ACAN2515::ACAN2515(uint8_t cs, SPIClass &spi, uint8_t in) { sim::chip.csPin = cs; sim::chip.intPin = in; sim::chip.spi = &spi; sim::chip.object = this; }
unsigned short ACAN2515::begin(const ACAN2515Settings &s, void (*isr)())
{
  sim::chip.begins++;
  sim::chip.hadIsr = isr != nullptr; sim::chip.isrFn = isr;
  sim::chip.rxBuf = s.mReceiveBufferSize; sim::chip.tx0 = s.mTransmitBuffer0Size; sim::chip.tx1 = s.mTransmitBuffer1Size; sim::chip.tx2 = s.mTransmitBuffer2Size;
  sim::chip.mode = s.mRequestedMode;
  return sim::chip.failBegin ? 1 : 0;
}
static void mine(const void *o) { if (o != sim::chip.object) { sim::chip.stale++; vm::violation("stale-driver", "a driver object that was replaced is still used"); } }
static void fetch()
{
  while (!sim::chip.hw.empty())
  {
    if ((int)sim::chip.rx.size() < sim::chip.rxBuf) sim::chip.rx.push_back(sim::chip.hw.front()); else sim::chip.overruns++;
    sim::chip.hw.pop_front();
  }
}
void ACAN2515::isr() { mine(this); sim::chip.isrs++; fetch(); }
void ACAN2515::poll() { mine(this); sim::chip.polls++; fetch(); }
bool ACAN2515::available() { mine(this); return !sim::chip.rx.empty(); }
void ACAN2515::receive(CANMessage &m) { mine(this); if (!sim::chip.rx.empty()) { m = sim::chip.rx.front(); sim::chip.rx.pop_front(); } }
bool ACAN2515::tryToSend(const CANMessage &m)
{
  mine(this);
  if (sim::chip.failSend || (sim::chip.sendOk && !sim::chip.sendOk())) return false;
  sim::chip.sent.push_back(m);
  return true;
}
void ACAN2515::end() { mine(this); sim::chip.ends++; }
uint16_t ACAN2515::receiveBufferCount() { return (uint16_t)sim::chip.rx.size(); }
uint16_t ACAN2515::receiveBufferPeakCount() { return 0; }
uint16_t ACAN2515::receiveBufferSize() { return (uint16_t)sim::chip.rxBuf; }
uint16_t ACAN2515::transmitBufferCount(uint8_t) { return 0; }
uint16_t ACAN2515::transmitBufferPeakCount(uint8_t) { return 0; }
uint16_t ACAN2515::transmitBufferSize(uint8_t) { return 0; }
uint8_t ACAN2515::receiveErrorCounter() { return sim::chip.rec; }
uint8_t ACAN2515::transmitErrorCounter() { return sim::chip.tec; }
uint8_t ACAN2515::errorFlagRegister() { return sim::chip.eflg; }
