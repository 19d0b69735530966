// Simulated Arduino platform: virtual clock, pins, serial console, I2C EEPROM chip, on-chip EEPROM, ACAN2515 driver.
#pragma once
#include "core.h"
#include <Arduino.h>
#include <Wire.h>
#include <SPI.h>
#include <ACAN2515.h>

namespace sim {

extern unsigned long now;            // value returned by millis()
struct PinWrite { unsigned long t; int pin, val; };
extern std::vector<PinWrite> pinWrites;
extern std::map<int, int> pinOut;
extern std::map<int, int> pinIn;
extern int pinDefault;               // level of pins that are not in pinIn
extern std::map<int, int> pinModes;
extern std::deque<uint8_t> serialIn;
extern std::string serialOut;        // everything printed
struct Port { std::deque<uint8_t> in; std::string out; };
extern std::map<const void *, Port> otherPorts; // serial ports other than Serial
extern int printConfigCalls;

// On-chip EEPROM
extern std::vector<uint8_t> eeprom;
extern uint64_t eepromWrites;
extern std::function<void(unsigned, uint8_t)> onEepromWrite;

// 24LC-style I2C EEPROM chip at one bus address
struct I2cEeprom
{
  uint8_t busAddress = 0x50;
  const void *bus = nullptr;   // the TwoWire the chip is wired to, null for any
  std::vector<uint8_t> mem;
  unsigned pageSize = 64;      // writes wrap inside a page, as the real chips do
  unsigned maxPerTransfer = 32; // Wire library buffer, including the two address bytes
  unsigned writeCycle = 0;     // ms during which the chip does not answer after a write
  unsigned long busyFrom = 0; bool busy = false; uint64_t refused = 0;
  std::function<void()> onWrite; // before each byte reaches a cell
  uint64_t writes = 0, reads = 0, wraps = 0, lost = 0, wrongAddress = 0;
};
extern I2cEeprom i2c;

// ACAN2515 driver
struct CanChip
{
  uint64_t begins = 0, ends = 0, isrs = 0, polls = 0;
  unsigned long oscFreq = 0; unsigned bitRate = 0;
  bool hadIsr = false;
  void (*isrFn)() = nullptr;
  uint8_t csPin = 0, intPin = 0;
  int rxBuf = 0, tx0 = 0, tx1 = 0, tx2 = 0; int mode = -1;
  SPIClass *spi = nullptr;
  bool failBegin = false;
  bool failSend = false;
  std::function<bool()> sendOk;
  const void *object = nullptr;   // the driver object that owns the chip
  std::deque<CANMessage> hw;      // received by the chip, not yet fetched by the driver (by its ISR or when polled)
  std::deque<CANMessage> rx;      // in the driver's receive buffer
  uint64_t overruns = 0, stale = 0;
  std::vector<CANMessage> sent;
  uint8_t rec = 0, tec = 0, eflg = 0;
};
extern CanChip chip;

// What would restart the board. Seen only when the library was built for a platform on which it can be (see run.py).
extern bool restartsSeen;
extern uint64_t restarts;
extern std::function<void()> onRestart;
extern unsigned freeHeap;

void reset();
}
