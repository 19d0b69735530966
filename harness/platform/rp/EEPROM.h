// EEPROM emulation in flash (RP2040, ESP8266): a RAM copy that reaches the flash on commit().
#pragma once
#include "../devices.h"
struct FakeEeprom
{
  void begin(unsigned size) { dev::rpBegin(size); }
  uint8_t read(int a) { return dev::rpRead(a); }
  void write(int a, uint8_t v) { dev::rpWrite(a, v); }
  bool commit() { dev::rpCommit(); return true; }
  bool end() { dev::rpCommit(); return true; }
};
static FakeEeprom EEPROM;
