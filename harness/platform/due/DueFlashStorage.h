// Arduino Due flash storage library.
#pragma once
#include "../devices.h"
class DueFlashStorage
{
public:
  byte read(uint32_t a) { return dev::dueRead(a); }
  byte *readAddress(uint32_t a) { dev::dueRead(a); return dev::dueAddress(a); }
  bool write(uint32_t a, byte v) { dev::dueWrite(a, v); return true; }
  bool write(uint32_t a, byte *d, uint32_t n) { for (uint32_t i = 0; i < n; i++) dev::dueWrite(a + i, d[i]); return true; }
  bool write_unlocked(uint32_t a, byte v) { return write(a, v); }
  bool write_unlocked(uint32_t a, byte *d, uint32_t n) { return write(a, d, n); }
};
