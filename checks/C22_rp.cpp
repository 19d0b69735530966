// The library's storage for platforms that emulate EEPROM in flash, compiled from the working tree.
#include <Arduino.h>
#include <cstring>
#include "C22_ops.h"
#define ARDUINO_ARCH_RP2040 1
#define VLCB VLCB_rp
#include "../harness/platform/rp/EEPROM.h"
#define EEPROM_h
#include "EepromInternalStorage.cpp"
#include "CreateDefaultStorageForPlatform.cpp"
StorageOps rpStorage() { return storageOps(VLCB_rp::createDefaultStorageForPlatform()); }
