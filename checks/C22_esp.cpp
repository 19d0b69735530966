// The library's on-chip storage as built for an ESP, compiled from the working tree.
#include <Arduino.h>
#include <cstring>
#include "C22_ops.h"
#define ESP32 1
#define VLCB VLCB_esp
#include "../harness/platform/rp/EEPROM.h"
#define EEPROM_h
#include "EepromInternalStorage.cpp"
#include "CreateDefaultStorageForPlatform.cpp"
StorageOps espStorage() { return storageOps(VLCB_esp::createDefaultStorageForPlatform()); }
