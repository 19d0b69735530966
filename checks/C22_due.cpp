// The library's storage for the Arduino Due, compiled from the working tree with a model of DueFlashStorage.
#include <Arduino.h>
#include <cstring>
#include "C22_ops.h"
#define __SAM3X8E__ 1
#define VLCB VLCB_due
#include "../harness/platform/due/DueFlashStorage.h"
#include "DueEepromEmulationStorage.cpp"
#include "CreateDefaultStorageForPlatform.cpp"
StorageOps dueStorage() { return storageOps(VLCB_due::createDefaultStorageForPlatform()); }
