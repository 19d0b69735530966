// The example sketches, several instances of each (one per power-up of a case).
#pragma once
#include "Configuration.h"
struct Sketch { void (*setup)(); void (*loop)(); VLCB::Configuration *conf; };
enum SketchKind { SK_1IN1OUT, SK_4IN4OUT, SK_SERIALGC, SK_LONG, SK_EMPTY, SK_KINDS };
const int SKETCH_INSTANCES = 4; // instance 0 was powered up with all inputs low (button held), the others with inputs high
extern Sketch sketches[SK_KINDS][SKETCH_INSTANCES];
