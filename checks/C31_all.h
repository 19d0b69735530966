namespace a1 {
#include "VLCB_1in1out/VLCB_1in1out.ino"
}
namespace a4 {
#undef LEDControl_h
#include "VLCB_4in4out/LEDControl.cpp"
#include "VLCB_4in4out/VLCB_4in4out.ino"
}
namespace ag {
#include "VLCB_SerialGC_1in1out/VLCB_SerialGC_1in1out.ino"
}
namespace al {
#include "VLCB_long_message_example/VLCB_long_message_example.ino"
}
namespace ae {
#include "VLCB_empty/VLCB_empty.ino"
}
