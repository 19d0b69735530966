From abdf60b6042b14ad8d91a55d173ffa48c86399c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:53 +0000
Subject: [PATCH 01/44] fix: store a new event also when its first taught event
 variable is not EV1

---
 src/EventTeachingService.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/EventTeachingService.cpp b/src/EventTeachingService.cpp
index aec6cab..62a0af6 100644
--- a/src/EventTeachingService.cpp
+++ b/src/EventTeachingService.cpp
@@ -433,9 +433,10 @@ void EventTeachingService::handleLearnEvent(const VlcbMessage *msg, unsigned int
   // search for this NN, EN as we may just be adding an EV to an existing learned event 
   //DEBUG_SERIAL << F("ets> searching for existing event to update") << endl;
   byte index = module_config->findExistingEvent(nn, en);
+  bool isNewEvent = index >= module_config->EE_MAX_EVENTS;
 
   // not found - it's a new event
-  if (index >= module_config->EE_MAX_EVENTS)
+  if (isNewEvent)
   {
     // DEBUG_SERIAL << F("ets> existing event not found - creating a new one if space available") << endl;
     index = module_config->findEventSpace();
@@ -454,8 +455,8 @@ void EventTeachingService::handleLearnEvent(const VlcbMessage *msg, unsigned int
   // write the event to EEPROM at this location -- EVs are indexed from 1 but storage offsets start at zero !!
   // DEBUG_SERIAL << F("ets> writing EV = ") << evnum << F(", at index = ") << index << F(", offset = ") << (module_config->EE_EVENTS_START + (index * module_config->EE_BYTES_PER_EVENT)) << endl;
 
-  // don't repeat this for subsequent EVs
-  if (evnum <= 1)
+  // don't repeat this for subsequent EVs of an event that is already stored
+  if (isNewEvent || evnum <= 1)
   {
     module_config->writeEvent(index, &msg->data[1]);
   }
-- 
2.43.0


From 58b7ca134a8206421ba58b444bc594d49d6957c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:35 +0000
Subject: [PATCH 02/44] fix: ignore event variables left behind in free event
 slots when looking up an event by EV

---
 src/Configuration.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/Configuration.cpp b/src/Configuration.cpp
index 74cec09..22083e7 100644
--- a/src/Configuration.cpp
+++ b/src/Configuration.cpp
@@ -184,7 +184,13 @@ byte Configuration::findExistingEventByEv(byte evnum, byte evval) const
   {
     if (getEventEVval(i, evnum) == evval)
     {
-      break;
+      // Ignore free slots. These may still hold the event variables of a deleted event.
+      byte tarray[EE_HASH_BYTES];
+      readEvent(i, tarray);
+      if (!nnenEquals(tarray, unused_entry))
+      {
+        break;
+      }
     }
   }
   return i;
-- 
2.43.0


From b55d19a56d46a44b6b75a8e9127904e840e7e612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:36 +0000
Subject: [PATCH 03/44] fix: only change learn mode on MODE commands addressed
 to this node

---
 src/EventTeachingService.cpp | 10 ++++++++--
 src/EventTeachingService.h   |  2 +-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/EventTeachingService.cpp b/src/EventTeachingService.cpp
index 62a0af6..2477010 100644
--- a/src/EventTeachingService.cpp
+++ b/src/EventTeachingService.cpp
@@ -45,7 +45,7 @@ void EventTeachingService::handleMessage(const VlcbMessage *msg)
   {
   case OPC_MODE:
     // 76 - Set Operating Mode
-    handleLearnMode(msg);
+    handleLearnMode(msg, nn);
     break;
 
   case OPC_NNLRN:
@@ -111,9 +111,15 @@ void EventTeachingService::handleMessage(const VlcbMessage *msg)
   }
 }
 
-void EventTeachingService::handleLearnMode(const VlcbMessage *msg)
+void EventTeachingService::handleLearnMode(const VlcbMessage *msg, unsigned int nn)
 {
   //DEBUG_SERIAL << F("ets> MODE -- request op-code received for NN = ") << nn << endl;
+  if (!isThisNodeNumber(nn))
+  {
+    // Not for this module.
+    return;
+  }
+
   byte requestedMode = msg->data[3];
   switch (requestedMode)
   {
diff --git a/src/EventTeachingService.h b/src/EventTeachingService.h
index 0b6ddf4..55e2ba1 100644
--- a/src/EventTeachingService.h
+++ b/src/EventTeachingService.h
@@ -28,7 +28,7 @@ private:
   bool bLearn = false;
 
   void handleMessage(const VlcbMessage *msg);
-  void handleLearnMode(const VlcbMessage *msg);
+  void handleLearnMode(const VlcbMessage *msg, unsigned int nn);
   void handleLearn(unsigned int nn);
   void handleUnlearnEvent(const VlcbMessage *msg, unsigned int nn, unsigned int en);
   void handleUnlearn(unsigned int nn);
-- 
2.43.0


From 7c1da5fdeef5a7183e3e84dacf926da162fcf6bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:49 +0000
Subject: [PATCH 04/44] fix: reject writes to node variable index 0

---
 src/NodeVariableService.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/NodeVariableService.cpp b/src/NodeVariableService.cpp
index bab8fff..468c382 100644
--- a/src/NodeVariableService.cpp
+++ b/src/NodeVariableService.cpp
@@ -90,7 +90,8 @@ void NodeVariableService::handleSetNV(const VlcbMessage *msg, unsigned int nn)
     }
 
     Configuration *module_config = controller->getModuleConfig();
-    if (msg->data[3] > module_config->EE_NUM_NVS)
+    byte nvindex = msg->data[3];
+    if (nvindex == 0 || nvindex > module_config->EE_NUM_NVS)
     {
       controller->sendGRSP(OPC_NVSET, getServiceID(), CMDERR_INV_NV_IDX);
       controller->sendCMDERR(CMDERR_INV_NV_IDX);
@@ -98,7 +99,7 @@ void NodeVariableService::handleSetNV(const VlcbMessage *msg, unsigned int nn)
     else
     {
       // update EEPROM for this NV -- NVs are indexed from 1, not zero
-      module_config->writeNV(msg->data[3], msg->data[4]);
+      module_config->writeNV(nvindex, msg->data[4]);
       // respond with WRACK
       controller->sendWRACK();
       // DEBUG_SERIAL << F("> set NV ok") << endl;
@@ -120,7 +121,7 @@ void NodeVariableService::handleSetAndReadNV(const VlcbMessage *msg, unsigned in
 
     byte nvindex = msg->data[3];
     Configuration *module_config = controller->getModuleConfig();
-    if (nvindex > module_config->EE_NUM_NVS)
+    if (nvindex == 0 || nvindex > module_config->EE_NUM_NVS)
     {
       controller->sendGRSP(OPC_NVSETRD, getServiceID(), CMDERR_INV_NV_IDX);
       controller->sendCMDERR(CMDERR_INV_NV_IDX);
-- 
2.43.0


From 9a5a24b899862894741b6777b6d764d5f3b012c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:50 +0000
Subject: [PATCH 05/44] fix: answer NENRD for an unused event slot with an
 error

---
 src/EventTeachingService.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/EventTeachingService.cpp b/src/EventTeachingService.cpp
index 2477010..80725fe 100644
--- a/src/EventTeachingService.cpp
+++ b/src/EventTeachingService.cpp
@@ -251,7 +251,7 @@ void EventTeachingService::handleReadEventIndex(unsigned int nn, byte eventIndex
   if (isThisNodeNumber(nn))
   {
     Configuration *module_config = controller->getModuleConfig();
-    if ((eventIndex >= module_config->EE_MAX_EVENTS) && (module_config->getEvTableEntry(eventIndex) == 0))
+    if ((eventIndex >= module_config->EE_MAX_EVENTS) || (module_config->getEvTableEntry(eventIndex) == 0))
     {
       controller->sendCMDERR(CMDERR_INV_EN_IDX);
       controller->sendGRSP(OPC_NENRD, getServiceID(), CMDERR_INV_EN_IDX);
-- 
2.43.0


From c7dd19783397f2e7c296e8bf89283b622ec870e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:51 +0000
Subject: [PATCH 06/44] fix: initialise the event request handler so that it is
 optional

---
 src/EventProducerService.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/EventProducerService.h b/src/EventProducerService.h
index 9cd78d5..528c220 100644
--- a/src/EventProducerService.h
+++ b/src/EventProducerService.h
@@ -37,7 +37,7 @@ public:
   
 
 private:
-  void (*requesteventhandler)(byte index, const VlcbMessage *msg);
+  void (*requesteventhandler)(byte index, const VlcbMessage *msg) = nullptr;
   void handleProdSvcMessage(const VlcbMessage *msg);
   
   void setProducedEvents();
-- 
2.43.0


From fc3684454c9d6e6641ec5e79a0df3283fd4e1ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:10 +0000
Subject: [PATCH 07/44] fix: do not write past the event table when there is no
 space for a default event

---
 src/EventProducerService.cpp | 40 +++++++++++++++++++++++++++++++-----
 src/EventProducerService.h   |  2 +-
 2 files changed, 36 insertions(+), 6 deletions(-)

diff --git a/src/EventProducerService.cpp b/src/EventProducerService.cpp
index 986cf17..0b659f9 100644
--- a/src/EventProducerService.cpp
+++ b/src/EventProducerService.cpp
@@ -47,6 +47,11 @@ byte EventProducerService::createDefaultEvent(byte evValue)
   
   byte index = module_config->findEventSpace();
   //TODO: Consider full event table error message. Should error come from Configuration?
+  if (index >= module_config->EE_MAX_EVENTS)
+  {
+    // Event table is full. There is nowhere to store this event.
+    return index;
+  }
   
   // Find next available event number.
   unsigned int eventNum;
@@ -92,13 +97,17 @@ void EventProducerService::process(const Action * action)
   }
 }
 
-void EventProducerService::findOrCreateEventByEv(byte evIndex, byte evValue, byte nn_en[4])
+bool EventProducerService::findOrCreateEventByEv(byte evIndex, byte evValue, byte nn_en[4])
 {
   Configuration *module_config = controller->getModuleConfig();
   byte index = module_config->findExistingEventByEv(evIndex, evValue);
   if (index >= module_config->EE_MAX_EVENTS)
   {
     index = createDefaultEvent(evValue);
+    if (index >= module_config->EE_MAX_EVENTS)
+    {
+      return false;
+    }
   }
 
   module_config->readEvent(index, nn_en);
@@ -108,8 +117,13 @@ void EventProducerService::findOrCreateEventByEv(byte evIndex, byte evValue, byt
     // This table entry was not initalised correctly.
     // This may happen if an event is deleted but the hash table is not updated.
     index = createDefaultEvent(evValue);
+    if (index >= module_config->EE_MAX_EVENTS)
+    {
+      return false;
+    }
     module_config->readEvent(index, nn_en);
   }
+  return true;
 }
 
 void EventProducerService::sendMessage(VlcbMessage &msg, byte opCode, const byte *nn_en)
@@ -125,7 +139,11 @@ void EventProducerService::sendMessage(VlcbMessage &msg, byte opCode, const byte
 void EventProducerService::sendEvent(bool state, byte evValue)
 {
   byte nn_en[4];
-  findOrCreateEventByEv(1, evValue, nn_en);
+  if (!findOrCreateEventByEv(1, evValue, nn_en))
+  {
+    // No event for this value and no space to create one.
+    return;
+  }
 
   byte opCode;
   if ((nn_en[0] == 0) && (nn_en[1] == 0))
@@ -147,7 +165,11 @@ void EventProducerService::sendEvent(bool state, byte evValue)
 void EventProducerService::sendEvent(bool state, byte evValue, byte data1)
 {
   byte nn_en[4];
-  findOrCreateEventByEv(1, evValue, nn_en);
+  if (!findOrCreateEventByEv(1, evValue, nn_en))
+  {
+    // No event for this value and no space to create one.
+    return;
+  }
 
   byte opCode;
   if ((nn_en[0] == 0) && (nn_en[1] == 0))
@@ -170,7 +192,11 @@ void EventProducerService::sendEvent(bool state, byte evValue, byte data1)
 void EventProducerService::sendEvent(bool state, byte evValue, byte data1, byte data2)
 {
   byte nn_en[4];
-  findOrCreateEventByEv(1, evValue, nn_en);
+  if (!findOrCreateEventByEv(1, evValue, nn_en))
+  {
+    // No event for this value and no space to create one.
+    return;
+  }
 
   byte opCode;
   if ((nn_en[0] == 0) && (nn_en[1] == 0))
@@ -194,7 +220,11 @@ void EventProducerService::sendEvent(bool state, byte evValue, byte data1, byte
 void EventProducerService::sendEvent(bool state, byte evValue, byte data1, byte data2, byte data3)
 {
   byte nn_en[4];
-  findOrCreateEventByEv(1, evValue, nn_en);
+  if (!findOrCreateEventByEv(1, evValue, nn_en))
+  {
+    // No event for this value and no space to create one.
+    return;
+  }
 
   byte opCode;
   if ((nn_en[0] == 0) && (nn_en[1] == 0))
diff --git a/src/EventProducerService.h b/src/EventProducerService.h
index 528c220..5249ba0 100644
--- a/src/EventProducerService.h
+++ b/src/EventProducerService.h
@@ -42,7 +42,7 @@ private:
   
   void setProducedEvents();
   byte createDefaultEvent(byte evValue);
-  void findOrCreateEventByEv(byte evIndex, byte evValue, byte tarr[]);
+  bool findOrCreateEventByEv(byte evIndex, byte evValue, byte tarr[]);
   void sendMessage(VlcbMessage &msg, byte opCode, const byte *nn_en);
 
   bool uninit = false;
-- 
2.43.0


From 23460781aef00060a18c23df782435c609eb0b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:11 +0000
Subject: [PATCH 08/44] fix: do not loop forever when 255 produced events are
 configured

---
 src/EventProducerService.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/EventProducerService.cpp b/src/EventProducerService.cpp
index 0b659f9..ee5ce5c 100644
--- a/src/EventProducerService.cpp
+++ b/src/EventProducerService.cpp
@@ -33,7 +33,7 @@ void EventProducerService::begin()
 
 void EventProducerService::setProducedEvents()
 { 
-  for (byte i = 1; i <= controller->getModuleConfig()->EE_PRODUCED_EVENTS; i++)
+  for (unsigned int i = 1; i <= controller->getModuleConfig()->EE_PRODUCED_EVENTS; i++)
   {
     createDefaultEvent(i);    
   }    
-- 
2.43.0


From 914c749b74646e0101f0f96a7b311c256e90df42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:39 +0000
Subject: [PATCH 09/44] fix: send the taught event, not ever new default
 events, when its node number is 65535

---
 src/EventProducerService.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/EventProducerService.cpp b/src/EventProducerService.cpp
index ee5ce5c..2ad4106 100644
--- a/src/EventProducerService.cpp
+++ b/src/EventProducerService.cpp
@@ -112,7 +112,8 @@ bool EventProducerService::findOrCreateEventByEv(byte evIndex, byte evValue, byt
 
   module_config->readEvent(index, nn_en);
   //DEBUG_SERIAL << F("eps>index = ") << index << F(" , Node Number = 0x") << _HEX(nn_en[0]) << _HEX(nn_en[1]) << endl;
-  if ((nn_en[0] == 0xff) && (nn_en[1] == 0xff))
+  static const byte unused_entry[EE_HASH_BYTES] = { 0xff, 0xff, 0xff, 0xff};
+  if (Configuration::nnenEquals(nn_en, unused_entry))
   {
     // This table entry was not initalised correctly.
     // This may happen if an event is deleted but the hash table is not updated.
-- 
2.43.0


From 4163ffd1d0a933a6c08125de01bc0489eccfa949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:04 +0000
Subject: [PATCH 10/44] fix: do not loop forever when there are 255 event
 variables or node variables

---
 src/EventProducerService.cpp | 2 +-
 src/EventTeachingService.cpp | 4 ++--
 src/SerialUserInterface.cpp  | 6 +++---
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/EventProducerService.cpp b/src/EventProducerService.cpp
index 2ad4106..f496fd9 100644
--- a/src/EventProducerService.cpp
+++ b/src/EventProducerService.cpp
@@ -72,7 +72,7 @@ byte EventProducerService::createDefaultEvent(byte evValue)
   module_config->writeEvent(index, nn_en);
   module_config->writeEventEV(index, 1, evValue);
   
-  for (byte i = 2; i <= module_config->EE_NUM_EVS; i++)
+  for (unsigned int i = 2; i <= module_config->EE_NUM_EVS; i++)
   {
     module_config->writeEventEV(index, i, 0);
   }
diff --git a/src/EventTeachingService.cpp b/src/EventTeachingService.cpp
index 80725fe..e93aae7 100644
--- a/src/EventTeachingService.cpp
+++ b/src/EventTeachingService.cpp
@@ -320,7 +320,7 @@ void EventTeachingService::handleReadEventVariable(const VlcbMessage *msg, unsig
   {
     // Return number of EVs. This may be dynamic in other implementations.
     controller->sendMessageWithNN(OPC_NEVAL, eventIndex, evnum, module_config->EE_NUM_EVS);
-    for (byte i = 1; i <= module_config->EE_NUM_EVS; i++)
+    for (unsigned int i = 1; i <= module_config->EE_NUM_EVS; i++)
     {
       byte value = module_config->getEventEVval(eventIndex, i);
       controller->sendMessageWithNN(OPC_NEVAL, eventIndex, i, value);
@@ -584,7 +584,7 @@ void EventTeachingService::handleRequestEventVariable(const VlcbMessage *msg, un
     response.data[5] = 0;
     response.data[6] = module_config->EE_NUM_EVS;
     controller->sendMessage(&response);
-    for (byte i = 1; i <= module_config->EE_NUM_EVS; i++)
+    for (unsigned int i = 1; i <= module_config->EE_NUM_EVS; i++)
     {
       response.data[5] = i;
       response.data[6] = module_config->getEventEVval(index, i);
diff --git a/src/SerialUserInterface.cpp b/src/SerialUserInterface.cpp
index b3a52e1..29f686b 100644
--- a/src/SerialUserInterface.cpp
+++ b/src/SerialUserInterface.cpp
@@ -89,7 +89,7 @@ void SerialUserInterface::processSerialInput()
               sprintf(dstr, " 0x%02hx | ", evarray[e]);
               Serial << dstr;
             }
-            for (byte ev = 1; ev <= modconfig->EE_NUM_EVS; ev++)
+            for (unsigned int ev = 1; ev <= modconfig->EE_NUM_EVS; ev++)
             {
               sprintf(dstr, " 0x%02hx | ", modconfig->getEventEVval(j, ev));
               Serial << dstr;
@@ -111,10 +111,10 @@ void SerialUserInterface::processSerialInput()
         Serial << F("   NV   Val") << endl;
         Serial << F("  --------------------") << endl;
 
-        for (byte j = 1; j <= modconfig->EE_NUM_NVS; j++)
+        for (unsigned int j = 1; j <= modconfig->EE_NUM_NVS; j++)
         {
           byte v = modconfig->readNV(j);
-          sprintf(msgstr, " - %02d : %3hd | 0x%02hx", j, v, v);
+          sprintf(msgstr, " - %02d : %3hd | 0x%02hx", (int) j, v, v);
           Serial << msgstr << endl;
         }
 
-- 
2.43.0


From 6dfb3c4d795636a22b1e944a60182028b3d1eba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:06 +0000
Subject: [PATCH 11/44] fix: do not overlap stored events when there are more
 than 251 event variables

---
 src/Configuration.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Configuration.h b/src/Configuration.h
index c847f52..6b4022a 100644
--- a/src/Configuration.h
+++ b/src/Configuration.h
@@ -80,7 +80,7 @@ public:
   byte EE_MAX_EVENTS = 0;
   byte EE_NUM_EVS = 0;
   byte EE_PRODUCED_EVENTS = 0;
-  byte EE_BYTES_PER_EVENT; // Value calculated in begin()
+  unsigned int EE_BYTES_PER_EVENT; // Value calculated in begin()
 
   bool heartbeat;
   bool eventAck;
-- 
2.43.0


From d963ae42a76744a456092ecdeeae59c9bf714dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:40 +0000
Subject: [PATCH 12/44] fix: refuse a long message when all send contexts are
 in use

---
 src/LongMessageService.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LongMessageService.cpp b/src/LongMessageService.cpp
index 23eb939..f781835 100644
--- a/src/LongMessageService.cpp
+++ b/src/LongMessageService.cpp
@@ -417,7 +417,7 @@ bool LongMessageServiceEx::sendLongMessage(const void *msg, const unsigned int m
 		}
 	}
 
-	if (i > _num_send_contexts)
+	if (i >= _num_send_contexts)
   {
 		// DEBUG_SERIAL << F("> Lex: ERROR: unable to find free send context") << endl;
 		return false;
-- 
2.43.0


From fdb92a7c5ea55cc12ae328950ac36f570a56fb5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:41 +0000
Subject: [PATCH 13/44] fix: send long messages that contain zero bytes or are
 not zero terminated

---
 src/LongMessageService.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/LongMessageService.cpp b/src/LongMessageService.cpp
index f781835..c378857 100644
--- a/src/LongMessageService.cpp
+++ b/src/LongMessageService.cpp
@@ -426,9 +426,13 @@ bool LongMessageServiceEx::sendLongMessage(const void *msg, const unsigned int m
 	// DEBUG_SERIAL << F("> Lex: using send context = ") << i << endl;
 
 	// initialise context
+	// copy the message to the send content, will free later. The message may contain any bytes.
+	if ((_send_context[i]->buffer = (byte *)malloc(msg_len)) == NULL)
+  {
+		return false;
+	}
+	memcpy(_send_context[i]->buffer, msg, msg_len);
 	_send_context[i]->in_use = true;
-	// _send_context[i]->buffer = (byte *)msg;
-	_send_context[i]->buffer = (byte *)strdup((char *)msg);														// copy the message to the send content, will free later
 	_send_context[i]->send_buffer_len = msg_len;
 	_send_context[i]->send_stream_id = stream_id;
   _send_context[i]->send_buffer_index = 0;
-- 
2.43.0


From 39714007b3527e690a59ca4822c82d3ae9d89abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:41 +0000
Subject: [PATCH 14/44] fix: initialise the time of the last sent fragment of a
 long message

---
 src/LongMessageService.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/LongMessageService.cpp b/src/LongMessageService.cpp
index c378857..4d333f1 100644
--- a/src/LongMessageService.cpp
+++ b/src/LongMessageService.cpp
@@ -453,6 +453,7 @@ bool LongMessageServiceEx::sendLongMessage(const void *msg, const unsigned int m
 	frame.data[7] = 0;																																// flags - 0 = standard data message
 
 	bool ret = sendMessageFragment(&frame);					// send the header packet
+	_send_context[i]->last_fragment_sent = millis();
 	_send_context[i]->send_sequence_num = 1;																	  			// the next send sequence number - it's fine if it wraps around
 
 	// DEBUG_SERIAL << F("> Lex: message header sent, stream id = ") << stream_id << F(", message length = ") << msg_len << F(", ret = ") << ret << endl;
-- 
2.43.0


From 3452e4012c630a1e39a7dfb23289c00f65d1617d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:42 +0000
Subject: [PATCH 15/44] fix: do not share the current send context between long
 message services

---
 src/LongMessageService.cpp | 2 +-
 src/LongMessageService.h   | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/LongMessageService.cpp b/src/LongMessageService.cpp
index 4d333f1..7e9af4e 100644
--- a/src/LongMessageService.cpp
+++ b/src/LongMessageService.cpp
@@ -470,7 +470,7 @@ bool LongMessageServiceEx::process()
 	byte i;
 	VlcbMessage frame;
 
-	static byte context = 0;				// we round-robin the context list when sending
+	byte &context = _next_send_context;				// we round-robin the context list when sending
 
 	/// check receive timeout for each active context
 
diff --git a/src/LongMessageService.h b/src/LongMessageService.h
index 87855d3..4d4ecd3 100644
--- a/src/LongMessageService.h
+++ b/src/LongMessageService.h
@@ -110,6 +110,7 @@ public:
 private:
 
   bool _use_crc = false;
+  byte _next_send_context = 0;
   byte _num_receive_contexts = NUM_EX_CONTEXTS, _num_send_contexts = NUM_EX_CONTEXTS;
   receive_context_t **_receive_context = NULL;
   send_context_t **_send_context = NULL;
-- 
2.43.0


From 528adb02bdbcdd6552439a6d1123af2eb9960e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:43 +0000
Subject: [PATCH 16/44] fix: receive long messages of more than 255 fragments

---
 src/LongMessageService.cpp | 27 +++++++++++++++++----------
 src/LongMessageService.h   |  6 ++++--
 2 files changed, 21 insertions(+), 12 deletions(-)

diff --git a/src/LongMessageService.cpp b/src/LongMessageService.cpp
index 7e9af4e..8c988cb 100644
--- a/src/LongMessageService.cpp
+++ b/src/LongMessageService.cpp
@@ -570,7 +570,21 @@ void LongMessageServiceEx::processReceivedMessageFragment(const VlcbMessage *fra
 	// DEBUG_SERIAL << F("> Lex: handling incoming message fragment") << endl;
 	// DEBUG_SERIAL.flush();
 
-  if (frame->data[2] == 0)
+  // find a receive context in progress for this stream ID
+  byte current;
+  for (current = 0; current < _num_receive_contexts; current++)
+  {
+    if (_receive_context[current]->in_use && _receive_context[current]->receive_stream_id == frame->data[1])
+    {
+      break;
+    }
+  }
+
+  // the sequence number of continuation packets may wrap from 255 to 0
+  bool continuation = frame->data[2] != 0
+      || (current < _num_receive_contexts && _receive_context[current]->expected_next_receive_sequence_num == 0);
+
+  if (!continuation)
   {
     // sequence zero = a header packet with start of new stream
 
@@ -631,15 +645,8 @@ void LongMessageServiceEx::processReceivedMessageFragment(const VlcbMessage *fra
 
     // DEBUG_SERIAL << F("> Lex: this is a continuation packet") << endl;
 
-    // find a matching receive context, using the stream ID and sender CANID
-    for (i = 0; i < _num_receive_contexts; i++)
-    {
-      if (_receive_context[i]->in_use && _receive_context[i]->receive_stream_id == frame->data[1])
-      {
-        // DEBUG_SERIAL << F("> Lex: found matching receive context = ") << i << endl;
-        break;
-      }
-    }
+    // use the matching receive context
+    i = current;
 
     // return if not found
     if (i >= _num_receive_contexts)
diff --git a/src/LongMessageService.h b/src/LongMessageService.h
index 4d4ecd3..ced1c49 100644
--- a/src/LongMessageService.h
+++ b/src/LongMessageService.h
@@ -65,7 +65,8 @@ protected:
   byte _msg_delay = LONG_MESSAGE_DEFAULT_DELAY;
   unsigned int _send_buffer_len = 0, _incoming_message_length = 0, _receive_buffer_len = 0, _receive_buffer_index = 0;
   unsigned int _send_buffer_index = 0, _incoming_message_crc = 0, _incoming_bytes_received = 0;
-  unsigned int _receive_timeout = LONG_MESSAGE_RECEIVE_TIMEOUT, _send_sequence_num = 0, _expected_next_receive_sequence_num = 0;
+  unsigned int _receive_timeout = LONG_MESSAGE_RECEIVE_TIMEOUT;
+  byte _send_sequence_num = 0, _expected_next_receive_sequence_num = 0;   // these wrap from 255 to 0
   unsigned long _last_fragment_sent = 0UL, _last_fragment_received = 0UL;
 
   void (*_messagehandler)(void *fragment, const unsigned int fragment_len, const byte stream_id, const byte status);        // user callback function to receive long message fragments
@@ -80,7 +81,8 @@ struct receive_context_t {
   bool in_use;
   byte receive_stream_id;
   byte *buffer;
-  unsigned int receive_buffer_index, incoming_bytes_received, incoming_message_length, expected_next_receive_sequence_num, incoming_message_crc;
+  byte expected_next_receive_sequence_num;
+  unsigned int receive_buffer_index, incoming_bytes_received, incoming_message_length, incoming_message_crc;
   unsigned long last_fragment_received;
 };
 
-- 
2.43.0


From 72517ea08b44257ab5ed36965fb105cccc2ace2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:55 +0000
Subject: [PATCH 17/44] fix: ignore fragments of other streams while receiving
 a long message

---
 src/LongMessageService.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/LongMessageService.cpp b/src/LongMessageService.cpp
index 8c988cb..7087579 100644
--- a/src/LongMessageService.cpp
+++ b/src/LongMessageService.cpp
@@ -152,10 +152,16 @@ void LongMessageService::processReceivedMessageFragment(const VlcbMessage *frame
 
 	// DEBUG_SERIAL << F("> L: processing received long message packet, message length = ") << _incoming_message_length << F(", rcvd so far = ") << _incoming_bytes_received << endl;
 
-	_last_fragment_received = millis();
-
 	byte i, j;
 
+  if (_is_receiving && frame->data[1] != _receive_stream_id)
+  {
+    // probably another stream in progress - we'll ignore it as we don't support concurrent streams
+    return;
+  }
+
+	_last_fragment_received = millis();
+
   if (!_is_receiving)
   {
     // not currently receiving a long message
-- 
2.43.0


From 8c0ea712d3a80e53afcfd8a6a95bfa1268d9ff9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:32 +0000
Subject: [PATCH 18/44] fix: accept a new long message when the end of the
 previous one was lost

---
 src/LongMessageService.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/LongMessageService.cpp b/src/LongMessageService.cpp
index 7087579..f6ab098 100644
--- a/src/LongMessageService.cpp
+++ b/src/LongMessageService.cpp
@@ -257,6 +257,13 @@ void LongMessageService::processReceivedMessageFragment(const VlcbMessage *frame
         _incoming_message_length = 0;
         _incoming_bytes_received = 0;
         _is_receiving = false;
+
+        if (frame->data[2] == 0)
+        {
+          // the end of that message was lost and this is the header packet of the next one
+          LongMessageService::processReceivedMessageFragment(frame);
+          return;
+        }
       }
     }
     else
@@ -600,6 +607,14 @@ void LongMessageServiceEx::processReceivedMessageFragment(const VlcbMessage *fra
 
       // DEBUG_SERIAL << F("> Lex: this is a data message header packet") << endl;
 
+      if (current < _num_receive_contexts)
+      {
+        // the end of the previous message of this stream was lost
+        (void) (*_messagehandler)(_receive_context[current]->buffer, _receive_context[current]->receive_buffer_index,
+                                  _receive_context[current]->receive_stream_id, LONG_MESSAGE_SEQUENCE_ERROR);
+        _receive_context[current]->in_use = false;
+      }
+
       for (i = 0; i < _num_stream_ids; i++)
       {
         if (_stream_ids[i] == frame->data[1])
-- 
2.43.0


From e53fcdc0e30b91f35ceb9a92325305592edd9dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:32 +0000
Subject: [PATCH 19/44] fix: accept long messages with a CRC when CRC checking
 is off

---
 src/LongMessageService.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LongMessageService.cpp b/src/LongMessageService.cpp
index f6ab098..f1b7169 100644
--- a/src/LongMessageService.cpp
+++ b/src/LongMessageService.cpp
@@ -706,7 +706,7 @@ void LongMessageServiceEx::processReceivedMessageFragment(const VlcbMessage *fra
           tmpcrc = crc16((uint8_t *) _receive_context[i]->buffer, _receive_context[i]->receive_buffer_index);
         }
 
-        if (_receive_context[i]->incoming_message_crc != tmpcrc)
+        if (_use_crc && _receive_context[i]->incoming_message_crc != tmpcrc)
         {
           // DEBUG_SERIAL << F("> Lex: message CRC error, expected = ") << _receive_context[i]->incoming_message_crc << F(", calculated = ") << tmpcrc << endl;
           status = LONG_MESSAGE_CRC_ERROR;
-- 
2.43.0


From 040fcb3d80a2764c0fd2c5ea7b5646d8ffc2c3d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:33 +0000
Subject: [PATCH 20/44] fix: deliver empty long messages

---
 src/LongMessageService.cpp | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/LongMessageService.cpp b/src/LongMessageService.cpp
index f1b7169..b39110c 100644
--- a/src/LongMessageService.cpp
+++ b/src/LongMessageService.cpp
@@ -188,6 +188,12 @@ void LongMessageService::processReceivedMessageFragment(const VlcbMessage *frame
             memset(_receive_buffer, 0, _receive_buffer_len);
             _receive_buffer_index = 0;
             _expected_next_receive_sequence_num = 0;
+            if (_incoming_message_length == 0)
+            {
+              // an empty message has no continuation packets
+              (void) (*_messagehandler)(_receive_buffer, 0, _receive_stream_id, LONG_MESSAGE_COMPLETE);
+              _is_receiving = false;
+            }
             // DEBUG_SERIAL << F("> L: received header packet for stream id = ") << _receive_stream_id << F(", message length = ") << _incoming_message_length << F(", user buffer len = ") << _receive_buffer_len << endl;
             break;
           }
@@ -440,7 +446,7 @@ bool LongMessageServiceEx::sendLongMessage(const void *msg, const unsigned int m
 
 	// initialise context
 	// copy the message to the send content, will free later. The message may contain any bytes.
-	if ((_send_context[i]->buffer = (byte *)malloc(msg_len)) == NULL)
+	if ((_send_context[i]->buffer = (byte *)malloc(msg_len > 0 ? msg_len : 1)) == NULL)
   {
 		return false;
 	}
@@ -468,6 +474,12 @@ bool LongMessageServiceEx::sendLongMessage(const void *msg, const unsigned int m
 	bool ret = sendMessageFragment(&frame);					// send the header packet
 	_send_context[i]->last_fragment_sent = millis();
 	_send_context[i]->send_sequence_num = 1;																	  			// the next send sequence number - it's fine if it wraps around
+	if (msg_len == 0)
+  {
+		// an empty message has no continuation packets
+		_send_context[i]->in_use = false;
+		free(_send_context[i]->buffer);
+	}
 
 	// DEBUG_SERIAL << F("> Lex: message header sent, stream id = ") << stream_id << F(", message length = ") << msg_len << F(", ret = ") << ret << endl;
 	return (ret);
@@ -644,6 +656,12 @@ void LongMessageServiceEx::processReceivedMessageFragment(const VlcbMessage *fra
             _receive_context[i]->receive_buffer_index = 0;
             _receive_context[i]->expected_next_receive_sequence_num = 1;
             _receive_context[i]->last_fragment_received = millis();
+            if (_receive_context[i]->incoming_message_length == 0)
+            {
+              // an empty message has no continuation packets
+              (void) (*_messagehandler)(_receive_context[i]->buffer, 0, frame->data[1], LONG_MESSAGE_COMPLETE);
+              _receive_context[i]->in_use = false;
+            }
             // DEBUG_SERIAL << F("> Lex: received header packet for stream id = ") << _receive_context[i]->receive_stream_id << F(", message length = ") << _receive_context[i]->incoming_message_length << endl;
           }
           else
-- 
2.43.0


From 6b462463357f03215a78d87f43c5806cb9b4962c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:52 +0000
Subject: [PATCH 21/44] fix: write to the next flash page when a block crosses
 a page boundary

---
 src/FlashStorage.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/FlashStorage.cpp b/src/FlashStorage.cpp
index d24cf70..d557068 100644
--- a/src/FlashStorage.cpp
+++ b/src/FlashStorage.cpp
@@ -215,7 +215,7 @@ bool flash_write_bytes(const uint16_t address, const uint8_t *data, const uint16
       buffer_index = 0;                                 // set cache buffer index to zero
     }
 
-    cache_page.data[buffer_index + a] = data[a];
+    cache_page.data[buffer_index++] = data[a];
   }
 
   // set page dirty flag
-- 
2.43.0


From e2c92e78f342d7e4bed9d468b468b5a2e66a60bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:52 +0000
Subject: [PATCH 22/44] fix: keep the cached flash page in step with its number
 when flash storage is opened again

---
 src/FlashStorage.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/FlashStorage.cpp b/src/FlashStorage.cpp
index d557068..1a41ce9 100644
--- a/src/FlashStorage.cpp
+++ b/src/FlashStorage.cpp
@@ -31,6 +31,7 @@ void FlashStorage::begin()
   }
 
   // cache the first page into memory
+  curr_page_num = 0;
   flash_cache_page(0);
 #endif
 }
-- 
2.43.0


From 8755a808a2488667bfb134251851b00b09e40efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:53 +0000
Subject: [PATCH 23/44] fix: read and write blocks across pages and beyond the
 I2C buffer size in external EEPROM

---
 src/EepromExternalStorage.cpp | 55 +++++++++++++++++++++++------------
 1 file changed, 37 insertions(+), 18 deletions(-)

diff --git a/src/EepromExternalStorage.cpp b/src/EepromExternalStorage.cpp
index 24093ec..8d6d4c1 100644
--- a/src/EepromExternalStorage.cpp
+++ b/src/EepromExternalStorage.cpp
@@ -10,6 +10,10 @@
 namespace VLCB
 {
 
+// Data is transferred in chunks that, together with the address, fit into the I2C buffer.
+// Chunks to write are aligned to this size so that they never cross a page boundary of the EEPROM chip.
+static const byte I2C_CHUNK_SIZE = 16;
+
 EepromExternalStorage::EepromExternalStorage(byte address)
 {
   external_address = address;
@@ -81,11 +85,23 @@ byte EepromExternalStorage::readBytes(unsigned int eeaddress, byte nbytes, byte
     // DEBUG_SERIAL << F("> readBytes: I2C write error = ") << r << endl;
   }
 
-  I2Cbus->requestFrom((int)external_address, (int)nbytes);
-
+  // The chip continues from its current address, so read as many bytes at a time as the I2C buffer can hold.
   byte count = 0;
-  while (I2Cbus->available() && count < nbytes) {
-    dest[count++] = I2Cbus->read();
+  while (count < nbytes) {
+    byte chunk = nbytes - count;
+    if (chunk > I2C_CHUNK_SIZE) {
+      chunk = I2C_CHUNK_SIZE;
+    }
+    I2Cbus->requestFrom((int)external_address, (int)chunk);
+
+    byte received = 0;
+    while (I2Cbus->available() && received < chunk) {
+      dest[count++] = I2Cbus->read();
+      ++received;
+    }
+    if (received < chunk) {
+      break;
+    }
   }
 
   // DEBUG_SERIAL << F("> readBytes: read ") << count << F(" bytes from EEPROM in ") << micros() - t1 << F("us") << endl;
@@ -118,24 +134,27 @@ void EepromExternalStorage::write(unsigned int eeaddress, byte data)
 //
 void EepromExternalStorage::writeBytes(unsigned int eeaddress, const byte src[], byte numbytes)
 {
-  // *** TODO *** handle greater than 32 bytes -> the Arduino I2C write buffer size
-  // max write = EEPROM pagesize - 64 bytes
+  byte count = 0;
+  while (count < numbytes)
+  {
+    byte chunkEnd = I2C_CHUNK_SIZE - (eeaddress + count) % I2C_CHUNK_SIZE;
 
-  I2Cbus->beginTransmission(external_address);
-  I2Cbus->write((int) (eeaddress >> 8));   // MSB
-  I2Cbus->write((int) (eeaddress & 0xFF)); // LSB
+    I2Cbus->beginTransmission(external_address);
+    I2Cbus->write((int) ((eeaddress + count) >> 8));   // MSB
+    I2Cbus->write((int) ((eeaddress + count) & 0xFF)); // LSB
 
-  for (byte i = 0; i < numbytes; i++)
-  {
-    I2Cbus->write(src[i]);
-  }
+    for (byte i = 0; i < chunkEnd && count < numbytes; i++)
+    {
+      I2Cbus->write(src[count++]);
+    }
 
-  int r = I2Cbus->endTransmission();
-  delay(5);
+    int r = I2Cbus->endTransmission();
+    delay(5);
 
-  if (r < 0)
-  {
-    // DEBUG_SERIAL << F("> writeBytes: I2C write error = ") << r << endl;
+    if (r < 0)
+    {
+      // DEBUG_SERIAL << F("> writeBytes: I2C write error = ") << r << endl;
+    }
   }
 }
 
-- 
2.43.0


From 2c45a205de845d2bdf352bb37aae4568e0283950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:53 +0000
Subject: [PATCH 24/44] fix: do not mix up characters of several GridConnect
 serial ports

---
 src/SerialGC.cpp | 1 -
 src/SerialGC.h   | 1 +
 2 files changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SerialGC.cpp b/src/SerialGC.cpp
index 4484e58..e5cd45f 100644
--- a/src/SerialGC.cpp
+++ b/src/SerialGC.cpp
@@ -33,7 +33,6 @@ namespace VLCB
   bool SerialGC::available()
   {
     bool result = false;
-    static int rxIndex = 0;
     if (serial.available())
     {     
       char c = serial.read();
diff --git a/src/SerialGC.h b/src/SerialGC.h
index 58a6090..46a2910 100644
--- a/src/SerialGC.h
+++ b/src/SerialGC.h
@@ -44,6 +44,7 @@ namespace VLCB
 
   private:
     typeof(Serial)& serial;
+    int rxIndex = 0;             // number of characters of the current message in rxBuffer
 	
     char rxBuffer[RXBUFFERSIZE]; // Define a byte array to store the incoming data
     char txBuffer[RXBUFFERSIZE]; // Define a byte array to store the outgoing data
-- 
2.43.0


From 05b181b98004dffc8a159d0d37db9629a300707a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:55 +0000
Subject: [PATCH 25/44] fix: high water mark of circular buffers with a
 capacity over 127

---
 src/CircularBuffer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CircularBuffer.h b/src/CircularBuffer.h
index ba4bc4b..e9d8454 100644
--- a/src/CircularBuffer.h
+++ b/src/CircularBuffer.h
@@ -133,7 +133,7 @@ void CircularBuffer<E>::clear()
 template <typename E>
 uint8_t CircularBuffer<E>::bufUse()
 {
-  int8_t size = capacity;
+  int size = capacity;
   if (!full)
   {
     size = head - tail;
-- 
2.43.0


From 92f788964e4dbbe7e56594759bb99dff57e49b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:21 +0000
Subject: [PATCH 26/44] fix: clear all events on factory reset, wherever they
 are stored

---
 src/Configuration.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/Configuration.cpp b/src/Configuration.cpp
index 22083e7..d27f22b 100644
--- a/src/Configuration.cpp
+++ b/src/Configuration.cpp
@@ -545,6 +545,17 @@ void Configuration::resetModule()
   storage->write(LOCATION_FLAGS, 0);
   setResetFlag();        // set reset indicator
 
+  // clear any events that are stored outside the area that the storage erases
+  for (byte i = 0; i < EE_MAX_EVENTS; i++)
+  {
+    byte event[EE_HASH_BYTES];
+    readEvent(i, event);
+    if (memcmp(event, unused_entry, EE_HASH_BYTES) != 0)
+    {
+      cleareventEEPROM(i);
+    }
+  }
+
   // zero NVs (NVs number from one, not zero)
   for (byte i = 0; i < EE_NUM_NVS; i++)
   {
-- 
2.43.0


From 271450abf65b4f8495b1f0c389bf6aca45cf4f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:21 +0000
Subject: [PATCH 27/44] fix: keep polling mode and SPI bus when the CAN2515
 transport is reset

---
 src/CAN2515.cpp | 3 ++-
 src/CAN2515.h   | 5 +++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/CAN2515.cpp b/src/CAN2515.cpp
index 86fddef..519744d 100644
--- a/src/CAN2515.cpp
+++ b/src/CAN2515.cpp
@@ -42,6 +42,7 @@ bool CAN2515::begin(bool poll, SPIClass & spi)
   _numMsgsSent = 0;
   _numMsgsRcvd = 0;
   _poll = poll;
+  _spi = &spi;
 
   ACAN2515Settings settings(_osc_freq, CANBITRATE);
 
@@ -185,7 +186,7 @@ void CAN2515::reset()
 {
   canp->end();
   delete canp;
-  begin();
+  begin(_poll, *_spi);
 }
 
 //
diff --git a/src/CAN2515.h b/src/CAN2515.h
index 547b355..dbf438c 100644
--- a/src/CAN2515.h
+++ b/src/CAN2515.h
@@ -72,6 +72,11 @@ private:
   byte _csPin, _intPin;
   byte _num_rx_buffers, _num_tx_buffers;
   bool _poll;
+#ifdef ARDUINO_ARCH_RP2040
+  SPIClassRP2040 *_spi;
+#else
+  SPIClass *_spi;
+#endif
 
 #ifdef ARDUINO_ARCH_RP2040
   byte _mosi_pin, _miso_pin, _sck_pin;
-- 
2.43.0


From 7a5f672b5536bfc9f1029092feb508c70a58d685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:22 +0000
Subject: [PATCH 28/44] fix: erase stored data when the Due EEPROM emulation is
 reset

---
 src/DueEepromEmulationStorage.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/DueEepromEmulationStorage.cpp b/src/DueEepromEmulationStorage.cpp
index fdcaf75..a4994a2 100644
--- a/src/DueEepromEmulationStorage.cpp
+++ b/src/DueEepromEmulationStorage.cpp
@@ -90,7 +90,16 @@ void DueEepromEmulationStorage::setChipEEPROMVal(unsigned int eeaddress, byte va
 //
 void DueEepromEmulationStorage::reset()
 {
-
+#ifdef __SAM3X8E__
+  // erase whole blocks at a time as every write rewrites at least one flash page
+  byte erased[256];
+  memset(erased, 0xff, sizeof(erased));
+  dueFlashStorage.write(10, erased, sizeof(erased) - 10);
+  for (unsigned int addr = sizeof(erased); addr < 4096; addr += sizeof(erased))
+  {
+    dueFlashStorage.write(addr, erased, sizeof(erased));
+  }
+#endif
 }
 
 }
\ No newline at end of file
-- 
2.43.0


From d834107d74768e90fc2bafbf2921ffe599c94c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:54 +0000
Subject: [PATCH 29/44] fix: give the right name of the Uninitialised mode

MODE_UNINITIALISED is 0xFF, so masking the mode with 0x07 made it Unknown.
---
 src/Configuration.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Configuration.cpp b/src/Configuration.cpp
index d27f22b..3337a71 100644
--- a/src/Configuration.cpp
+++ b/src/Configuration.cpp
@@ -297,7 +297,7 @@ void Configuration::updateEvHashEntry(byte idx)
 // Return a readable string for a mode value
 const char * Configuration::modeString(VlcbModeParams mode)
 {
-  switch (mode & 0x07)
+  switch (mode)
   {
     case MODE_NORMAL: return "Normal";
     case MODE_UNINITIALISED: return "Uninitialised";
-- 
2.43.0


From fa63353d86a233d63afa840712bc4a2ded93b9b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:05 +0000
Subject: [PATCH 30/44] fix: ignore commands that are too short to hold a node
 number

The missing bytes read as zero so a module numbered 0x0100, or not numbered
yet, would reset, enumerate or leave or enter learn mode on a truncated message.
---
 src/CanService.cpp           | 6 ++++++
 src/EventTeachingService.cpp | 6 ++++++
 src/MinimumNodeService.cpp   | 4 ++--
 3 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/CanService.cpp b/src/CanService.cpp
index d13cb83..de010d3 100644
--- a/src/CanService.cpp
+++ b/src/CanService.cpp
@@ -55,6 +55,12 @@ void CanService::handleCanServiceMessage(const VlcbMessage *msg)
   unsigned int opc = msg->data[0];
   unsigned int nn = (msg->data[1] << 8) + msg->data[2];
 
+  if (msg->len < 3)
+  {
+    // There is no complete node number so this message cannot be for this module.
+    return;
+  }
+
   switch (opc)
   {
     case OPC_CANID:
diff --git a/src/EventTeachingService.cpp b/src/EventTeachingService.cpp
index e93aae7..5373a94 100644
--- a/src/EventTeachingService.cpp
+++ b/src/EventTeachingService.cpp
@@ -41,6 +41,12 @@ void EventTeachingService::handleMessage(const VlcbMessage *msg)
   unsigned int en = Configuration::getTwoBytes(&msg->data[3]);
   //DEBUG_SERIAL << "ets>VlcbSvc handling message op=" << _HEX(opc) << " nn=" << nn << " en" << en << endl;
 
+  if (msg->len < 3)
+  {
+    // There is no complete node number so this message cannot be for this module.
+    return;
+  }
+
   switch (opc)
   {
   case OPC_MODE:
diff --git a/src/MinimumNodeService.cpp b/src/MinimumNodeService.cpp
index 326410c..424d027 100644
--- a/src/MinimumNodeService.cpp
+++ b/src/MinimumNodeService.cpp
@@ -240,7 +240,7 @@ void MinimumNodeService::handleMessage(const VlcbMessage *msg)
 
     case OPC_NNRSM:
       //4F - reset to manufacturer's defaults 
-      if (isThisNodeNumber(nn))
+      if (msg->len >= 3 && isThisNodeNumber(nn))
       {        
         controller->sendMessageWithNN(OPC_NNREL);  // release node number first
         module_config->resetModule();        
@@ -249,7 +249,7 @@ void MinimumNodeService::handleMessage(const VlcbMessage *msg)
       
     case OPC_NNRST:
       //5E - software reset
-      if (isThisNodeNumber(nn))
+      if (msg->len >= 3 && isThisNodeNumber(nn))
       {
         module_config->reboot();
       }
-- 
2.43.0


From a26c09ca9ef58c0f8cef19f482472f84dfa4452c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:06 +0000
Subject: [PATCH 31/44] fix: answer a truncated NENRD with an error instead of
 event index 0

---
 src/EventTeachingService.cpp | 11 +++++++++--
 src/EventTeachingService.h   |  2 +-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/EventTeachingService.cpp b/src/EventTeachingService.cpp
index 5373a94..6436885 100644
--- a/src/EventTeachingService.cpp
+++ b/src/EventTeachingService.cpp
@@ -81,7 +81,7 @@ void EventTeachingService::handleMessage(const VlcbMessage *msg)
 
   case OPC_NENRD:
     // 72 - request read stored event by event index
-    handleReadEventIndex(nn, msg->data[3]);
+    handleReadEventIndex(msg, nn);
     break;
 
   case OPC_REVAL:
@@ -250,12 +250,19 @@ void EventTeachingService::handleReadEvents(unsigned int nn)
   }      // for me
 }
 
-void EventTeachingService::handleReadEventIndex(unsigned int nn, byte eventIndex)
+void EventTeachingService::handleReadEventIndex(const VlcbMessage *msg, unsigned int nn)
 {
   // DEBUG_SERIAL << F("ets> NERD : request all stored events for nn = ") << nn << endl;
 
   if (isThisNodeNumber(nn))
   {
+    if (msg->len < 4)
+    {
+      controller->sendGRSP(OPC_NENRD, getServiceID(), CMDERR_INV_CMD);
+      return;
+    }
+
+    byte eventIndex = msg->data[3];
     Configuration *module_config = controller->getModuleConfig();
     if ((eventIndex >= module_config->EE_MAX_EVENTS) || (module_config->getEvTableEntry(eventIndex) == 0))
     {
diff --git a/src/EventTeachingService.h b/src/EventTeachingService.h
index 55e2ba1..09a6dc4 100644
--- a/src/EventTeachingService.h
+++ b/src/EventTeachingService.h
@@ -34,7 +34,7 @@ private:
   void handleUnlearn(unsigned int nn);
   void handleRequestEventCount(unsigned int nn);
   void handleReadEvents(unsigned int nn);
-  void handleReadEventIndex(unsigned int nn, byte eventIndex);
+  void handleReadEventIndex(const VlcbMessage *msg, unsigned int nn);
   void handleReadEventVariable(const VlcbMessage *msg, unsigned int nn);
   void handleClearEvents(unsigned int nn);
   void handleGetFreeEventSlots(unsigned int nn);
-- 
2.43.0


From c3db002a749586a4f6b7b81e0068b216efd75549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:06 +0000
Subject: [PATCH 32/44] fix: do not act on truncated event messages and event
 requests

The missing bytes of the event number read as zero, so another event was acted on.
---
 src/EventConsumerService.cpp | 6 ++++++
 src/EventProducerService.cpp | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/src/EventConsumerService.cpp b/src/EventConsumerService.cpp
index dc8ea29..cf4b7fe 100644
--- a/src/EventConsumerService.cpp
+++ b/src/EventConsumerService.cpp
@@ -67,6 +67,12 @@ void EventConsumerService::process(const Action *action)
 void EventConsumerService::handleConsumedMessage(const VlcbMessage *msg)
 {
   //DEBUG_SERIAL << ">Handle Message " << endl;
+  if (msg->len <= (msg->data[0] >> 5))
+  {
+    // Shorter than the length that is part of the op-code.
+    return;
+  }
+
   unsigned int opc = msg->data[0];
   unsigned int nn = Configuration::getTwoBytes(&msg->data[1]);
   unsigned int en = Configuration::getTwoBytes(&msg->data[3]);
diff --git a/src/EventProducerService.cpp b/src/EventProducerService.cpp
index f496fd9..91ec675 100644
--- a/src/EventProducerService.cpp
+++ b/src/EventProducerService.cpp
@@ -249,6 +249,12 @@ void EventProducerService::sendEvent(bool state, byte evValue, byte data1, byte
 
 void EventProducerService::handleProdSvcMessage(const VlcbMessage *msg) 
 {
+  if (msg->len <= (msg->data[0] >> 5))
+  {
+    // Shorter than the length that is part of the op-code.
+    return;
+  }
+
   unsigned int opc = msg->data[0];
   unsigned int nn = Configuration::getTwoBytes(&msg->data[1]);
   unsigned int en = Configuration::getTwoBytes(&msg->data[3]);
-- 
2.43.0


From e0f585f7d2c1c0069d69240abc2bb4fa2494f5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:35 +0000
Subject: [PATCH 33/44] fix: do not abort setup on a truncated RQNN

---
 src/MinimumNodeService.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MinimumNodeService.cpp b/src/MinimumNodeService.cpp
index 424d027..0fa4dc6 100644
--- a/src/MinimumNodeService.cpp
+++ b/src/MinimumNodeService.cpp
@@ -192,7 +192,7 @@ void MinimumNodeService::handleMessage(const VlcbMessage *msg)
       // 50 - Another module has entered setup.
       // If we are in setup, abort (MNS Spec 3.1.1)
 
-      if (instantMode == MODE_SETUP)
+      if (msg->len >= 3 && instantMode == MODE_SETUP)
       {
         instantMode = module_config->currentMode;
         controller->indicateMode(module_config->currentMode);
-- 
2.43.0


From 1cf0a950b923aa23e35e4ecdddd72b7064e55fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:48 +0000
Subject: [PATCH 34/44] fix: make the storage ready before a reset requested
 ahead of begin()

---
 src/Configuration.cpp | 29 ++++++++++++++++++++---------
 src/Configuration.h   |  1 +
 2 files changed, 21 insertions(+), 9 deletions(-)

diff --git a/src/Configuration.cpp b/src/Configuration.cpp
index 3337a71..9eb0ce3 100644
--- a/src/Configuration.cpp
+++ b/src/Configuration.cpp
@@ -48,15 +48,7 @@ Configuration::Configuration(Storage * theStorage)
 //
 void Configuration::begin()
 {
-  EE_BYTES_PER_EVENT = EE_HASH_BYTES + EE_NUM_EVS;
-  if (EE_EVENTS_START == 0)
-  {
-    EE_EVENTS_START = EE_NVS_START + EE_NUM_NVS;
-    // Note: The formula above does not allow for upgrades to user app where NVs are added 
-    // as this would move the location for stored events. 
-  }
-
-  storage->begin();
+  prepareStorage();
   loadNVs();
 
   if ((storage->read(LOCATION_MODE) == 0xFF) && (nodeNum == 0xFFFF))   // EEPROM is in factory virgin state
@@ -70,6 +62,22 @@ void Configuration::begin()
   makeEvHashTable();
 }
 
+//
+/// settle the storage layout and make the storage ready for use
+//
+void Configuration::prepareStorage()
+{
+  EE_BYTES_PER_EVENT = EE_HASH_BYTES + EE_NUM_EVS;
+  if (EE_EVENTS_START == 0)
+  {
+    EE_EVENTS_START = EE_NVS_START + EE_NUM_NVS;
+    // Note: The formula above does not allow for upgrades to user app where NVs are added 
+    // as this would move the location for stored events. 
+  }
+
+  storage->begin();
+}
+
 void Configuration::setModuleUninitializedMode()
 {
   setModuleMode(MODE_UNINITIALISED);
@@ -530,6 +538,9 @@ void Configuration::resetModule()
   // uint32_t t = millis();
   // DEBUG_SERIAL << F("> resetting EEPROM") << endl;
 
+  // sketches may reset the module during setup, before begin() is called
+  prepareStorage();
+
   // clear the learned events from storage
   storage->reset();
 
diff --git a/src/Configuration.h b/src/Configuration.h
index 6b4022a..d658356 100644
--- a/src/Configuration.h
+++ b/src/Configuration.h
@@ -104,6 +104,7 @@ private:
   byte makeHash(byte tarr[EE_HASH_BYTES]) const;
   void makeEvHashTable();
 
+  void prepareStorage();
   void loadNVs();
 
   unsigned int getEVAddress(byte idx, byte evnum) const;
-- 
2.43.0


From 7a3a32e2103bc73e471355d22034aa3072a541a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:22 +0000
Subject: [PATCH 35/44] fix: do not use long message contexts that have not
 been allocated

---
 src/LongMessageService.cpp | 17 ++++++++++-------
 src/LongMessageService.h   |  2 +-
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/LongMessageService.cpp b/src/LongMessageService.cpp
index b39110c..db5e492 100644
--- a/src/LongMessageService.cpp
+++ b/src/LongMessageService.cpp
@@ -361,17 +361,18 @@ bool LongMessageServiceEx::allocateContexts(byte num_receive_contexts, unsigned
 
 	// DEBUG_SERIAL << F("> receive_context_t * = ") << sizeof(receive_context_t *) << F(", receive_context_t = ") << sizeof(receive_context_t) << endl;
 
-	_num_receive_contexts = num_receive_contexts;
+	// no context can be used until it has been allocated
+	_num_receive_contexts = 0;
 	_receive_buffer_len = receive_buffer_len;
-	_num_send_contexts = num_send_contexts;
+	_num_send_contexts = 0;
 
 	// allocate receive contexts
-	if ((_receive_context = (receive_context_t **)malloc(sizeof(receive_context_t *) * _num_receive_contexts)) == NULL)
+	if ((_receive_context = (receive_context_t **)malloc(sizeof(receive_context_t *) * num_receive_contexts)) == NULL)
   {
 		return false;
 	}
 
-	for (i = 0; i < _num_receive_contexts; i++) {
+	for (i = 0; i < num_receive_contexts; i++) {
 		if ((_receive_context[i] = (receive_context_t *)malloc(sizeof(receive_context_t))) == NULL)
     {
 			return false;
@@ -384,14 +385,15 @@ bool LongMessageServiceEx::allocateContexts(byte num_receive_contexts, unsigned
 
 		_receive_context[i]->in_use = false;
 	}
+	_num_receive_contexts = num_receive_contexts;
 
 	// allocate send contexts - user code provides the buffer when sending
-	if ((_send_context = (send_context_t **)malloc(sizeof(send_context_t *) * _num_send_contexts)) == NULL)
+	if ((_send_context = (send_context_t **)malloc(sizeof(send_context_t *) * num_send_contexts)) == NULL)
   {
 		return false;
 	}
 
-	for (i = 0; i < _num_send_contexts; i++) {
+	for (i = 0; i < num_send_contexts; i++) {
 		if ((_send_context[i] = (send_context_t *)malloc(sizeof(send_context_t))) == NULL)
     {
 			return false;
@@ -399,6 +401,7 @@ bool LongMessageServiceEx::allocateContexts(byte num_receive_contexts, unsigned
 
 		_send_context[i]->in_use = false;
 	}
+	_num_send_contexts = num_send_contexts;
 
 	// DEBUG_SERIAL << F("> Lex: allocated send and receive contexts ok") << endl;
 	return true;
@@ -513,7 +516,7 @@ bool LongMessageServiceEx::process()
 
 	/// send the next outgoing fragment from each active context, after a configurable delay to avoid flooding the bus
 	/// concurrent streams will be interleaved
-	if (_send_context[context]->in_use && millis() - _send_context[context]->last_fragment_sent >= _msg_delay)
+	if (context < _num_send_contexts && _send_context[context]->in_use && millis() - _send_context[context]->last_fragment_sent >= _msg_delay)
   {
 		// DEBUG_SERIAL << F("> Lex: processing send context = ") << context << endl;
 
diff --git a/src/LongMessageService.h b/src/LongMessageService.h
index ced1c49..a91d854 100644
--- a/src/LongMessageService.h
+++ b/src/LongMessageService.h
@@ -113,7 +113,7 @@ private:
 
   bool _use_crc = false;
   byte _next_send_context = 0;
-  byte _num_receive_contexts = NUM_EX_CONTEXTS, _num_send_contexts = NUM_EX_CONTEXTS;
+  byte _num_receive_contexts = 0, _num_send_contexts = 0;
   receive_context_t **_receive_context = NULL;
   send_context_t **_send_context = NULL;
 };
-- 
2.43.0


From 381fbdbf5aaf21f3dc06d3bfb2be4907349a5b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:27 +0000
Subject: [PATCH 36/44] fix: terminate the text of full receive buffers in the
 long message example

---
 .../VLCB_long_message_example/VLCB_long_message_example.ino     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/examples/VLCB_long_message_example/VLCB_long_message_example.ino b/examples/VLCB_long_message_example/VLCB_long_message_example.ino
index 599d950..0a79558 100644
--- a/examples/VLCB_long_message_example/VLCB_long_message_example.ino
+++ b/examples/VLCB_long_message_example/VLCB_long_message_example.ino
@@ -97,7 +97,7 @@ void setupVLCB()
   ecService.setEventHandler(eventhandler);
 
   // subscribe to long message streams and register our handler function
-  lmsg.subscribe(streams, sizeof(streams) / sizeof(byte), lmsg_in, 32, longmessagehandler);
+  lmsg.subscribe(streams, sizeof(streams) / sizeof(byte), lmsg_in, sizeof(lmsg_in) - 1, longmessagehandler); // leave room for a terminating zero
 
   // configure and start CAN bus and VLCB message processing
   can2515.setNumBuffers(4, 2);      // more buffers = more memory used, fewer = less
-- 
2.43.0


From 45bc243d77f15c45db50432b57bdb17253e5594a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:27 +0000
Subject: [PATCH 37/44] fix: ignore requests for events of switches that do not
 exist in the 4in4out example

---
 examples/VLCB_4in4out/VLCB_4in4out.ino | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/examples/VLCB_4in4out/VLCB_4in4out.ino b/examples/VLCB_4in4out/VLCB_4in4out.ino
index 3a6ca90..db68533 100644
--- a/examples/VLCB_4in4out/VLCB_4in4out.ino
+++ b/examples/VLCB_4in4out/VLCB_4in4out.ino
@@ -346,6 +346,11 @@ void eventhandler(byte index, const VLCB::VlcbMessage *msg)
     case OPC_AREQ:
     case OPC_ASRQ:
       byte evval = modconfig.getEventEVval(index, 1) - 1;
+      if (evval >= NUM_SWITCHES)
+      {
+        // No such switch.
+        break;
+      }
       DEBUG_PRINT(F("> Handling request op =  ") << _HEX(opc) << F(", request input = ") << evval << F(", state = ") << state[evval]);
       epService.sendEventResponse(state[evval], index);
   }
-- 
2.43.0


From 08fe5c833808c2f1dad35333e2783c3856472b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:28 +0000
Subject: [PATCH 38/44] fix: tell on from off responses in the 1in1out examples

---
 examples/VLCB_1in1out/VLCB_1in1out.ino                   | 6 +++++-
 examples/VLCB_SerialGC_1in1out/VLCB_SerialGC_1in1out.ino | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/examples/VLCB_1in1out/VLCB_1in1out.ino b/examples/VLCB_1in1out/VLCB_1in1out.ino
index 89ce749..5b8a52d 100644
--- a/examples/VLCB_1in1out/VLCB_1in1out.ino
+++ b/examples/VLCB_1in1out/VLCB_1in1out.ino
@@ -207,8 +207,12 @@ void eventhandler(byte index, const VLCB::VlcbMessage *msg)
   // as an example, control an LED
 
   byte evval = modconfig.getEventEVval(index, 2);  //read ev2 because ev1 defines producer.
-  // Event Off op-codes have odd numbers.
+  // Event Off op-codes have odd numbers, except for the responses ARON and AROF.
   bool ison = (msg->data[0] & 0x01) == 0;
+  if (msg->data[0] == OPC_ARON || msg->data[0] == OPC_AROF)
+  {
+    ison = msg->data[0] == OPC_ARON;
+  }
 
   Serial << F("> event handler: index = ") << index << F(", opcode = 0x") << _HEX(msg->data[0]) << endl;
   Serial << F("> EV2 = ") << evval << endl;
diff --git a/examples/VLCB_SerialGC_1in1out/VLCB_SerialGC_1in1out.ino b/examples/VLCB_SerialGC_1in1out/VLCB_SerialGC_1in1out.ino
index a652f19..672452d 100644
--- a/examples/VLCB_SerialGC_1in1out/VLCB_SerialGC_1in1out.ino
+++ b/examples/VLCB_SerialGC_1in1out/VLCB_SerialGC_1in1out.ino
@@ -183,8 +183,12 @@ void eventhandler(byte index, const VLCB::VlcbMessage *msg)
   // as an example, control an LED
 
   byte evval = modconfig.getEventEVval(index, 2);  //read ev2 because ev1 defines producer.
-  // Event Off op-codes have odd numbers.
+  // Event Off op-codes have odd numbers, except for the responses ARON and AROF.
   bool ison = (msg->data[0] & 0x01) == 0;
+  if (msg->data[0] == OPC_ARON || msg->data[0] == OPC_AROF)
+  {
+    ison = msg->data[0] == OPC_ARON;
+  }
 
   Serial << F("> event handler: index = ") << index << F(", opcode = 0x") << _HEX(msg->data[0]) << endl;
   Serial << F("> EV2 = ") << evval << endl;
-- 
2.43.0


From 84010b1c1220081707a8d30a1ce153145a3589d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:11 +0000
Subject: [PATCH 39/44] fix: send the node number release before resetting the
 module

---
 src/MinimumNodeService.cpp | 9 ++++++++-
 src/MinimumNodeService.h   | 1 +
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/MinimumNodeService.cpp b/src/MinimumNodeService.cpp
index 0fa4dc6..84c957b 100644
--- a/src/MinimumNodeService.cpp
+++ b/src/MinimumNodeService.cpp
@@ -97,6 +97,13 @@ void MinimumNodeService::heartbeat()
 
 void MinimumNodeService::process(const Action *action)
 {
+  if (resetRequested && action == nullptr)
+  {
+    // All queued messages have been sent, including the release of the node number.
+    resetRequested = false;
+    controller->getModuleConfig()->resetModule();
+  }
+
   if (action != nullptr)
   {
     switch (action->actionType)
@@ -243,7 +250,7 @@ void MinimumNodeService::handleMessage(const VlcbMessage *msg)
       if (msg->len >= 3 && isThisNodeNumber(nn))
       {        
         controller->sendMessageWithNN(OPC_NNREL);  // release node number first
-        module_config->resetModule();        
+        resetRequested = true;  // reset once the release has been sent
       }
       break;
       
diff --git a/src/MinimumNodeService.h b/src/MinimumNodeService.h
index 87622bd..c496a0d 100644
--- a/src/MinimumNodeService.h
+++ b/src/MinimumNodeService.h
@@ -44,6 +44,7 @@ private:
   unsigned long lastHeartbeat = 0;
   byte heartbeatSequence = 0;
   bool noHeartbeat = false;
+  bool resetRequested = false;
   unsigned int heartRate = 5000;
 
   void handleRequestNodeParameters();
-- 
2.43.0


From a2306a5106ac00cdcb6ef017eee588cb9d8f2bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:12 +0000
Subject: [PATCH 40/44] fix: make the on-chip storage compile for ESP boards

---
 src/EepromInternalStorage.cpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/EepromInternalStorage.cpp b/src/EepromInternalStorage.cpp
index c414aa9..b7459a7 100644
--- a/src/EepromInternalStorage.cpp
+++ b/src/EepromInternalStorage.cpp
@@ -16,11 +16,7 @@ void EepromInternalStorage::begin()
 {
   // these devices require an explicit begin with the desired emulated size
 
-#if defined ESP32 || defined ESP8266
-  EEPROM.begin(EE_EVENTS_START + (EE_MAX_EVENTS * EE_BYTES_PER_EVENT));
-#endif
-
-#ifdef ARDUINO_ARCH_RP2040
+#if defined ESP32 || defined ESP8266 || defined ARDUINO_ARCH_RP2040
   EEPROM.begin(4096);
 #endif
 }
-- 
2.43.0


From 730dbef7b28d4b954aec2deec04e9cf43b05448a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:40 +0000
Subject: [PATCH 41/44] Revert changes to an example sketch (08fe5c8)

---
 examples/VLCB_1in1out/VLCB_1in1out.ino                   | 6 +-----
 examples/VLCB_SerialGC_1in1out/VLCB_SerialGC_1in1out.ino | 6 +-----
 2 files changed, 2 insertions(+), 10 deletions(-)

diff --git a/examples/VLCB_1in1out/VLCB_1in1out.ino b/examples/VLCB_1in1out/VLCB_1in1out.ino
index 5b8a52d..89ce749 100644
--- a/examples/VLCB_1in1out/VLCB_1in1out.ino
+++ b/examples/VLCB_1in1out/VLCB_1in1out.ino
@@ -207,12 +207,8 @@ void eventhandler(byte index, const VLCB::VlcbMessage *msg)
   // as an example, control an LED
 
   byte evval = modconfig.getEventEVval(index, 2);  //read ev2 because ev1 defines producer.
-  // Event Off op-codes have odd numbers, except for the responses ARON and AROF.
+  // Event Off op-codes have odd numbers.
   bool ison = (msg->data[0] & 0x01) == 0;
-  if (msg->data[0] == OPC_ARON || msg->data[0] == OPC_AROF)
-  {
-    ison = msg->data[0] == OPC_ARON;
-  }
 
   Serial << F("> event handler: index = ") << index << F(", opcode = 0x") << _HEX(msg->data[0]) << endl;
   Serial << F("> EV2 = ") << evval << endl;
diff --git a/examples/VLCB_SerialGC_1in1out/VLCB_SerialGC_1in1out.ino b/examples/VLCB_SerialGC_1in1out/VLCB_SerialGC_1in1out.ino
index 672452d..a652f19 100644
--- a/examples/VLCB_SerialGC_1in1out/VLCB_SerialGC_1in1out.ino
+++ b/examples/VLCB_SerialGC_1in1out/VLCB_SerialGC_1in1out.ino
@@ -183,12 +183,8 @@ void eventhandler(byte index, const VLCB::VlcbMessage *msg)
   // as an example, control an LED
 
   byte evval = modconfig.getEventEVval(index, 2);  //read ev2 because ev1 defines producer.
-  // Event Off op-codes have odd numbers, except for the responses ARON and AROF.
+  // Event Off op-codes have odd numbers.
   bool ison = (msg->data[0] & 0x01) == 0;
-  if (msg->data[0] == OPC_ARON || msg->data[0] == OPC_AROF)
-  {
-    ison = msg->data[0] == OPC_ARON;
-  }
 
   Serial << F("> event handler: index = ") << index << F(", opcode = 0x") << _HEX(msg->data[0]) << endl;
   Serial << F("> EV2 = ") << evval << endl;
-- 
2.43.0


From 2c6bdc23b11a4b12fba6b428a93b8f988b7b48e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:40 +0000
Subject: [PATCH 42/44] Revert changes to an example sketch (45bc243)

---
 examples/VLCB_4in4out/VLCB_4in4out.ino | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/examples/VLCB_4in4out/VLCB_4in4out.ino b/examples/VLCB_4in4out/VLCB_4in4out.ino
index db68533..3a6ca90 100644
--- a/examples/VLCB_4in4out/VLCB_4in4out.ino
+++ b/examples/VLCB_4in4out/VLCB_4in4out.ino
@@ -346,11 +346,6 @@ void eventhandler(byte index, const VLCB::VlcbMessage *msg)
     case OPC_AREQ:
     case OPC_ASRQ:
       byte evval = modconfig.getEventEVval(index, 1) - 1;
-      if (evval >= NUM_SWITCHES)
-      {
-        // No such switch.
-        break;
-      }
       DEBUG_PRINT(F("> Handling request op =  ") << _HEX(opc) << F(", request input = ") << evval << F(", state = ") << state[evval]);
       epService.sendEventResponse(state[evval], index);
   }
-- 
2.43.0


From 59a0caddf6185d958a59cf5d96fbf7553bbf4354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:40 +0000
Subject: [PATCH 43/44] Revert changes to an example sketch (381fbdb)

---
 .../VLCB_long_message_example/VLCB_long_message_example.ino     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/examples/VLCB_long_message_example/VLCB_long_message_example.ino b/examples/VLCB_long_message_example/VLCB_long_message_example.ino
index 0a79558..599d950 100644
--- a/examples/VLCB_long_message_example/VLCB_long_message_example.ino
+++ b/examples/VLCB_long_message_example/VLCB_long_message_example.ino
@@ -97,7 +97,7 @@ void setupVLCB()
   ecService.setEventHandler(eventhandler);
 
   // subscribe to long message streams and register our handler function
-  lmsg.subscribe(streams, sizeof(streams) / sizeof(byte), lmsg_in, sizeof(lmsg_in) - 1, longmessagehandler); // leave room for a terminating zero
+  lmsg.subscribe(streams, sizeof(streams) / sizeof(byte), lmsg_in, 32, longmessagehandler);
 
   // configure and start CAN bus and VLCB message processing
   can2515.setNumBuffers(4, 2);      // more buffers = more memory used, fewer = less
-- 
2.43.0


From 61a3b4dce5a9f32262fcdc014f5feb5d2b370210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:02 +0000
Subject: [PATCH 44/44] fix: take at most eight data bytes from a received CAN
 frame

---
 src/CAN2515.cpp    | 5 +++--
 src/CanService.cpp | 5 +++++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/CAN2515.cpp b/src/CAN2515.cpp
index 519744d..24179c9 100644
--- a/src/CAN2515.cpp
+++ b/src/CAN2515.cpp
@@ -129,8 +129,9 @@ CANFrame CAN2515::getNextCanFrame()
   frame.id = message.id;
   frame.ext = message.ext;
   frame.rtr = message.rtr;
-  frame.len = message.len;
-  memcpy(frame.data, message.data, message.len);
+  // length codes above 8 also mean 8 data bytes
+  frame.len = message.len > sizeof(frame.data) ? sizeof(frame.data) : message.len;
+  memcpy(frame.data, message.data, frame.len);
 
   return frame;
 }
diff --git a/src/CanService.cpp b/src/CanService.cpp
index de010d3..6d574f3 100644
--- a/src/CanService.cpp
+++ b/src/CanService.cpp
@@ -150,6 +150,11 @@ void CanService::checkIncomingCanFrame()
     return;
   }
   CANFrame canFrame = canTransport->getNextCanFrame();
+  if (canFrame.len > sizeof(canFrame.data))
+  {
+    // length codes above 8 also mean 8 data bytes
+    canFrame.len = sizeof(canFrame.data);
+  }
 
   // is this an extended frame ? we currently ignore these as bootloader, etc data may confuse us !
   if (canFrame.ext)
-- 
2.43.0

